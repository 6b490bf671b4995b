package main

import (
	"context"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"math/rand"
	"sync"
	"time"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

// scriptCase is a history of spec/RenderCache.tla.
type scriptCase struct {
	Script []event
	Doc    compDoc
	TS     int
}

type event struct {
	Op      string
	I       int
	F       string
	V       json.RawMessage
	Diff    bool
	Aside   bool // to another picture
	Aborted bool
	Left    int
	Check   bool
}

// side is a renderer of the history: the original or its clone.
type side struct {
	tree    *composite.Tree
	ls      map[int]*composite.Layer
	set     compDoc
	dest    *image.NRGBA
	start   *image.NRGBA // what dest held before anything was rendered
	touched map[int]bool // nodes edited or announced since the last render that completed
	all     bool         // nothing was rendered yet
	lost    bool         // something was rendered elsewhere: dest is not what the renderer thinks it is
}

func (d compDoc) copySettings() compDoc {
	d.Vis = append([]bool(nil), d.Vis...)
	d.Op = append([]int(nil), d.Op...)
	d.BM = append([]string(nil), d.BM...)
	d.Mask = append([]maskDoc(nil), d.Mask...)
	return d
}

func clonePix(m *image.NRGBA) *image.NRGBA {
	return &image.NRGBA{Pix: append([]byte(nil), m.Pix...), Stride: m.Stride, Rect: m.Rect}
}

// blank makes a destination; what it holds within r is arbitrary.
func blank(canvas, r image.Rectangle, rnd *rand.Rand) *image.NRGBA {
	m := image.NewNRGBA(canvas)
	if rnd.Intn(2) == 0 {
		r = r.Intersect(canvas)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.SetNRGBA(x, y, color.NRGBA{uint8(rnd.Intn(256)), uint8(rnd.Intn(256)), 9, uint8(rnd.Intn(256))})
			}
		}
	}
	return m
}

// cctx calls f once, when the renderer first asks for the channel, and is then cancelled if f says so.
type cctx struct {
	context.Context
	once sync.Once
	f    func() bool
	ch   chan struct{}
	mu   sync.Mutex
	err  error
}

func newCctx(f func() bool) *cctx {
	return &cctx{Context: context.Background(), f: f, ch: make(chan struct{})}
}

func (c *cctx) Done() <-chan struct{} {
	c.once.Do(func() {
		if c.f() {
			c.mu.Lock()
			c.err = context.Canceled
			c.mu.Unlock()
			close(c.ch)
		}
	})
	return c.ch
}

func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (s *side) apply(t *kit.T, e *event) {
	l := s.ls[e.I]
	switch e.Op {
	case "edit":
		switch e.F {
		case "vis":
			var v bool
			parse(e.V, &v)
			l.Visible, s.set.Vis[e.I-1] = v, v
		case "op":
			var v int
			parse(e.V, &v)
			l.Opacity, s.set.Op[e.I-1] = v, v
		case "bm":
			var v string
			parse(e.V, &v)
			l.BlendMode, s.set.BM[e.I-1] = psd.BlendMode(bmKey[v]), v
		case "mask":
			var v bool
			parse(e.V, &v)
			l.MaskEnabled, s.set.Mask[e.I-1].On = v, v
		}
	case "announce":
		t.Guard("SetDirtyByLayer", func() { s.tree.Renderer.SetDirtyByLayer(l) })
	}
	s.touched[e.I] = true
}

// reach is the part of the picture that node i can influence, in whole tiles.
func (c *scriptCase) reach(i int) []image.Rectangle {
	var rs []image.Rectangle
	if !c.Doc.Grp[i-1] {
		r := rect4(c.Doc.Rect[i-1])
		if r.Dx() > 0 && r.Dy() > 0 {
			fl := func(v int) int { return v - ((v%c.TS)+c.TS)%c.TS }
			rs = append(rs, image.Rect(fl(r.Min.X), fl(r.Min.Y), fl(r.Max.X-1)+c.TS, fl(r.Max.Y-1)+c.TS))
		}
	}
	for k := 1; k <= c.Doc.N; k++ {
		if c.Doc.Par[k-1] == i {
			rs = append(rs, c.reach(k)...)
		}
	}
	return rs
}

var sentinel = color.NRGBA{7, 77, 177, 0}

func runScript(t *kit.T, c *scriptCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	n := []int{1, 2, 8}[rnd.Intn(3)]
	procs(n, func() { script(t, c, rnd) })
}

func script(t *kit.T, c *scriptCase, rnd *rand.Rand) {
	file := c.Doc.file()
	mk := func(tree *composite.Tree, set compDoc) *side {
		s := &side{tree: tree, ls: layers(tree), set: set.copySettings(), touched: map[int]bool{}, all: true}
		s.dest = blank(tree.CanvasRect, tree.Rect, rnd)
		s.start = clonePix(s.dest)
		return s
	}
	tree := newTree(t, file, c.TS, f64.Aff3{})
	if tree == nil {
		return
	}
	s := mk(tree, c.Doc)
	var o *side
	disturbed := false // something was cancelled, or announced during a render
	fresh := func(s *side) *image.NRGBA {
		ft := newTree(t, s.set.file(), c.TS, f64.Aff3{})
		d := clonePix(s.start)
		if ft == nil {
			return d
		}
		if err := ft.Renderer.Render(context.Background(), d); err != nil {
			t.Errorf("render of a new tree failed: %v", err)
		}
		return d
	}
	for k := 0; k < len(c.Script) && len(t.Fails) == 0; k++ {
		e := &c.Script[k]
		switch e.Op {
		case "edit", "announce":
			s.apply(t, e)
		case "clone":
			var cl *composite.Tree
			t.Guard("Clone", func() { cl = s.tree.Clone() })
			if cl == nil {
				return
			}
			o = s
			s = mk(cl, s.set)
		case "swap":
			s, o = o, s
		case "newdest":
			s.dest = blank(s.tree.CanvasRect, s.tree.Rect, rnd)
			s.start = clonePix(s.dest)
		case "begin":
			var during []*event
			j := k + 1
			for c.Script[j].Op != "end" {
				during = append(during, &c.Script[j])
				j++
			}
			end := &c.Script[j]
			desc := fmt.Sprintf("history event %d of %d (%s)", k, len(c.Script), map[bool]string{true: "RenderDiff", false: "Render"}[e.Diff])
			k = j
			check := end.Check
			switch t.Prop {
			case "C12":
				check = check && !e.Diff
			case "C13":
				check = check && e.Diff
			case "C14":
				check = check && disturbed
			}
			if end.Aborted || len(during) > 0 {
				disturbed = true
			}
			if s.lost && e.Diff {
				check = false
			}
			dest := s.dest
			if e.Aside {
				dest = clonePix(s.start)
				check = false
			}
			before := clonePix(dest)
			guard := t.Prop == "C13" && check && e.Diff
			var keep []image.Point
			if guard {
				var rs []image.Rectangle
				for i := range s.touched {
					rs = append(rs, c.reach(i)...)
				}
				for y := s.dest.Rect.Min.Y; y < s.dest.Rect.Max.Y; y++ {
					for x := s.dest.Rect.Min.X; x < s.dest.Rect.Max.X; x++ {
						p := image.Pt(x, y)
						in := false
						for _, r := range rs {
							in = in || p.In(r)
						}
						if !in {
							keep = append(keep, p)
							s.dest.SetNRGBA(x, y, sentinel)
						}
					}
				}
				t.Count("untouched_pixels", len(keep))
			}
			var ctx context.Context = context.Background()
			touched := s.touched
			s.touched = map[int]bool{}
			if end.Aborted || len(during) > 0 {
				at := rnd.Intn(3)
				ctx = newCctx(func() bool {
					if kit.Race { // keep away from what the workers are using
						time.Sleep(time.Duration(at*at) * 50 * time.Microsecond)
						for _, d := range during {
							if d.Op == "announce" {
								s.apply(t, d)
							}
						}
						return end.Aborted
					}
					if end.Aborted && at > 0 {
						waitProgress(dest, before, at)
					}
					for _, d := range during {
						s.apply(t, d)
					}
					return end.Aborted
				})
			}
			var err error
			t.Guard("Render", func() {
				if e.Diff {
					err = s.tree.Renderer.RenderDiff(ctx, dest)
				} else {
					err = s.tree.Renderer.Render(ctx, dest)
				}
			})
			if kit.Race {
				for _, d := range during {
					s.apply(t, d)
				}
			}
			t.Count("renders", 1)
			if err != nil && !(end.Aborted && err == composite.ErrAborted) {
				t.Errorf("%s: error %v (cancelled: %v)", desc, err, end.Aborted)
			}
			if err != nil {
				t.Count("cancelled", 1)
				if samePix(before, dest) != "" {
					t.Count("cancelled_midway", 1)
					if e.Aside {
						t.Count("cancelled_aside", 1)
					}
				}
				for i := range touched {
					s.touched[i] = true
				}
			}
			if err == nil {
				if e.Aside {
					s.lost = true // too late to be cancelled
				} else if !e.Diff {
					s.lost = false
				}
			}
			if guard {
				for _, p := range keep {
					if s.dest.NRGBAAt(p.X, p.Y) != sentinel {
						t.Errorf("%s: pixel %v was drawn although no edit reaches it", desc, p)
						break
					}
				}
				for _, p := range keep {
					s.dest.SetNRGBA(p.X, p.Y, before.NRGBAAt(p.X, p.Y))
				}
			}
			if check && err == nil {
				t.Count("compared", 1)
				if d := samePix(s.dest, fresh(s)); d != "" {
					t.Errorf("%s differs from a new tree with the same settings: %s", desc, d)
				}
			}
		}
	}
}

// waitProgress waits until the workers changed the n-th of a few places of the picture.
func waitProgress(dst, before *image.NRGBA, n int) {
	deadline := time.Now().Add(300 * time.Microsecond)
	for time.Now().Before(deadline) {
		seen := 0
		for o := 0; o+3 < len(dst.Pix); o += 4 {
			if dst.Pix[o+3] != before.Pix[o+3] || dst.Pix[o] != before.Pix[o] {
				if seen++; seen >= n {
					return
				}
			}
		}
	}
}
