package main

import (
	"context"
	"errors"
	"image"
	"io"
	"math/rand"
	"runtime"
	"time"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

// planCase is one way a run of spec/CanvasPipeline.tla can end.
type planCase struct {
	Plan struct {
		Layers, Workers int
		Cancelled       bool
		At              string
		K, Fail         int
		Res             string
	}
	Doc compDoc
}

var errInput = errors.New("input fails here")

// feed supplies a file in small pieces; at a given offset it calls hook, or fails.
type feed struct {
	b      []byte
	at     int
	off    int
	hook   func()
	failAt int
}

func (f *feed) Read(p []byte) (int, error) {
	if f.hook != nil && f.off >= f.at {
		h := f.hook
		f.hook = nil
		h()
	}
	if f.failAt >= 0 && f.off >= f.failAt {
		return 0, errInput
	}
	if f.off >= len(f.b) {
		return 0, io.EOF
	}
	n := len(f.b) - f.off
	if n > 64 {
		n = 64
	}
	if f.failAt >= 0 && n > f.failAt-f.off {
		n = f.failAt - f.off
	}
	n = copy(p, f.b[f.off:f.off+n])
	f.off += n
	return n, nil
}

func runPlan(t *kit.T, c *planCase) {
	procs(c.Plan.Workers, func() { plan(t, c, rand.New(rand.NewSource(t.Seed))) })
}

func plan(t *kit.T, c *planCase, rnd *rand.Rand) {
	p := &c.Plan
	file := c.Doc.file()
	end := len(file) - 3*c.Doc.W*c.Doc.H - 2 // the merged image is not read
	ts := []int{1, 2, 64}[rnd.Intn(3)]
	ref := newTree(t, file, ts, f64.Aff3{})
	if ref == nil {
		return
	}
	want := render(t, ref, ref.CanvasRect)

	whole := func(what string, tree *composite.Tree, err error, ref *composite.Tree, want *image.NRGBA) {
		if err != nil {
			t.Count("cancelled", 1)
			if tree != nil {
				t.Errorf("%s: returned a tree and the error %v", what, err)
			}
			if !p.Cancelled && p.Fail == 0 {
				t.Errorf("%s: nobody cancelled it but it failed: %v", what, err)
			}
			return
		}
		t.Count("completed", 1)
		if tree == nil {
			t.Errorf("%s: neither a tree nor an error", what)
			return
		}
		if s := sameTree(&ref.Root, &tree.Root); s != "" {
			t.Errorf("%s: %s", what, s)
		}
		if tree.CanvasRect != ref.CanvasRect || tree.Rect != ref.Rect {
			t.Errorf("%s: canvas %v and extent %v, want %v and %v", what, tree.CanvasRect, tree.Rect, ref.CanvasRect, ref.Rect)
			return
		}
		if s := samePix(render(t, tree, tree.CanvasRect), want); s != "" {
			t.Errorf("%s returned an incomplete tree: %s", what, s)
		}
	}

	// building
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	f := &feed{b: file, failAt: -1}
	span := func(k int) int { return 26 + (end-26)*k/(p.Layers+1) }
	if p.Fail > 0 {
		f.failAt = span(p.Fail)
		if f.failAt >= end {
			f.failAt = end - 1
		}
	}
	if p.Cancelled {
		f.at = span(p.K)
		if p.K > p.Layers {
			f.at = end - 64
		}
		switch p.At {
		case "read":
			if p.K == 1 && rnd.Intn(3) == 0 {
				cancel()
			}
			f.hook = cancel
		default: // while a layer is handed over or converted, or after the last of them
			d := time.Duration(rnd.Intn(60)) * time.Microsecond
			f.hook = func() {
				go func() {
					for s := time.Now(); time.Since(s) < d; {
						runtime.Gosched()
					}
					cancel()
				}()
			}
		}
	}
	var tree *composite.Tree
	var err error
	t.Guard("New", func() { tree, err = composite.New(ctx, f, &composite.Options{TileSize: ts}) })
	if p.Fail > 0 && err == nil {
		t.Errorf("New succeeded although reading failed at %d of %d", f.failAt, end)
	}
	whole("New", tree, err, ref, want)
	if len(t.Fails) > 0 || p.Fail > 0 {
		return
	}

	// transforming: by whole pixels and by half a pixel
	m := f64.Aff3{1, 0, float64(p.K), 0, 1, -1}
	if rnd.Intn(2) == 0 {
		m[2] += 0.5
	}
	tref, err := ref.Transform(context.Background(), m, 0)
	if err != nil {
		t.Errorf("Transform failed: %v", err)
		return
	}
	twant := render(t, tref, tref.CanvasRect)
	ctx = disturb(p.Cancelled, rnd)
	var nt *composite.Tree
	t.Guard("Transform", func() { nt, err = ref.Transform(ctx, m, 0) })
	whole("Transform", nt, err, tref, twant)
	if s := samePix(render(t, ref, ref.CanvasRect), want); s != "" {
		t.Errorf("the original after a cancelled transform: %s", s)
	}

	// thumbnails
	all, err := ref.Thumbnails(context.Background(), 5)
	if err != nil {
		t.Errorf("Thumbnails failed: %v", err)
		return
	}
	var th map[int]*image.NRGBA
	ctx = disturb(p.Cancelled, rnd)
	t.Guard("Thumbnails", func() { th, err = ref.Thumbnails(ctx, 5) })
	if err == nil && len(th) != len(all) {
		t.Errorf("Thumbnails, cancelled: %d of %d thumbnails and no error", len(th), len(all))
	}
	var cells map[int]image.Rectangle
	ctx = disturb(p.Cancelled, rnd)
	t.Guard("ThumbnailSheet", func() { _, cells, err = ref.ThumbnailSheet(ctx, 5) })
	if err == nil && len(cells) != len(all) {
		t.Errorf("ThumbnailSheet, cancelled: %d of %d thumbnails and no error", len(cells), len(all))
	}
}

// disturb returns a context that is cancelled before, at once when asked, or a little later.
func disturb(cancelled bool, rnd *rand.Rand) context.Context {
	if !cancelled {
		return context.Background()
	}
	k := rnd.Intn(3)
	if k == 1 {
		d := time.Duration(rnd.Intn(40)) * time.Microsecond
		return newCctx(func() bool {
			for s := time.Now(); time.Since(s) < d; {
				runtime.Gosched()
			}
			return true
		})
	}
	ctx, cancel := context.WithCancel(context.Background())
	if k == 0 {
		cancel()
	} else {
		d := time.Duration(rnd.Intn(80)) * time.Microsecond
		go func() {
			for s := time.Now(); time.Since(s) < d; {
				runtime.Gosched()
			}
			cancel()
		}()
	}
	return ctx
}
