package main

import (
	"fmt"
	"image"
	"math/rand"
	"time"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

// newsCase is a behaviour of spec/LateNews.tla.
type newsCase struct {
	News []struct {
		Op            string
		G, Far        int
		Aborted, Sure bool
		Shows         []int
	}
	Groups, Tiles int
}

const newsTile, newsFill = 64, 12

// newsDoc has a group for each group of the specification, and layers above them that keep workers
// busy after they took what a group's cache holds.
func newsDoc(n, tiles int, rnd *rand.Rand) *compDoc {
	d := &compDoc{W: newsTile, H: newsTile * 2 * tiles}
	all := [4]int{0, 0, d.W, d.H}
	px := func(a int) [][4]int {
		p := make([][4]int, d.W*d.H)
		c := [4]int{rnd.Intn(256), rnd.Intn(256), rnd.Intn(256), a}
		for i := range p {
			p[i] = c
		}
		return p
	}
	add := func(par int, grp bool, a int) {
		d.N++
		d.Par = append(d.Par, par)
		d.Grp = append(d.Grp, grp)
		d.BM = append(d.BM, "Normal")
		d.Clip = append(d.Clip, false)
		d.Op = append(d.Op, 255)
		d.Vis = append(d.Vis, true)
		d.Open = append(d.Open, true)
		d.HasA = append(d.HasA, !grp)
		d.Mask = append(d.Mask, maskDoc{})
		if grp {
			d.Rect = append(d.Rect, [4]int{})
			d.Pix = append(d.Pix, nil)
		} else {
			d.Rect = append(d.Rect, all)
			d.Pix = append(d.Pix, px(a))
		}
	}
	for g := 0; g < n; g++ {
		add(0, true, 0)
		add(d.N, false, 128)
	}
	for i := 0; i < newsFill; i++ {
		add(0, false, 10)
	}
	return d
}

func runNews(t *kit.T, c *newsCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	d := newsDoc(c.Groups, c.Tiles, rnd)
	procs([]int{2, 4, 8}[rnd.Intn(3)], func() { news(t, c, d, rnd) })
}

func news(t *kit.T, c *newsCase, d *compDoc, rnd *rand.Rand) {
	file := d.file()
	tree := newTree(t, file, newsTile, f64.Aff3{})
	if tree == nil {
		return
	}
	ls := layers(tree)
	opacity := [2]int{255, 100}
	leafOf := func(g int) int { return 2 * g }
	set := make([]int, c.Groups+1)

	fresh := map[string]*image.NRGBA{}
	want := func(shows []int) *image.NRGBA {
		k := fmt.Sprint(shows)
		if fresh[k] == nil {
			ft := newTree(t, file, newsTile, f64.Aff3{})
			if ft == nil {
				return nil
			}
			fl := layers(ft)
			for g := 1; g <= c.Groups; g++ {
				fl[leafOf(g)].Opacity = opacity[shows[g-1]]
			}
			fresh[k] = render(t, ft, ft.CanvasRect)
		}
		return fresh[k]
	}
	start := time.Now()
	if want(make([]int, c.Groups)) == nil {
		return
	}
	whole := time.Since(start)

	for k := 0; k < len(c.News) && len(t.Fails) == 0; k++ {
		e := &c.News[k]
		switch e.Op {
		case "edit":
			set[e.G] = 1 - set[e.G]
			ls[leafOf(e.G)].Opacity = opacity[set[e.G]]
		case "announce":
			t.Guard("SetDirtyByLayer", func() { tree.Renderer.SetDirtyByLayer(ls[leafOf(e.G)]) })
		case "begin":
			j := k + 1
			for c.News[j].Op != "end" {
				j++
			}
			end := &c.News[j]
			during := c.News[k+1 : j]
			k = j
			t0 := time.Now()
			until := func(far int) {
				f := float64(far)/100*(0.5+rnd.Float64()) - 0.05
				for time.Since(t0) < time.Duration(f*float64(whole)) {
				}
			}
			ctx := newCctx(func() bool {
				for i := range during {
					until(during[i].Far)
					tree.Renderer.SetDirtyByLayer(ls[leafOf(during[i].G)])
					t.Count("late", 1)
				}
				if end.Aborted {
					until(end.Far)
				}
				return end.Aborted
			})
			dst := image.NewNRGBA(tree.CanvasRect)
			var err error
			t.Guard("Render", func() { err = tree.Renderer.Render(ctx, dst) })
			t.Count("renders", 1)
			if err != nil && !(end.Aborted && err == composite.ErrAborted) {
				t.Errorf("event %d: error %v (cancelled: %v)", k, err, end.Aborted)
			}
			if end.Sure && err == nil {
				t.Count("compared", 1)
				if s := samePix(dst, want(end.Shows)); s != "" {
					t.Errorf("event %d of %d: the render differs from a new tree with the same settings: %s", k, len(c.News), s)
				}
			}
		}
	}
}
