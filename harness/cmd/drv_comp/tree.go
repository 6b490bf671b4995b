package main

import (
	"context"
	"image"
	"math/rand"

	"github.com/oov/downscale"
	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

func transform(t *kit.T, tree *composite.Tree, m f64.Aff3) *composite.Tree {
	var nt *composite.Tree
	var err error
	t.Guard("Transform", func() { nt, err = tree.Transform(context.Background(), m, 0) })
	if err != nil || nt == nil {
		t.Errorf("Transform failed: %v", err)
		return nil
	}
	return nt
}

func compClone(t *kit.T, c *compCase, rnd *rand.Rand) {
	b := c.Doc.file()
	ts := []int{1, 3, 4, 16, 64}[rnd.Intn(5)]
	tree := newTree(t, b, ts, f64.Aff3{})
	if tree == nil {
		return
	}
	if s := own(tree); s != "" {
		t.Errorf("new tree: %s", s)
	}
	canvas := tree.CanvasRect
	fresh := func() *image.NRGBA { return render(t, newTree(t, b, ts, f64.Aff3{}), canvas) }
	want := fresh()
	if rnd.Intn(2) == 0 { // a clone of a tree with filled caches
		render(t, tree, canvas)
	}
	var cl *composite.Tree
	t.Guard("Clone", func() { cl = tree.Clone() })
	if cl == nil {
		return
	}
	if s := own(cl); s != "" {
		t.Errorf("clone: %s", s)
	}
	if s := sameTree(&tree.Root, &cl.Root); s != "" {
		t.Errorf("clone: %s", s)
	}
	if cl.Rect != tree.Rect || cl.CanvasRect != tree.CanvasRect {
		t.Errorf("clone has extent %v and canvas %v, the original %v and %v", cl.Rect, cl.CanvasRect, tree.Rect, tree.CanvasRect)
	}
	if s := samePix(render(t, cl, canvas), want); s != "" {
		t.Errorf("clone: %s", s)
	}
	// edits of one do not reach the other
	scramble(cl, rnd)
	render(t, cl, canvas)
	if s := samePix(render(t, tree, canvas), want); s != "" {
		t.Errorf("original after edits of the clone: %s", s)
	}
	cl2 := tree.Clone()
	scramble(tree, rnd)
	render(t, tree, canvas)
	if s := samePix(render(t, cl2, canvas), want); s != "" {
		t.Errorf("clone after edits of the original: %s", s)
	}

	// transforms
	tree = newTree(t, b, ts, f64.Aff3{})
	if tree == nil {
		return
	}
	base := tree.Rect
	move := func(what string, nt *composite.Tree, d image.Point) {
		if nt == nil {
			return
		}
		if s := own(nt); s != "" {
			t.Errorf("%s: %s", what, s)
		}
		if s := sameTree(&tree.Root, &nt.Root); s != "" {
			t.Errorf("%s: %s", what, s)
		}
		if nt.CanvasRect != canvas.Add(d) {
			t.Errorf("%s: canvas %v, want %v", what, nt.CanvasRect, canvas.Add(d))
			return
		}
		if nt.Rect != base.Add(d) && !(base.Empty() && nt.Rect.Empty()) {
			t.Errorf("%s: extent %v, want %v", what, nt.Rect, base.Add(d))
		}
		got := render(t, nt, nt.CanvasRect)
		got.Rect = got.Rect.Sub(d)
		if s := samePix(got, want); s != "" {
			t.Errorf("%s by %v: %s", what, d, s)
		}
		t.Count("transforms", 1)
	}
	move("identity transform", transform(t, tree, identity), image.Point{})
	d := image.Pt(rnd.Intn(21)-10, rnd.Intn(21)-10)
	m := f64.Aff3{1, 0, float64(d.X), 0, 1, float64(d.Y)}
	n := []int{1, 2, 8}[rnd.Intn(3)]
	procs(n, func() {
		nt := transform(t, tree, m)
		move("translation", nt, d)
		if nt == nil {
			return
		}
		// there and back, through the transformed tree
		back := transform(t, nt, f64.Aff3{1, 0, float64(-d.X), 0, 1, float64(-d.Y)})
		move("translation back", back, image.Point{})
		if back != nil {
			scramble(back, rnd)
			render(t, back, canvas)
		}
		scramble(nt, rnd)
		render(t, nt, nt.CanvasRect)
	})
	move("translation while loading", newTree(t, b, ts, m), d)
	if tree.CanvasRect != canvas || tree.Rect != base {
		t.Errorf("the transformed tree's original has canvas %v and extent %v, was %v and %v", tree.CanvasRect, tree.Rect, canvas, base)
	}
	if s := samePix(render(t, tree, canvas), want); s != "" {
		t.Errorf("original after transforms: %s", s)
	}
}

// trimmed is the part of leaf i that the thumbnail has to show.
func trimmed(c *compCase, i int) *image.NRGBA {
	bb := rect4(c.BBox[i-1])
	w := c.Doc.Rect[i-1][2] - c.Doc.Rect[i-1][0]
	img := image.NewNRGBA(image.Rect(0, 0, bb.Dx(), bb.Dy()))
	for y := 0; y < bb.Dy(); y++ {
		for x := 0; x < bb.Dx(); x++ {
			p := c.Doc.Pix[i-1][(y+bb.Min.Y)*w+x+bb.Min.X]
			o := img.PixOffset(x, y)
			a := byte(p[3])
			if !c.Doc.HasA[i-1] {
				a = 255
			}
			img.Pix[o], img.Pix[o+1], img.Pix[o+2], img.Pix[o+3] = byte(p[0]), byte(p[1]), byte(p[2]), a
		}
	}
	return img
}

// near compares images premultiplied, within tol levels.
func near(a, b *image.NRGBA, tol int) bool {
	if a.Rect.Dx() != b.Rect.Dx() || a.Rect.Dy() != b.Rect.Dy() {
		return false
	}
	for y := 0; y < a.Rect.Dy(); y++ {
		for x := 0; x < a.Rect.Dx(); x++ {
			p := a.NRGBAAt(a.Rect.Min.X+x, a.Rect.Min.Y+y)
			r := b.NRGBAAt(b.Rect.Min.X+x, b.Rect.Min.Y+y)
			if diff(int(p.A), int(r.A)) > tol || diff(int(p.R)*int(p.A)/255, int(r.R)*int(r.A)/255) > tol ||
				diff(int(p.G)*int(p.A)/255, int(r.G)*int(r.A)/255) > tol || diff(int(p.B)*int(p.A)/255, int(r.B)*int(r.A)/255) > tol {
				return false
			}
		}
	}
	return true
}

func diff(a, b int) int {
	if a > b {
		return a - b
	}
	return b - a
}

func compThumbs(t *kit.T, c *compCase, rnd *rand.Rand) {
	b := c.Doc.file()
	ts := []int{1, 3, 8, 64}[rnd.Intn(4)]
	size := c.Size
	n := []int{1, 2, 8}[rnd.Intn(3)]
	procs(n, func() {
		tree := newTree(t, b, ts, f64.Aff3{})
		if tree == nil {
			return
		}
		ls := layers(tree)
		var m map[int]*image.NRGBA
		var sheet *image.NRGBA
		var cells map[int]image.Rectangle
		var err error
		t.Guard("Thumbnails", func() { m, err = tree.Thumbnails(context.Background(), size) })
		if err != nil {
			t.Errorf("Thumbnails failed: %v", err)
		}
		t.Guard("ThumbnailSheet", func() { sheet, cells, err = tree.ThumbnailSheet(context.Background(), size) })
		if err != nil || sheet == nil {
			t.Errorf("ThumbnailSheet failed: %v", err)
			return
		}
		count := 0
		for i := 1; i <= c.Doc.N; i++ {
			l := ls[i]
			if l == nil {
				t.Errorf("layer %d is missing", i)
				return
			}
			bb := rect4(c.BBox[i-1])
			has := !bb.Empty()
			th, ok := m[l.SeqID]
			cell, okc := cells[l.SeqID]
			buf := make([]byte, rnd.Intn(2)*(rnd.Intn(600)))
			for k := range buf {
				buf[k] = byte(rnd.Intn(256))
			}
			var one *image.NRGBA
			t.Guard("Thumbnail", func() { one, err = tree.Thumbnail(l.SeqID, size, buf) })
			if ok != has || okc != has || (err == nil) != has {
				t.Errorf("layer %s: has pixels %v, but Thumbnails %v, ThumbnailSheet %v, Thumbnail error %v", l.Name, has, ok, okc, err)
				continue
			}
			if !has {
				continue
			}
			count++
			t.Count("thumbnails", 1)
			src := trimmed(c, i)
			w, h := size, size
			if bb.Dx() > bb.Dy() {
				h = max(1, bb.Dy()*size/bb.Dx())
			} else {
				w = max(1, bb.Dx()*size/bb.Dy())
			}
			if th.Rect.Dx() != one.Rect.Dx() || th.Rect.Dy() != one.Rect.Dy() || diff(th.Rect.Dx(), w) > 1 || diff(th.Rect.Dy(), h) > 1 || th.Rect.Dx() > size || th.Rect.Dy() > size || th.Rect.Empty() {
				t.Errorf("layer %s: thumbnail is %v (%v on its own), want about %dx%d", l.Name, th.Rect, one.Rect, w, h)
				continue
			}
			want := image.NewNRGBA(image.Rect(0, 0, th.Rect.Dx(), th.Rect.Dy()))
			if err := downscale.NRGBAFast(context.Background(), want, src); err != nil {
				panic(err)
			}
			if !near(th, want, 3) || !near(one, want, 3) {
				t.Errorf("layer %s: thumbnail does not show the layer's own area: %v, want %v", l.Name, th.Pix, want.Pix)
			}
			if !cell.In(sheet.Rect) || cell.Dx() != size || cell.Dy() != size {
				t.Errorf("layer %s: cell %v of size %d in sheet %v", l.Name, cell, size, sheet.Rect)
				continue
			}
			for k, o := range cells {
				if k != l.SeqID && o.Overlaps(cell) {
					t.Errorf("cells %v and %v overlap", o, cell)
				}
			}
			ox, oy := cell.Min.X+(size-want.Rect.Dx())/2, cell.Min.Y+(size-want.Rect.Dy())/2
			exp := image.NewNRGBA(cell)
			for y := 0; y < want.Rect.Dy(); y++ {
				for x := 0; x < want.Rect.Dx(); x++ {
					exp.SetNRGBA(ox+x, oy+y, want.NRGBAAt(x, y))
				}
			}
			if !near(sheet.SubImage(cell).(*image.NRGBA), exp, 4) {
				t.Errorf("layer %s: cell %v of the sheet does not hold its thumbnail centered", l.Name, cell)
			}
		}
		if len(m) != count || len(cells) != count {
			t.Errorf("%d thumbnails and %d cells for %d layers with pixels", len(m), len(cells), count)
		}
		for y := sheet.Rect.Min.Y; y < sheet.Rect.Max.Y; y++ {
			for x := sheet.Rect.Min.X; x < sheet.Rect.Max.X; x++ {
				if sheet.NRGBAAt(x, y).A == 0 {
					continue
				}
				in := false
				for _, o := range cells {
					in = in || image.Pt(x, y).In(o)
				}
				if !in {
					t.Errorf("pixel (%d,%d) of the sheet is drawn but in no cell", x, y)
					return
				}
			}
		}
	})
}
