package main

import (
	"bytes"
	"context"
	"image"
	"runtime"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

// moveCase is a behaviour of spec/Moves.tla.
type moveCase struct {
	Moves  [][][]int // rows of the destination; a pixel of no numbers may show anything
	Doc    compDoc
	Maps   [][7]int
	Gamma  int // tenths, 0: none
	Via    string
	Seed   int
	Canvas [4]int
	Whole  bool
	Rect   [4]int
}

func aff(m [7]int) f64.Aff3 {
	var a f64.Aff3
	for i := range a {
		a[i] = float64(m[i]) / float64(m[6])
	}
	return a
}

// moved builds the document and carries out the maps. It returns nil if something was wrong.
func moved(t *kit.T, doc *compDoc, maps [][7]int, gamma float64, via string, seed int, canvas image.Rectangle) *composite.Tree {
	opt := composite.Options{TileSize: []int{0, 1, 3, 8, 16}[seed%5], Gamma: gamma}
	all := maps
	if via == "new" {
		opt.TransformMatrix, maps = aff(maps[0]), maps[1:]
	}
	n := []int{1, 2, 8}[seed/5%3]
	old := runtime.GOMAXPROCS(n)
	defer runtime.GOMAXPROCS(old)

	var tree *composite.Tree
	var err error
	t.Guard("New", func() { tree, err = composite.New(context.Background(), bytes.NewReader(doc.file()), &opt) })
	if err != nil || tree == nil {
		t.Errorf("New failed on a well-formed file: %v", err)
		return nil
	}
	for _, m := range maps {
		before := render(t, tree, tree.CanvasRect)
		var nt *composite.Tree
		t.Guard("Transform", func() { nt, err = tree.Transform(context.Background(), aff(m), gamma) })
		if err != nil || nt == nil {
			t.Errorf("Transform failed: %v", err)
			return nil
		}
		if s := samePix(render(t, tree, tree.CanvasRect), before); s != "" {
			t.Errorf("Transform changed the tree it was called on: %s", s)
		}
		tree = nt
		t.Count("transforms", 1)
	}
	if tree.CanvasRect != canvas {
		t.Errorf("maps %v: canvas is %v, want %v", all, tree.CanvasRect, canvas)
		return nil
	}
	return tree
}

func runMoves(t *kit.T, c *moveCase) {
	gamma := float64(c.Gamma) / 10
	canvas := rect4(c.Canvas)
	tree := moved(t, &c.Doc, c.Maps, gamma, c.Via, c.Seed, canvas)
	if tree == nil {
		return
	}
	if r := rect4(c.Rect); c.Whole && tree.Rect != r && !(tree.Rect.Empty() && r.Empty()) {
		t.Errorf("maps %v: extent of the layers is %v, want %v", c.Maps, tree.Rect, r)
	}
	img := render(t, tree, canvas)
	// only pixels the specification is sure about
	one := compCase{Out: make([][][5]int, 1)}
	for y, row := range c.Moves {
		for x, w := range row {
			if len(w) == 0 {
				t.Count("unsure", 1)
				continue
			}
			t.Count("pixels", 1)
			one.Out[0] = [][5]int{{w[0], w[1], w[2], w[3], w[4]}}
			at := image.Pt(canvas.Min.X+x, canvas.Min.Y+y)
			if s := vsModel(img, &one, at); s != "" {
				t.Errorf("maps %v, gamma %v, via %s, at %v: %s", c.Maps, gamma, c.Via, at, s)
				return
			}
		}
	}
	if c.Whole {
		t.Count("whole", 1)
	} else {
		t.Count("bent", 1)
	}
}

// lightCase is a behaviour of spec/Light.tla.
type lightCase struct {
	Light  [][][]int       // rows of the destination; which color and which mask value a pixel shows, if that is sure
	Table  [3][3][4][2]int // the levels that are right for them
	Doc    compDoc
	Maps   [][7]int
	Gamma  int
	Via    string
	Seed   int
	Canvas [4]int
}

func runLight(t *kit.T, c *lightCase) {
	gamma := float64(c.Gamma) / 10
	canvas := rect4(c.Canvas)
	tree := moved(t, &c.Doc, c.Maps, gamma, c.Via, c.Seed, canvas)
	if tree == nil {
		return
	}
	img := render(t, tree, canvas)
	for y, row := range c.Light {
		for x, w := range row {
			if len(w) == 0 {
				t.Count("unsure", 1)
				continue
			}
			t.Count("pixels", 1)
			if w[0] == 3 || w[1] == 3 {
				t.Count("means", 1)
			}
			band := c.Table[w[0]-1][w[1]-1]
			i := img.PixOffset(canvas.Min.X+x, canvas.Min.Y+y)
			for k := range band {
				if v := int(img.Pix[i+k]); v < band[k][0] || v > band[k][1] {
					t.Errorf("maps %v, gamma %v, via %s, at (%d,%d): pixel is %v, want channel %d within %v",
						c.Maps, gamma, c.Via, canvas.Min.X+x, canvas.Min.Y+y, img.Pix[i:i+4], k, band[k])
					return
				}
			}
		}
	}
	t.Count("light", 1)
}
