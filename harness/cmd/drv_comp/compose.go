package main

import (
	"fmt"
	"image"
	"math"
	"math/rand"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

type compCase struct {
	Doc    compDoc
	Out    [][][5]int
	Seed   int
	Size   int
	Extent [4]int
	BBox   [][4]int
	Focus  string
}

var identity = f64.Aff3{1, 0, 0, 0, 1, 0}

func runCompose(t *kit.T, c *compCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	switch t.Prop {
	case "C11":
		compModel(t, c, rnd)
	case "C15":
		compTiles(t, c, rnd)
	case "C16":
		compClone(t, c, rnd)
	case "C21":
		compThumbs(t, c, rnd)
	}
}

func rect4(r [4]int) image.Rectangle {
	return image.Rectangle{Min: image.Pt(r[0], r[1]), Max: image.Pt(r[2], r[3])}
}

const q = 32640

// vsModel compares a rendering (moved by off) with the specification.
func vsModel(img *image.NRGBA, c *compCase, off image.Point) string {
	for y, row := range c.Out {
		for x, w := range row {
			g := img.NRGBAAt(x+off.X, y+off.Y)
			tol := float64(w[4])*12.8 + 0.5
			ok := math.Abs(float64(int(g.A)*128-w[3])) <= tol
			for k, v := range [3]uint8{g.R, g.G, g.B} {
				ok = ok && math.Abs(float64(v)*float64(g.A)*128/255-float64(w[k])) <= tol
			}
			if !ok {
				return fmt.Sprintf("pixel (%d,%d) is %v, want premultiplied (%.1f,%.1f,%.1f,%.1f) within %.1f levels", x, y, g,
					float64(w[0])/128, float64(w[1])/128, float64(w[2])/128, float64(w[3])/128, float64(w[4])/10)
			}
		}
	}
	return ""
}

func covered(c *compCase, x, y int) bool {
	for i := range c.Doc.Rect {
		if !c.Doc.Grp[i] && image.Pt(x, y).In(rect4(c.Doc.Rect[i])) {
			return true
		}
	}
	return false
}

func compModel(t *kit.T, c *compCase, rnd *rand.Rand) {
	b := c.Doc.file()
	tile := []int{0, 1, 3, 16}[rnd.Intn(4)]
	tree := newTree(t, b, tile, f64.Aff3{})
	if tree == nil {
		return
	}
	if tree.CanvasRect != image.Rect(0, 0, c.Doc.W, c.Doc.H) {
		t.Errorf("canvas is %v, file is %dx%d", tree.CanvasRect, c.Doc.W, c.Doc.H)
		return
	}
	dst := render(t, tree, tree.CanvasRect)
	t.Count("pixels", c.Doc.W*c.Doc.H)
	if s := vsModel(dst, c, image.Point{}); s != "" {
		t.Errorf("%s", s)
	}
	for y := 0; y < c.Doc.H; y++ {
		for x := 0; x < c.Doc.W; x++ {
			if !covered(c, x, y) && dst.NRGBAAt(x, y).A != 0 {
				t.Errorf("pixel (%d,%d) is outside of every layer but shows %v", x, y, dst.NRGBAAt(x, y))
				return
			}
		}
	}
	settings(t, c, tree)
	for _, g := range c.Out {
		for _, p := range g {
			if p[3] > 0 && p[3] < q {
				t.Count("translucent", 1)
			} else if p[3] == q {
				t.Count("opaque", 1)
			}
		}
	}
}

// settings checks that the tree carries the settings of the file.
func settings(t *kit.T, c *compCase, tree *composite.Tree) {
	ls := layers(tree)
	if len(ls) != c.Doc.N {
		t.Errorf("tree has %d layers, file has %d", len(ls), c.Doc.N)
		return
	}
	for i := 1; i <= c.Doc.N; i++ {
		l := ls[i]
		m := c.Doc.Mask[i-1]
		area := m.Rect[2] > m.Rect[0] && m.Rect[3] > m.Rect[1]
		if l.Visible != c.Doc.Vis[i-1] || l.Opacity != c.Doc.Op[i-1] || l.Clipping != c.Doc.Clip[i-1] || l.Folder != c.Doc.Grp[i-1] ||
			(l.Folder && l.FolderOpen != c.Doc.Open[i-1]) || l.MaskEnabled != (m.On && area) || string(l.BlendMode) != bmKey[c.Doc.BM[i-1]] {
			t.Errorf("layer %s has settings %+v which differ from the file", l.Name, *l)
		}
	}
}

var tileSizes = []int{1, 2, 3, 5, 7, 16, 64}

func compTiles(t *kit.T, c *compCase, rnd *rand.Rand) {
	b := c.Doc.file()
	ref := newTree(t, b, 64, f64.Aff3{})
	if ref == nil {
		return
	}
	if ref.Rect != rect4(c.Extent) && !(ref.Rect.Empty() && rect4(c.Extent).Empty()) {
		t.Errorf("extent of the layers is %v, want %v", ref.Rect, rect4(c.Extent))
	}
	var want *image.NRGBA
	procs(1, func() { want = render(t, ref, ref.CanvasRect) })
	if s := vsModel(want, c, image.Point{}); s != "" {
		t.Errorf("tile size 64: %s", s)
	}
	for _, ts := range tileSizes {
		n := []int{1, 2, 3, 8}[rnd.Intn(4)]
		procs(n, func() {
			tree := newTree(t, b, ts, f64.Aff3{})
			if tree == nil {
				return
			}
			t.Count("trees", 1)
			if tree.CanvasRect != ref.CanvasRect || tree.Rect != ref.Rect {
				t.Errorf("tile size %d, %d CPUs: canvas %v and extent %v, with 64 %v and %v", ts, n, tree.CanvasRect, tree.Rect, ref.CanvasRect, ref.Rect)
			}
			if s := samePix(render(t, tree, tree.CanvasRect), want); s != "" {
				t.Errorf("tile size %d, %d CPUs: %s", ts, n, s)
			}
			// a destination larger than the canvas, elsewhere aligned
			big := render(t, tree, tree.CanvasRect.Inset(-5))
			sub := big.SubImage(tree.CanvasRect).(*image.NRGBA)
			if s := samePix(sub, want); s != "" {
				t.Errorf("tile size %d, %d CPUs, larger destination: %s", ts, n, s)
			}
		})
	}
}

// own checks that every relation of the layers in tree stays in tree.
func own(tree *composite.Tree) string {
	in := map[*composite.Layer]bool{}
	var all []*composite.Layer
	var walk func(l *composite.Layer)
	walk = func(l *composite.Layer) {
		in[l] = true
		all = append(all, l)
		for i := range l.Children {
			walk(&l.Children[i])
		}
	}
	walk(&tree.Root)
	for _, l := range all {
		for i := range l.Children {
			if l.Children[i].Parent != l {
				return fmt.Sprintf("the parent of %q is not the layer that holds it", l.Children[i].Name)
			}
		}
		if l.ClippedBy != nil && !in[l.ClippedBy] {
			return fmt.Sprintf("%q is clipped by a layer of another tree", l.Name)
		}
		for _, k := range l.Clip {
			if !in[k] || k.ClippedBy != l {
				return fmt.Sprintf("%q clips a layer of another tree", l.Name)
			}
		}
	}
	return ""
}

func nameMap(ls map[int]*composite.Layer, l *composite.Layer) string {
	if l == nil {
		return ""
	}
	return l.Name
}

func sameTree(a, b *composite.Layer) string {
	if a.SeqID != b.SeqID || a.Name != b.Name || a.Folder != b.Folder || a.FolderOpen != b.FolderOpen || a.Visible != b.Visible || a.BlendMode != b.BlendMode ||
		a.Opacity != b.Opacity || a.Clipping != b.Clipping || a.BlendClippedElements != b.BlendClippedElements || a.MaskEnabled != b.MaskEnabled ||
		a.MaskDefaultColor != b.MaskDefaultColor || len(a.Children) != len(b.Children) || len(a.Clip) != len(b.Clip) || (a.ClippedBy == nil) != (b.ClippedBy == nil) {
		return fmt.Sprintf("layer %q differs: %+v / %+v", a.Name, *a, *b)
	}
	for i := range a.Clip {
		if a.Clip[i].SeqID != b.Clip[i].SeqID {
			return fmt.Sprintf("clipping layers of %q differ", a.Name)
		}
	}
	if a.ClippedBy != nil && a.ClippedBy.SeqID != b.ClippedBy.SeqID {
		return fmt.Sprintf("%q is clipped by different layers", a.Name)
	}
	for i := range a.Children {
		if s := sameTree(&a.Children[i], &b.Children[i]); s != "" {
			return s
		}
	}
	return ""
}

// scramble edits every layer of a tree and announces the edits.
func scramble(tree *composite.Tree, rnd *rand.Rand) {
	for _, l := range layers(tree) {
		switch rnd.Intn(4) {
		case 0:
			l.Visible = !l.Visible
		case 1:
			l.Opacity = rnd.Intn(256)
		case 2:
			if string(l.BlendMode) != "pass" {
				l.BlendMode = "mul "
			}
		case 3:
			if l.MaskEnabled {
				l.MaskEnabled = false
			} else {
				l.Opacity = 0
			}
		}
		tree.Renderer.SetDirtyByLayer(l)
	}
}
