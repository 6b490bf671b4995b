package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"math/rand"
	"unicode/utf16"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"

	"verif/harness/kit"
)

// viewCase is a behaviour of spec/TreeView.tla.
type viewCase struct {
	View   []nodeView
	Root   []int
	Doc    compDoc
	Ext    extDoc
	Extent [4]int
	Told   kit.Bytes
	Asks   bool
}

type nodeView struct {
	Node, Seq, Par int
	Kids           []int
	By             int
	Clips          []int
	Vis            bool
	Op             int
	BM             string
	Folder, Open   bool
	Clip, BCE      bool
	MaskOn         bool
	Def            int
	Name           struct {
		As string
		V  []uint16
	}
}

func (v *nodeView) name() string {
	switch v.Name.As {
	case "units":
		return string(utf16.Decode(v.Name.V))
	case "points":
		r := []rune{}
		for _, c := range v.Name.V {
			r = append(r, rune(c))
		}
		return string(r)
	}
	b := []byte{}
	for _, c := range v.Name.V {
		b = append(b, byte(c))
	}
	return string(b)
}

func runView(t *kit.T, c *viewCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	c.Doc.ext = &c.Ext
	b := c.Doc.file()
	n := []int{1, 2, 8}[rnd.Intn(3)]
	procs(n, func() {
		var tree *composite.Tree
		var err error
		opt := &composite.Options{TileSize: c.Ext.Tile}
		var told [][]byte
		if c.Ext.Enc {
			opt.LayerNameEncodingDetector = func(b []byte) encoding.Encoding {
				told = append(told, append([]byte(nil), b...))
				return charmap.ISO8859_1
			}
		}
		if rnd.Intn(2) == 0 {
			opt.TransformMatrix = identity
		}
		t.Guard("New", func() { tree, err = composite.New(context.Background(), bytes.NewReader(b), opt) })
		if err != nil || tree == nil {
			t.Errorf("New failed on a well-formed file: %v", err)
			return
		}
		if c.Ext.Enc && c.Asks && len(told) == 0 {
			t.Errorf("nobody asked for the encoding of the names")
		}
		for _, b := range told {
			t.Count("asked", 1)
			for v := 0; v < 256; v++ {
				s := []byte{byte(v)}
				if g, w := bytes.Count(b, s), bytes.Count(c.Told, s); g < w {
					t.Errorf("the encoding is guessed from %q, which lacks a part of the names %q", b, []byte(c.Told))
					break
				}
			}
		}
		if d := c.mirror(tree, image.Point{}); d != "" {
			t.Errorf("new tree: %s", d)
		}
		var cl *composite.Tree
		t.Guard("Clone", func() { cl = tree.Clone() })
		if cl != nil {
			if d := c.mirror(cl, image.Point{}); d != "" {
				t.Errorf("clone: %s", d)
			}
		}
		if nt := transform(t, tree, f64.Aff3{1, 0, 5, 0, 1, -3}); nt != nil {
			if d := c.mirror(nt, image.Pt(5, -3)); d != "" {
				t.Errorf("transformed tree: %s", d)
			}
		}
		t.Count("nodes", c.Doc.N)
	})
}

// mirror compares a tree with the view the specification gives.
func (c *viewCase) mirror(tree *composite.Tree, off image.Point) string {
	if s := own(tree); s != "" {
		return s
	}
	if want := image.Rect(0, 0, c.Doc.W, c.Doc.H).Add(off); tree.CanvasRect != want {
		return fmt.Sprintf("canvas %v, want %v", tree.CanvasRect, want)
	}
	if want := rect4(c.Extent).Add(off); tree.Rect != want && !(tree.Rect.Empty() && want.Empty()) {
		return fmt.Sprintf("extent %v, want %v", tree.Rect, want)
	}
	at := map[int]*composite.Layer{}
	var walk func(l *composite.Layer, kids []int) string
	walk = func(l *composite.Layer, kids []int) string {
		if len(l.Children) != len(kids) {
			return fmt.Sprintf("%q has %d members, want %d", l.Name, len(l.Children), len(kids))
		}
		for i := range kids {
			at[kids[i]] = &l.Children[i]
			if s := walk(&l.Children[i], c.View[kids[i]-1].Kids); s != "" {
				return s
			}
		}
		return ""
	}
	if s := walk(&tree.Root, c.Root); s != "" {
		return s
	}
	at[0] = &tree.Root
	for i := range c.View {
		v := &c.View[i]
		l := at[v.Node]
		w := *l
		w.SeqID, w.Name, w.Folder, w.FolderOpen, w.Visible, w.BlendMode = v.Seq, v.name(), v.Folder, v.Open, v.Vis, psd.BlendMode(bmKey[v.BM])
		w.Opacity, w.Clipping, w.BlendClippedElements, w.MaskEnabled = v.Op, v.Clip, v.BCE, v.MaskOn
		if v.MaskOn {
			w.MaskDefaultColor = v.Def
		}
		if kit.Diff(flat(*l), flat(w)) != "" {
			return fmt.Sprintf("node %d is %+v, want %+v", v.Node, flat(*l), flat(w))
		}
		if l.Parent != at[v.Par] {
			return fmt.Sprintf("node %d (%q): wrong parent", v.Node, l.Name)
		}
		if v.By == 0 && l.ClippedBy != nil || v.By != 0 && l.ClippedBy != at[v.By] {
			return fmt.Sprintf("node %d (%q) is not clipped by node %d", v.Node, l.Name, v.By)
		}
		if len(l.Clip) != len(v.Clips) {
			return fmt.Sprintf("node %d (%q) has %d clipping layers, want %v", v.Node, l.Name, len(l.Clip), v.Clips)
		}
		for k := range v.Clips {
			if l.Clip[k] != at[v.Clips[k]] {
				return fmt.Sprintf("node %d (%q): clipping layer %d is not node %d", v.Node, l.Name, k, v.Clips[k])
			}
		}
	}
	return ""
}

// flat leaves out the references.
func flat(l composite.Layer) composite.Layer {
	l.Parent, l.Children, l.ClippedBy, l.Clip = nil, nil, nil, nil
	return l
}

// byteCase is a behaviour of spec/PsdDoc.tla: any file, damaged or not.
type byteCase struct {
	Kind, What string
	B          kit.Bytes
	Cfg        struct{ W, H, Depth, Mode int }
	Layers     []struct {
		Rect   [4]int
		BM     kit.Bytes
		Op     int
		Clip   bool
		Flags  int
		MBCS   kit.Bytes
		HasUni bool
		Units  []uint16
		BCE    bool
		Pix    []interface{}
	}
}

const modest = 1 << 20

func runBytes(t *kit.T, c *byteCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	var p *psd.PSD
	var derr error
	t.Guard("Decode", func() { p, _, derr = psd.Decode(bytes.NewReader(c.B), &psd.DecodeOptions{SkipMergedImage: true}) })
	for _, n := range []int{1, 4} {
		procs(n, func() {
			var tree *composite.Tree
			var err error
			t.Guard("New", func() {
				tree, err = composite.New(context.Background(), bytes.NewReader(c.B), &composite.Options{TileSize: []int{0, 1, 5, 64}[rnd.Intn(4)]})
			})
			if len(t.Fails) > 0 {
				return
			}
			ok := derr == nil && p.Config.Depth == 8 && p.Config.ColorMode == psd.ColorModeRGB
			if (err == nil) != ok || (tree == nil) == ok {
				t.Errorf("%s %s: New gave error %v, decoding gives %v, must succeed: %v", c.Kind, c.What, err, derr, ok)
				return
			}
			if c.Kind == "none" && ok != (c.Cfg.Depth == 8 && c.Cfg.Mode == int(psd.ColorModeRGB)) {
				t.Errorf("New gave error %v for depth %d, color mode %d", err, c.Cfg.Depth, c.Cfg.Mode)
				return
			}
			if !ok {
				t.Count("refused", 1)
				return
			}
			t.Count("trees", 1)
			if s := own(tree); s != "" {
				t.Errorf("new tree: %s", s)
			}
			if c.Kind == "none" {
				c.flat(t, tree)
			}
			if tree.CanvasRect.Dx()*tree.CanvasRect.Dy() > modest {
				return
			}
			img := image.NewNRGBA(tree.CanvasRect)
			t.Guard("Render", func() { err = tree.Renderer.Render(context.Background(), img) })
			if err != nil {
				t.Errorf("Render: %v", err)
			}
			t.Guard("Thumbnails", func() { tree.Thumbnails(context.Background(), 8) })
			t.Guard("ThumbnailSheet", func() { tree.ThumbnailSheet(context.Background(), 8) })
			t.Guard("Clone", func() { tree.Clone() })
			t.Guard("Transform", func() { tree.Transform(context.Background(), f64.Aff3{0.5, 0, 0, 0, 0.5, 0}, 0) })
		})
	}
}

// flat compares the layers of an undamaged file, which has no groups.
func (c *byteCase) flat(t *kit.T, tree *composite.Tree) {
	if tree.CanvasRect != image.Rect(0, 0, c.Cfg.W, c.Cfg.H) {
		t.Errorf("canvas %v of a %dx%d document", tree.CanvasRect, c.Cfg.W, c.Cfg.H)
	}
	if len(tree.Root.Children) != len(c.Layers) {
		t.Errorf("%d layers, the file has %d", len(tree.Root.Children), len(c.Layers))
		return
	}
	for i, w := range c.Layers {
		l := &tree.Root.Children[i]
		name := string(utf16.Decode(w.Units))
		if !w.HasUni || len(w.Units) == 0 {
			name = string(w.MBCS)
		}
		bm := psd.BlendMode(w.BM)
		if bm == psd.BlendModePassThrough {
			bm = psd.BlendModeNormal
		}
		if l.SeqID != i || l.Name != name || l.BlendMode != bm || l.Opacity != w.Op || l.Clipping != w.Clip || l.Visible != (w.Flags&2 == 0) || l.BlendClippedElements != w.BCE {
			t.Errorf("layer %d is %+v, the file has %+v", i, flat(*l), w)
		}
	}
}
