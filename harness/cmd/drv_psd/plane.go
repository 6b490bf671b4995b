package main

import (
	"bytes"
	"errors"
	"image"
	"runtime"

	"github.com/oov/psd"

	"verif/harness/kit"
)

type planeCase struct {
	G struct {
		Comp, Depth, W, H, Ch int
		Large                 bool
		X0, Y0                int
		Hint                  bool
		Trail                 int
	}
	Payload kit.Bytes
	OK      bool
	Out     kit.Bytes
	RB      int
	Lines   int
}

func runPlane(t *kit.T, c *planeCase) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	g := c.G
	in := append(append([]byte{}, c.Payload...), bytes.Repeat([]byte{0x55}, g.Trail)...)
	r := image.Rect(g.X0, g.Y0, g.X0+g.W, g.Y0+g.H)
	for k, n := range []int{1, 2, 3, 4, 6, 8, 16} {
		runtime.GOMAXPROCS(n)
		// the destination is part of a larger buffer whose other bytes must survive
		store := bytes.Repeat([]byte{0xa5}, c.RB*c.Lines+8)
		dest := store[4 : 4+c.RB*c.Lines]
		for i := range dest {
			dest[i] = 0
		}
		hint := int64(0)
		if g.Hint {
			hint = int64(len(c.Payload))
		}
		src := sources[(t.Index+k)%len(sources)]
		rd, used := src.Make(in, t.Seed)
		err := errors.New("panicked")
		var read int
		t.Guard("Decode", func() {
			read, err = psd.CompressionMethod(g.Comp).Decode(dest, rd, hint, r, g.Depth, g.Ch, g.Large)
		})
		t.Count("decodes", 1)
		if (err == nil) != c.OK {
			t.Errorf("method %d depth %d %dx%dx%d large %v with %d CPUs (%s): error %v, must succeed: %v", g.Comp, g.Depth, g.W, g.H, g.Ch, g.Large, n, src.Name, err, c.OK)
			return
		}
		if !bytes.Equal(store[:4], store[len(store)-4:]) || store[0] != 0xa5 || store[3] != 0xa5 {
			t.Errorf("bytes outside the destination were written")
		}
		if err != nil {
			t.Count("rejected", 1)
			continue
		}
		if t.Prop != "C04" && !bytes.Equal(dest, c.Out) {
			d := firstDiff(dest, c.Out)
			t.Errorf("method %d depth %d %dx%dx%d large %v with %d CPUs: byte %d (row %d) is %d, must be %d", g.Comp, g.Depth, g.W, g.H, g.Ch, g.Large, n, d, d/max(1, c.RB), dest[d], c.Out[d])
			return
		}
		if t.Prop != "C04" {
			continue
		}
		if g.Comp < 2 && (read != len(c.Payload) || used() != len(c.Payload)) {
			t.Errorf("method %d: reported %d bytes, consumed %d, payload is %d", g.Comp, read, used(), len(c.Payload))
		}
		if g.Comp >= 2 && g.Hint && used() > len(c.Payload) && src.Name != "bufio.Reader" {
			t.Errorf("method %d: consumed %d bytes of a payload of %d", g.Comp, used(), len(c.Payload))
		}
	}
}

type node struct {
	ID, Type int
	Kids     []node
}

type treeCase struct {
	Types []int
	OK    bool
	Tree  []node
	B     kit.Bytes
}

func sameTree(t *kit.T, path string, g []psd.Layer, w []node) int {
	n := 0
	if len(g) != len(w) {
		t.Errorf("group %s has %d members, must have %d", path, len(g), len(w))
		return n
	}
	for i := range w {
		n++
		if g[i].SeqID != w[i].ID || g[i].SectionDividerSetting.Type != w[i].Type {
			t.Errorf("group %s member %d is record %d type %d, must be record %d type %d", path, i, g[i].SeqID, g[i].SectionDividerSetting.Type, w[i].ID, w[i].Type)
			return n
		}
		if g[i].MBCSName != string([]byte{byte(w[i].ID % 256)}) {
			t.Errorf("record %d carries the name %q of another record", w[i].ID, g[i].MBCSName)
		}
		if g[i].Folder() != (w[i].Type == 1 || w[i].Type == 2) || g[i].FolderIsOpen() != (w[i].Type == 1) || g[i].HasImage() != (w[i].Type == 0) {
			t.Errorf("record %d type %d: folder %v open %v image %v", w[i].ID, w[i].Type, g[i].Folder(), g[i].FolderIsOpen(), g[i].HasImage())
		}
		n += sameTree(t, path+"/"+g[i].Name, g[i].Layer, w[i].Kids)
	}
	return n
}

func runTree(t *kit.T, c *treeCase) {
	for _, o := range []*psd.DecodeOptions{nil, {SkipLayerImage: true, SkipMergedImage: true}} {
		p, _, err := decode(t, "Decode", c.B, o)
		t.Count("decodes", 1)
		if (err == nil) != c.OK {
			t.Errorf("section types %v: error %v, must be accepted: %v", c.Types, err, c.OK)
			return
		}
		if err != nil {
			t.Count("rejected", 1)
			continue
		}
		t.Count("nodes", sameTree(t, "", p.Layer, c.Tree))
	}
}
