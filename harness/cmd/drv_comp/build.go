package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"image"
	"runtime"

	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

type maskDoc struct {
	On   bool
	Rect [4]int
	Def  int
	V    kit.Bytes
}

// compDoc is a document of spec/Compose.tla or spec/RenderCache.tla: nodes 1..N.
type compDoc struct {
	N, W, H int
	Par     []int
	Grp     []bool
	BM      []string
	Rect    [][4]int
	Clip    []bool
	Op      []int
	Vis     []bool
	Open    []bool
	HasA    []bool
	Pix     [][][4]int
	Mask    []maskDoc

	ext  *extDoc
	drop []int // the color channel (1, 2, 3) node i lacks, or 0
}

// extDoc is what spec/TreeView.tla says of the nodes beyond spec/Scene.tla.
type extDoc struct {
	Enc    bool
	Tile   int
	Raw    []kit.Bytes
	Uni    [][]uint16
	HasUni []bool
	BCE    []string
}

var bmKey = map[string]string{
	"PassThrough": "pass", "Normal": "norm", "Dissolve": "diss", "Darken": "dark", "Multiply": "mul ", "ColorBurn": "idiv",
	"LinearBurn": "lbrn", "DarkerColor": "dkCl", "Lighten": "lite", "Screen": "scrn", "ColorDodge": "div ", "LinearDodge": "lddg",
	"Add": "lddg", "LighterColor": "lgCl", "Overlay": "over", "SoftLight": "sLit", "HardLight": "hLit", "LinearLight": "lLit",
	"VividLight": "vLit", "PinLight": "pLit", "HardMix": "hMix", "Difference": "diff", "Exclusion": "smud", "Subtract": "fsub",
	"Divide": "fdiv", "Hue": "hue ", "Saturation": "sat ", "Color": "colr", "Luminosity": "lum ", "unknown": "zzzz",
}

type wr struct{ bytes.Buffer }

func (w *wr) u8(v int)       { w.WriteByte(byte(v)) }
func (w *wr) u16(v int)      { binary.Write(w, binary.BigEndian, uint16(v)) }
func (w *wr) i32(v int)      { binary.Write(w, binary.BigEndian, int32(v)) }
func (w *wr) s(v string)     { w.WriteString(v) }
func (w *wr) block(b []byte) { w.i32(len(b)); w.Write(b) }

func nodeName(i int) string { return fmt.Sprintf("L%d", i) }

func (d *compDoc) area(i int) (int, int) {
	r := d.Rect[i-1]
	w, h := r[2]-r[0], r[3]-r[1]
	if w <= 0 || h <= 0 {
		return 0, 0
	}
	return w, h
}

// records writes layer records and channel data of node i and what is inside it.
func (d *compDoc) records(rec, img *wr, n *int, i int) {
	var mask wr
	chs := []struct {
		id   int
		data []byte
	}{}
	add := func(id int, data []byte) {
		chs = append(chs, struct {
			id   int
			data []byte
		}{id, data})
	}
	m := d.Mask[i-1]
	r := d.Rect[i-1]
	if d.Grp[i-1] {
		d.record(rec, img, n, 0, [4]int{}, nil, nil, "norm", 255, false, false, nil, "</Layer group>", 3, "norm")
		for k := i + 1; k <= d.N; k++ {
			if d.Par[k-1] == i {
				d.records(rec, img, n, k)
			}
		}
		r = [4]int{}
	} else {
		pix := d.Pix[i-1]
		var p [4][]byte
		for c := range p {
			p[c] = make([]byte, len(pix))
			for j, v := range pix {
				p[c][j] = byte(v[c])
			}
		}
		if d.HasA[i-1] {
			add(-1, p[3])
		}
		for c := 0; c < 3; c++ {
			if d.drop == nil || d.drop[i-1] != c+1 {
				add(c, p[c])
			}
		}
	}
	if m.On || len(m.V) > 0 {
		mr := m.Rect
		mask.i32(mr[1])
		mask.i32(mr[0])
		mask.i32(mr[3])
		mask.i32(mr[2])
		mask.u8(m.Def)
		if m.On {
			mask.u8(0)
		} else {
			mask.u8(2)
		}
		mask.u16(0)
		if mr[2] > mr[0] && mr[3] > mr[1] {
			add(-2, m.V)
		}
	}
	typ := 0
	if d.Grp[i-1] {
		typ = 2
		if d.Open[i-1] {
			typ = 1
		}
	}
	ids := make([]int, len(chs))
	data := make([][]byte, len(chs))
	for k, c := range chs {
		ids[k], data[k] = c.id, c.data
	}
	bm := bmKey[d.BM[i-1]]
	own := bm
	if bm == "pass" && d.Grp[i-1] {
		own = "norm"
	}
	d.record(rec, img, n, i, r, ids, data, own, d.Op[i-1], d.Clip[i-1], !d.Vis[i-1], mask.Bytes(), nodeName(i), typ, bm)
}

func (d *compDoc) record(rec, img *wr, n *int, i int, r [4]int, ids []int, data [][]byte, bm string, op int, clip, hidden bool, mask []byte, name string, typ int, sbm string) {
	*n++
	rec.i32(r[1])
	rec.i32(r[0])
	rec.i32(r[3])
	rec.i32(r[2])
	rec.u16(len(ids))
	for k, id := range ids {
		rec.u16(id & 0xffff)
		rec.i32(len(data[k]) + 2)
		img.u16(0)
		img.Write(data[k])
	}
	rec.s("8BIM")
	rec.s(bm)
	rec.u8(op)
	if clip {
		rec.u8(1)
	} else {
		rec.u8(0)
	}
	fl := 8
	if hidden {
		fl |= 2
	}
	rec.u8(fl)
	rec.u8(0)
	var x wr
	x.block(mask)
	x.i32(0)
	if d.ext != nil && i > 0 {
		name = string(d.ext.Raw[i-1])
	}
	x.u8(len(name))
	x.s(name)
	x.Write(make([]byte, (4-(len(name)+1)%4)%4))
	if typ != 0 {
		x.s("8BIMlsct")
		x.i32(12)
		x.i32(typ)
		x.s("8BIM")
		x.s(sbm)
	}
	if d.ext != nil && i > 0 {
		if d.ext.HasUni[i-1] {
			var u wr
			u.i32(len(d.ext.Uni[i-1]))
			for _, v := range d.ext.Uni[i-1] {
				u.u16(int(v))
			}
			x.s("8BIMluni")
			x.block(u.Bytes())
		}
		if v := d.ext.BCE[i-1]; v != "absent" {
			x.s("8BIMclbl")
			x.i32(4)
			x.i32(map[string]int{"on": 1 << 24, "off": 0}[v])
		}
	}
	rec.block(x.Bytes())
}

// file lays the document out as a PSD file.
func (d *compDoc) file() []byte {
	var rec, img, info, sec, f wr
	n := 0
	for k := 1; k <= d.N; k++ {
		if d.Par[k-1] == 0 {
			d.records(&rec, &img, &n, k)
		}
	}
	info.u16(n)
	info.Write(rec.Bytes())
	info.Write(img.Bytes())
	if info.Len()%2 == 1 {
		info.u8(0)
	}
	sec.block(info.Bytes())
	sec.i32(0)
	f.s("8BPS")
	f.u16(1)
	f.Write(make([]byte, 6))
	f.u16(3)
	f.i32(d.H)
	f.i32(d.W)
	f.u16(8)
	f.u16(3)
	f.i32(0)
	f.i32(0)
	f.block(sec.Bytes())
	f.u16(0)
	f.Write(make([]byte, 3*d.W*d.H))
	return f.Bytes()
}

func procs(n int, f func()) {
	old := runtime.GOMAXPROCS(n)
	defer runtime.GOMAXPROCS(old)
	f()
}

func newTree(t *kit.T, b []byte, tile int, m f64.Aff3) *composite.Tree {
	var tree *composite.Tree
	var err error
	t.Guard("New", func() {
		tree, err = composite.New(context.Background(), bytes.NewReader(b), &composite.Options{TileSize: tile, TransformMatrix: m})
	})
	if err != nil {
		t.Errorf("New failed on a well-formed file: %v", err)
		return nil
	}
	return tree
}

// layers maps node numbers to the layers of the tree.
func layers(tree *composite.Tree) map[int]*composite.Layer {
	m := map[int]*composite.Layer{}
	var walk func(l *composite.Layer)
	walk = func(l *composite.Layer) {
		for i := range l.Children {
			c := &l.Children[i]
			var id int
			if _, err := fmt.Sscanf(c.Name, "L%d", &id); err == nil {
				m[id] = c
			}
			walk(c)
		}
	}
	walk(&tree.Root)
	return m
}

func render(t *kit.T, tree *composite.Tree, r image.Rectangle) *image.NRGBA {
	dst := image.NewNRGBA(r)
	var err error
	t.Guard("Render", func() { err = tree.Renderer.Render(context.Background(), dst) })
	if err != nil {
		t.Errorf("Render failed: %v", err)
	}
	return dst
}

// samePix compares what two images show; the color under zero alpha does not matter.
func samePix(a, b *image.NRGBA) string {
	if a.Rect != b.Rect {
		return fmt.Sprintf("bounds %v / %v", a.Rect, b.Rect)
	}
	for y := a.Rect.Min.Y; y < a.Rect.Max.Y; y++ {
		for x := a.Rect.Min.X; x < a.Rect.Max.X; x++ {
			p, q := a.NRGBAAt(x, y), b.NRGBAAt(x, y)
			if p != q && !(p.A == 0 && q.A == 0) {
				return fmt.Sprintf("pixel (%d,%d) is %v, want %v", x, y, p, q)
			}
		}
	}
	return ""
}
