package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"reflect"

	"github.com/oov/psd"
	"github.com/oov/psd/blend"
	"github.com/oov/psd/composite"
	"golang.org/x/image/math/f64"

	"verif/harness/kit"
)

// sideCase is a schedule of spec/SideBySide.tla.
type sideCase struct {
	Side []struct {
		Ev, Op, F, Mode              string
		ID, On, Y, Seed, Makes, Node int
		Row                          [][5]int
		B                            bool
		V                            int
	}
	Docs []compDoc
	Tile int
}

type sideOp struct {
	op, mode string
	seed     int
	in       interface{} // what the operation works on
	file     []byte      // the document behind it
	vis      []bool      // the settings of the tree it works on
	opac     []int
	row      [][5]int
	y        int
	out      interface{}
	err      string
	done     chan struct{}
}

type sideObj struct {
	v    interface{}
	file []byte
	vis  []bool
	opac []int
}

var sideModes = map[string]draw.Drawer{"Normal": blend.Normal, "Multiply": blend.Multiply, "Screen": blend.Screen, "Darken": blend.Darken,
	"Lighten": blend.Lighten, "Difference": blend.Difference, "LinearDodge": blend.LinearDodge, "Exclusion": blend.Exclusion,
	"Subtract": blend.Subtract, "LinearBurn": blend.LinearBurn, "Overlay": blend.Overlay, "HardLight": blend.HardLight,
	"LinearLight": blend.LinearLight, "PinLight": blend.PinLight, "SoftLight": blend.SoftLight, "ColorBurn": blend.ColorBurn,
	"ColorDodge": blend.ColorDodge, "VividLight": blend.VividLight, "HardMix": blend.HardMix, "Divide": blend.Divide,
	"DarkerColor": blend.DarkerColor, "LighterColor": blend.LighterColor, "Hue": blend.Hue, "Saturation": blend.Saturation,
	"Color": blend.Color, "Luminosity": blend.Luminosity, "Add": blend.Add,
	"Clear": blend.Clear, "Copy": blend.Copy, "Dest": blend.Dest, "SrcOver": blend.SrcOver, "DestOver": blend.DestOver, "SrcIn": blend.SrcIn,
	"DestIn": blend.DestIn, "SrcOut": blend.SrcOut, "DestOut": blend.DestOut, "SrcAtop": blend.SrcAtop, "DestAtop": blend.DestAtop, "XOR": blend.XOR}

func pattern(w, h, seed int) *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for i := range m.Pix {
		m.Pix[i] = byte(i*seed>>3 ^ i*31)
	}
	return m
}

// work carries out the operation; what it returns is compared by DeepEqual.
func (o *sideOp) work(tile int) (out interface{}, err error) {
	ctx := context.Background()
	switch o.op {
	case "decode":
		p, n, err := psd.Decode(bytes.NewReader(o.in.([]byte)), nil)
		if err != nil {
			return nil, err
		}
		// The pixels of the merged image and of the layers, read through their pickers.
		var px []color.Color
		var walk func(ls []psd.Layer)
		walk = func(ls []psd.Layer) {
			for i := range ls {
				l := &ls[i]
				if l.HasImage() && l.Picker != nil {
					r := l.Picker.Bounds()
					for y := r.Min.Y; y < r.Max.Y; y++ {
						for x := r.Min.X; x < r.Max.X; x++ {
							px = append(px, l.Picker.At(x, y))
						}
					}
				}
				walk(l.Layer)
			}
		}
		walk(p.Layer)
		r := p.Picker.Bounds()
		for x := r.Min.X; x < r.Max.X; x++ {
			px = append(px, p.Picker.At(x, r.Min.Y))
		}
		return []interface{}{n, px, p.Config}, nil
	case "config":
		c, n, err := psd.DecodeConfig(bytes.NewReader(o.in.([]byte)))
		return []interface{}{n, c}, err
	case "new":
		return composite.New(ctx, bytes.NewReader(o.in.([]byte)), &composite.Options{TileSize: tile})
	case "clone":
		return o.in.(*composite.Tree).Clone(), nil
	case "render":
		t := o.in.(*composite.Tree)
		dst := image.NewNRGBA(t.CanvasRect)
		return dst, t.Renderer.Render(ctx, dst)
	case "thumbs":
		return o.in.(*composite.Tree).Thumbnails(ctx, 1+o.seed%9)
	case "thumb":
		// One layer after the other, without a buffer, with one that is too small, or with one to spare.
		t := o.in.(*composite.Tree)
		parts := map[int]*image.NRGBA{}
		for _, l := range layers(t) {
			if m, err := t.Thumbnail(l.SeqID, 1+o.seed%9, make([]byte, o.seed%3*400)); err == nil {
				parts[l.SeqID] = m
			}
		}
		return parts, nil
	case "sheet":
		m, rs, err := o.in.(*composite.Tree).ThumbnailSheet(ctx, 1+o.seed%9)
		if err != nil {
			return nil, err
		}
		// Where a thumbnail is put is up to the sheet; what is there is not.
		parts := map[int]*image.NRGBA{}
		for id, r := range rs {
			d := image.NewNRGBA(image.Rect(0, 0, r.Dx(), r.Dy()))
			for y := 0; y < r.Dy(); y++ {
				for x := 0; x < r.Dx(); x++ {
					d.SetNRGBA(x, y, m.NRGBAAt(r.Min.X+x, r.Min.Y+y))
				}
			}
			parts[id] = d
		}
		return parts, nil
	case "move":
		t, err := o.in.(*composite.Tree).Transform(ctx, f64.Aff3{1, 0, float64(o.seed%5 - 2), 0, 1, float64(o.seed%3 - 1)}, 1)
		if err != nil {
			return nil, err
		}
		dst := image.NewNRGBA(t.CanvasRect.Union(t.Rect))
		return dst, t.Renderer.Render(ctx, dst)
	case "draw", "fade":
		src := o.in.(*image.NRGBA)
		d := sideModes[o.mode]
		if d == nil {
			d = blend.Normal
		}
		r := src.Rect.Inset(-1)
		dst := pattern(r.Dx(), r.Dy(), o.seed)
		dst.Rect = dst.Rect.Add(r.Min)
		if md, ok := d.(blend.Drawer); ok && o.op == "fade" {
			md.DrawMask(dst, r, src, r.Min, image.NewUniform(color.Alpha{byte(o.seed)}), image.Point{})
		} else {
			d.Draw(dst, r, src, r.Min)
		}
		return dst, nil
	}
	return nil, fmt.Errorf("unknown operation %s", o.op)
}

func (o *sideOp) run(tile int) {
	defer func() {
		if v := recover(); v != nil {
			o.err = fmt.Sprint("panic: ", v)
		}
	}()
	out, err := o.work(tile)
	if err != nil {
		o.err = err.Error()
	}
	o.out = out
}

// alone carries the operation out with nothing beside it, on objects of its own.
func (o *sideOp) alone(tile int) interface{} {
	p := *o
	if _, ok := o.in.(*composite.Tree); ok {
		t, err := composite.New(context.Background(), bytes.NewReader(o.file), &composite.Options{TileSize: tile})
		if err != nil {
			return err
		}
		for i, l := range layers(t) {
			l.Visible, l.Opacity = o.vis[i-1], o.opac[i-1]
		}
		p.in = t
	}
	p.out, p.err = nil, ""
	p.run(tile)
	if p.err != "" {
		return p.err
	}
	return p.out
}

func runSide(t *kit.T, c *sideCase) {
	procs(8, func() {
		obj := map[int]*sideObj{}
		tree := func(d *compDoc, f []byte) *sideObj {
			tr := newTree(t, f, c.Tile, f64.Aff3{})
			return &sideObj{tr, f, append([]bool{}, d.Vis...), append([]int{}, d.Op...)}
		}
		for i := range c.Docs {
			f := c.Docs[i].file()
			obj[i+1] = &sideObj{v: f, file: f, vis: c.Docs[i].Vis, opac: c.Docs[i].Op}
		}
		obj[3] = tree(&c.Docs[0], obj[1].file)
		if obj[3].v.(*composite.Tree) == nil {
			return
		}
		ops := map[int]*sideOp{}
		most, now := 0, 0
		for _, e := range c.Side {
			switch e.Ev {
			case "begin":
				x := obj[e.On]
				o := &sideOp{op: e.Op, mode: e.Mode, seed: e.Seed, in: x.v, file: x.file, row: e.Row, y: e.Y, done: make(chan struct{}),
					vis: append([]bool{}, x.vis...), opac: append([]int{}, x.opac...)}
				ops[e.ID] = o
				go func() {
					o.run(c.Tile)
					close(o.done)
				}()
				t.Count("op_"+e.Op, 1)
				if now++; now > most {
					most = now
				}
			case "end":
				o := ops[e.ID]
				<-o.done
				now--
				if o.err != "" {
					t.Errorf("%s among other work: %s", o.op, o.err)
					return
				}
				if e.Makes != 0 {
					obj[e.Makes] = &sideObj{o.out, o.file, append([]bool{}, o.vis...), append([]int{}, o.opac...)}
				}
			case "edit":
				x := obj[e.On]
				l := layers(x.v.(*composite.Tree))[e.Node]
				if e.F == "vis" {
					x.vis[e.Node-1], l.Visible = e.B, e.B
				} else {
					x.opac[e.Node-1], l.Opacity = e.V, e.V
				}
				x.v.(*composite.Tree).Renderer.SetDirtyByLayer(l)
				t.Count("edits", 1)
			}
		}
		for _, o := range ops {
			<-o.done
		}
		t.Count(fmt.Sprintf("overlap_%d", most), 1)
		for id := 1; id <= len(ops); id++ {
			o := ops[id]
			switch v := o.out.(type) {
			case *composite.Tree:
				// Trees are compared by what they show, as they were made.
				continue
			case *image.NRGBA:
				if o.op == "render" {
					if s := rowVsModel(v, o.y, o.row); s != "" {
						t.Errorf("render among other work: %s", s)
						return
					}
				}
				w, ok := o.alone(c.Tile).(*image.NRGBA)
				if !ok {
					t.Errorf("%s alone gave no image", o.op)
					return
				}
				if s := samePix(v, w); s != "" {
					t.Errorf("%s (%s) among other work: %s alone", o.op, o.mode, s)
					return
				}
			default:
				if w := o.alone(c.Tile); !reflect.DeepEqual(v, w) {
					t.Errorf("%s among other work gives another result than alone", o.op)
					return
				}
			}
		}
		// The trees and clones, all at rest now, each show their own settings.
		for id, x := range obj {
			if tr, ok := x.v.(*composite.Tree); ok {
				o := &sideOp{op: "render", in: tr, file: x.file, vis: x.vis, opac: x.opac}
				o.run(c.Tile)
				w, _ := o.alone(c.Tile).(*image.NRGBA)
				if g, _ := o.out.(*image.NRGBA); g == nil || w == nil {
					t.Errorf("tree %d does not render: %s", id, o.err)
				} else if s := samePix(g, w); s != "" {
					t.Errorf("tree %d in the end: %s of a new tree with its settings", id, s)
				}
			}
		}
	})
}

func rowVsModel(img *image.NRGBA, y int, row [][5]int) string {
	for x, w := range row {
		g := img.NRGBAAt(x, y)
		tol := float64(w[4])*12.8 + 0.5
		ok := math.Abs(float64(int(g.A)*128-w[3])) <= tol
		for k, v := range [3]uint8{g.R, g.G, g.B} {
			ok = ok && math.Abs(float64(v)*float64(g.A)*128/255-float64(w[k])) <= tol
		}
		if !ok {
			return fmt.Sprintf("pixel (%d,%d) is %v, want premultiplied (%.1f,%.1f,%.1f,%.1f) within %.1f levels", x, y, g,
				float64(w[0])/128, float64(w[1])/128, float64(w[2])/128, float64(w[3])/128, float64(w[4])/10)
		}
	}
	return ""
}
