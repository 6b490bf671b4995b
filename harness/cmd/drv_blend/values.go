package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"math/rand"

	"verif/harness/kit"
)

type px [4]int

// put lays 8-bit components out in an image of a kind.
func put(kind string, ps []px, w int) draw.Image {
	r := image.Rect(0, 0, w, (len(ps)+w-1)/w)
	var m, inner draw.Image
	switch kind {
	case "wrapN":
		inner = image.NewNRGBA(r)
		m = &wrap{inner}
	case "wrapP":
		inner = image.NewRGBA(r)
		m = &wrap{inner}
	default:
		m = blank(kind, r)
		inner = m
	}
	for i, p := range ps {
		x, y := i%w, i/w
		switch d := inner.(type) {
		case *image.NRGBA:
			d.SetNRGBA(x, y, color.NRGBA{uint8(p[0]), uint8(p[1]), uint8(p[2]), uint8(p[3])})
		case *image.RGBA:
			d.SetRGBA(x, y, color.RGBA{uint8(p[0]), uint8(p[1]), uint8(p[2]), uint8(p[3])})
		case *image.NRGBA64:
			d.SetNRGBA64(x, y, color.NRGBA64{uint16(p[0] * 257), uint16(p[1] * 257), uint16(p[2] * 257), uint16(p[3] * 257)})
		case *image.RGBA64:
			d.SetRGBA64(x, y, color.RGBA64{uint16(p[0] * 257), uint16(p[1] * 257), uint16(p[2] * 257), uint16(p[3] * 257)})
		case *image.Alpha:
			d.SetAlpha(x, y, color.Alpha{uint8(p[3])})
		}
	}
	return m
}

// get reads a pixel as premultiplied components, in 8-bit levels.
func get(m image.Image, x, y int) (v [4]float64) {
	if w, ok := m.(*wrap); ok {
		m = w.Image
	}
	switch d := m.(type) {
	case *image.NRGBA:
		c := d.NRGBAAt(x, y)
		a := float64(c.A)
		return [4]float64{float64(c.R) * a / 255, float64(c.G) * a / 255, float64(c.B) * a / 255, a}
	case *image.RGBA:
		c := d.RGBAAt(x, y)
		return [4]float64{float64(c.R), float64(c.G), float64(c.B), float64(c.A)}
	case *image.NRGBA64:
		c := d.NRGBA64At(x, y)
		a := float64(c.A) / 65535
		return [4]float64{float64(c.R) * a / 257, float64(c.G) * a / 257, float64(c.B) * a / 257, a * 255}
	case *image.RGBA64:
		c := d.RGBA64At(x, y)
		return [4]float64{float64(c.R) / 257, float64(c.G) / 257, float64(c.B) / 257, float64(c.A) / 257}
	}
	return
}

var srcKinds = map[string][]string{
	"straight": {"NRGBA", "NRGBA64", "wrapN"}, "premul": {"RGBA", "RGBA64", "wrapP"}, "alpha": {"Alpha"},
}
var dstKinds = map[string][]string{
	"straight": {"NRGBA", "NRGBA64", "wrapN"}, "premul": {"RGBA", "RGBA64", "wrapP"},
}

// valid reports components that exceed the alpha of a premultiplied pixel.
func valid(v [4]float64) bool {
	a := v[3] + 1e-6
	return v[0] <= a && v[1] <= a && v[2] <= a
}

// spread is the distance between the greatest and the least straight component.
func spread(p px, rep string) float64 {
	lo, hi := p[0], p[0]
	for _, v := range p[1:3] {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	d := float64(hi - lo)
	if rep != "straight" && p[3] > 0 {
		d *= 255 / float64(p[3])
	}
	return d
}

// stretched is how much a mode may magnify the rounding of its operands: the
// modes that take over a hue scale the distances between the components.
func stretched(c *modeCase, i int) float64 {
	switch c.Mode {
	case "Hue", "Saturation", "Color", "Luminosity":
		e := 0.0
		if d := spread(c.S[i], c.SRep); d > 0 {
			e += 2 / d
		}
		if d := spread(c.D[i], c.DRep); d > 0 {
			e += 2 / d
		}
		return e
	}
	return 0
}

// room is how far below and above the exact value a component of a kind may be.
func room(kind string) (color, alpha float64) {
	switch kind {
	case "NRGBA", "wrapN": // both the color and the alpha are cut off
		return 2.1, 1.05
	case "RGBA", "wrapP":
		return 1.1, 1.05
	case "NRGBA64":
		return 0.06, 0.03
	default:
		return 0.04, 0.03
	}
}

// above is how far over the exact value v (in levels) a component may be: 16-bit
// values are cut to 8 bits by dropping the low byte, as package image/color does,
// which adds v/256; rounding adds half a level.
func above(kind string, v float64) (color, alpha float64) {
	switch kind {
	case "NRGBA", "wrapN": // both factors of the premultiplied value
		return math.Max(1.05, v/128+0.1), math.Max(0.55, v/256+0.1)
	case "RGBA", "wrapP":
		return math.Max(0.55, v/256+0.1), math.Max(0.55, v/256+0.1)
	}
	return 0.06, 0.03
}

type pdCase struct {
	Op, SRep, DRep string
	S, D           []px
	E              []px // premultiplied, 1/128 level
	X              []int
}

func runPorterDuff(t *kit.T, c *pdCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	d := drawers[c.Op]
	if s := fmt.Sprint(d); s != c.Op {
		t.Errorf("%s is called %s", c.Op, s)
	}
	w := 4 + rnd.Intn(9)
	for _, dk := range dstKinds[c.DRep] {
		for _, sk := range srcKinds[c.SRep] {
			if sk == "Alpha" && dk != "RGBA" && dk != "NRGBA" {
				continue
			}
			dst, src := put(dk, c.D, w), put(sk, c.S, w)
			r := image.Rect(0, 0, w, len(c.S)/w)
			d.Draw(dst, r, src, image.Point{})
			for i := 0; i < r.Dx()*r.Dy(); i++ {
				pdPixel(t, c, sk, dk, i, get(dst, i%w, i/w))
			}
			if len(t.Fails) > 0 {
				return
			}
		}
		if c.SRep == "alpha" {
			continue
		}
		// one color everywhere
		for n := 0; n < 3; n++ {
			i := rnd.Intn(len(c.S))
			p := c.S[i]
			var u image.Image
			kind := "Uniform"
			if c.SRep == "straight" {
				u = image.NewUniform(color.NRGBA{uint8(p[0]), uint8(p[1]), uint8(p[2]), uint8(p[3])})
			} else {
				u = image.NewUniform(color.RGBA{uint8(p[0]), uint8(p[1]), uint8(p[2]), uint8(p[3])})
			}
			dst := put(dk, []px{c.D[i], c.D[i], c.D[i]}, 3)
			d.Draw(dst, image.Rect(1, 0, 2, 1), u, image.Pt(rnd.Intn(9), 0))
			pdPixel(t, c, kind, dk, i, get(dst, 1, 0))
			for _, x := range []int{0, 2} {
				if g, w := get(dst, x, 0), get(put(dk, []px{c.D[i]}, 1), 0, 0); g != w {
					t.Errorf("%s of Uniform onto %s: the pixel beside it became %v", c.Op, dk, g)
				}
			}
		}
	}
	t.Count("rows", 1)
}

func pdPixel(t *kit.T, c *pdCase, sk, dk string, i int, g [4]float64) {
	t.Count("pixels", 1)
	tc, ta := room(dk)
	if c.X[i] == 1 {
		ta = 0.01
		if (dk == "RGBA" || dk == "RGBA64" || dk == "wrapP") && (c.SRep != "straight" || c.Op == "Dest" || c.Op == "Clear") {
			tc = 0.01
		}
	}
	bad := false
	for k := 0; k < 4; k++ {
		lo := tc
		if k == 3 {
			lo = ta
		}
		w := float64(c.E[i][k]) / 128
		hi, ha := above(dk, w)
		if k == 3 {
			hi = ha
		}
		if g[k] < w-lo || g[k] > w+math.Min(lo, hi) {
			bad = true
		}
	}
	if !valid(g) {
		bad = true
	}
	if bad {
		t.Errorf("%s of %s %v (%s) over %s %v (%s): premultiplied %.2f, want %.2f %.2f %.2f %.2f", c.Op, sk, c.S[i], c.SRep, dk, c.D[i], c.DRep, g,
			float64(c.E[i][0])/128, float64(c.E[i][1])/128, float64(c.E[i][2])/128, float64(c.E[i][3])/128)
	}
}

type mixed struct {
	A    int
	Keep bool
	W, K int
	C    [3][2]int
}

type modeCase struct {
	Mode, SRep, DRep string
	Opac             int
	S, D             []px
	E                []mixed
}

// levels a mode's own rounding may cost when it is computed in 8 bits
func slack8(mode string) float64 {
	switch mode {
	case "Normal", "Darken", "Lighten", "DarkerColor", "LighterColor":
		return 0
	case "SoftLight":
		return 2.5
	case "Hue", "Saturation", "Color", "Luminosity":
		return 4
	}
	return 1.1
}

func runModes(t *kit.T, c *modeCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	d := modes[c.Mode]
	if s := fmt.Sprint(d); s != c.Mode {
		t.Errorf("%s is called %s", c.Mode, s)
	}
	w := 4 + rnd.Intn(9)
	r := image.Rect(0, 0, w, len(c.S)/w)
	for _, dk := range dstKinds[c.DRep] {
		for _, sk := range srcKinds[c.SRep] {
			for mk := 0; mk < 3; mk++ {
				var mask image.Image
				direct := sk == "NRGBA" && dk == "NRGBA"
				switch mk {
				case 0: // as plain as possible
					if c.Opac != 255 {
						mask = image.NewUniform(color.Alpha{uint8(c.Opac)})
					}
				case 1:
					mask = image.NewUniform(color.NRGBA{255, 0, 7, uint8(c.Opac)})
				case 2:
					m := image.NewAlpha(r)
					for i := range m.Pix {
						m.Pix[i] = uint8(c.Opac)
					}
					mask = m
					direct = false
				}
				dst, src := put(dk, c.D, w), put(sk, c.S, w)
				before := put(dk, c.D, w)
				d.DrawMask(dst, r, src, image.Point{}, mask, image.Point{})
				for i := 0; i < r.Dx()*r.Dy(); i++ {
					modePixel(t, c, sk, dk, direct, i, before.At(i%w, i/w), dst.At(i%w, i/w), get(dst, i%w, i/w))
				}
				if len(t.Fails) > 0 {
					return
				}
			}
		}
	}
	t.Count("rows", 1)
}

func modePixel(t *kit.T, c *modeCase, sk, dk string, direct bool, i int, was, is color.Color, g [4]float64) {
	t.Count("pixels", 1)
	e := &c.E[i]
	what := func() string {
		return fmt.Sprintf("%s of %s %v (%s) over %s %v (%s), opacity %d", c.Mode, sk, c.S[i], c.SRep, dk, c.D[i], c.DRep, c.Opac)
	}
	if e.Keep {
		if was != is {
			t.Errorf("%s: transparent, but changed it from %v to %v", what(), was, is)
		}
		t.Count("kept", 1)
		return
	}
	tc, ta := room(dk)
	fn := (0.1 + stretched(c, i)) * float64(e.W) / 32640
	if direct { // the mode, the weights and the mix are all rounded to 8 bits
		fn += slack8(c.Mode) * float64(e.W) / 32640
		tc += float64(e.K)
		ta = 0.01 + float64(e.K)
	}
	up := func(v float64) float64 { u, _ := above(dk, v); return math.Min(tc, u) }
	bad := false
	for k := 0; k < 3; k++ {
		if g[k] < float64(e.C[k][0])/128-tc-fn || g[k] > float64(e.C[k][1])/128+up(float64(e.C[k][1])/128)+fn {
			bad = true
		}
	}
	a := float64(e.A) / 128
	if _, ua := above(dk, a); g[3] < a-ta || g[3] > a+math.Min(ta, ua) || !valid(g) {
		bad = true
	}
	if bad {
		t.Errorf("%s: premultiplied %.2f, want %.2f..%.2f %.2f..%.2f %.2f..%.2f, %.2f", what(), g, float64(e.C[0][0])/128, float64(e.C[0][1])/128,
			float64(e.C[1][0])/128, float64(e.C[1][1])/128, float64(e.C[2][0])/128, float64(e.C[2][1])/128, a)
	}
}
