package main

import (
	"fmt"
	"image/color"
	"math"
	"os"
	"reflect"

	psdcolor "github.com/oov/psd/color"
	"verif/harness/kit"
)

type colorCase struct {
	Ty    string
	F     []int
	M     px
	Steps []struct {
		Ty  string
		M   px
		Tol int
	}
}

type other struct{ r, g, b, a uint16 }

func (c other) RGBA() (r, g, b, a uint32) { return uint32(c.r), uint32(c.g), uint32(c.b), uint32(c.a) }

func lim(v, a int) int {
	if v > a {
		return a
	}
	return v
}

func makeColor(ty string, f []int) color.Color {
	b := func(i int) uint8 { return uint8(f[i]) }
	w := func(i int) uint16 { return uint16(f[i]) }
	l := func(i int) float32 { return float32(f[i]) / 16 }
	switch ty {
	case "Gray1":
		return psdcolor.Gray1{Y: f[0] == 1}
	case "Gray32":
		return psdcolor.Gray32{Y: l(0)}
	case "NGrayA":
		return psdcolor.NGrayA{Y: b(0), A: b(1)}
	case "NGrayA32":
		return psdcolor.NGrayA32{Y: w(0), A: w(1)}
	case "NGrayA64":
		return psdcolor.NGrayA64{Y: l(0), A: l(1)}
	case "NRGBA128":
		return psdcolor.NRGBA128{R: l(0), G: l(1), B: l(2), A: l(3)}
	case "NCMYKA":
		return psdcolor.NCMYKA{C: b(0), M: b(1), Y: b(2), K: b(3), A: b(4)}
	case "NCMYKA80":
		return psdcolor.NCMYKA80{C: w(0), M: w(1), Y: w(2), K: w(3), A: w(4)}
	case "NRGBA":
		return color.NRGBA{b(0), b(1), b(2), b(3)}
	case "NRGBA64":
		return color.NRGBA64{w(0), w(1), w(2), w(3)}
	case "RGBA":
		return color.RGBA{uint8(lim(f[0], f[3])), uint8(lim(f[1], f[3])), uint8(lim(f[2], f[3])), b(3)}
	case "RGBA64":
		return color.RGBA64{uint16(lim(f[0], f[3])), uint16(lim(f[1], f[3])), uint16(lim(f[2], f[3])), w(3)}
	case "other":
		return other{uint16(lim(f[0], f[3])), uint16(lim(f[1], f[3])), uint16(lim(f[2], f[3])), w(3)}
	case "Gray":
		return color.Gray{b(0)}
	case "Gray16":
		return color.Gray16{w(0)}
	case "Alpha":
		return color.Alpha{b(0)}
	case "Alpha16":
		return color.Alpha16{w(0)}
	case "CMYK":
		return color.CMYK{b(0), b(1), b(2), b(3)}
	}
	fmt.Fprintln(os.Stderr, "no such color:", ty)
	os.Exit(3)
	return nil
}

var colorModels = map[string]color.Model{
	"Gray1": psdcolor.Gray1Model, "Gray32": psdcolor.Gray32Model, "NGrayA": psdcolor.NGrayAModel, "NGrayA32": psdcolor.NGrayA32Model,
	"NGrayA64": psdcolor.NGrayA64Model, "NRGBA128": psdcolor.NRGBA128Model, "NCMYKA": psdcolor.NCMYKAModel, "NCMYKA80": psdcolor.NCMYKA80Model,
}

var zero = map[string]color.Color{
	"Gray1": psdcolor.Gray1{}, "Gray32": psdcolor.Gray32{}, "NGrayA": psdcolor.NGrayA{}, "NGrayA32": psdcolor.NGrayA32{},
	"NGrayA64": psdcolor.NGrayA64{}, "NRGBA128": psdcolor.NRGBA128{}, "NCMYKA": psdcolor.NCMYKA{}, "NCMYKA80": psdcolor.NCMYKA80{},
}

func means(t *kit.T, what string, c color.Color, m px, tol int) {
	var v [4]uint32
	t.Guard(what+".RGBA", func() { v[0], v[1], v[2], v[3] = c.RGBA() })
	bad := ""
	for k := 0; k < 4; k++ {
		if math.Abs(float64(v[k])*32640/65535-float64(m[k])) > float64(tol) {
			bad = "is off"
		}
	}
	if v[0] > v[3] || v[1] > v[3] || v[2] > v[3] || v[3] > 0xffff {
		bad = "is not premultiplied"
	}
	if bad != "" {
		s := func(i int) float64 { return float64(m[i]) * 65535 / 32640 }
		t.Errorf("%s: RGBA() = %v %s, want about %.0f %.0f %.0f %.0f", what, v, bad, s(0), s(1), s(2), s(3))
	}
}

func runColors(t *kit.T, c *colorCase) {
	cur := makeColor(c.Ty, c.F)
	what := fmt.Sprintf("%T%v", cur, cur)
	if _, own := zero[c.Ty]; own {
		means(t, what, cur, c.M, 4)
	}
	for _, s := range c.Steps {
		model := colorModels[s.Ty]
		var next color.Color
		from := what
		if !t.Guard(from+" to "+s.Ty, func() { next = model.Convert(cur) }) || len(t.Fails) > 0 {
			return
		}
		what = fmt.Sprintf("%s -> %s%v", from, s.Ty, next)
		if reflect.TypeOf(next) != reflect.TypeOf(zero[s.Ty]) {
			t.Errorf("%s: the result is a %T", what, next)
			return
		}
		means(t, what, next, s.M, s.Tol)
		if reflect.TypeOf(cur) == reflect.TypeOf(next) && cur != next {
			t.Errorf("%s: it already belonged to the model", what)
		}
		if again := model.Convert(next); again != next {
			t.Errorf("%s: converting again gives %v", what, again)
		}
		t.Count("conversions", 1)
		cur = next
	}
}
