package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math/rand"
	"runtime"

	"github.com/oov/psd/blend"
	"verif/harness/kit"
)

type geoCase struct {
	PB, DB, SB, MB, R [4]int
	SP, MP            [2]int
	Shared, Same      bool
	DK, SK, MK        string
	Op                int
	CR                [4]int
	CSP, CMP          [2]int
	None              bool
}

func rect(a [4]int) image.Rectangle {
	return image.Rectangle{Min: image.Pt(a[0], a[1]), Max: image.Pt(a[2], a[3])}
}

func point(a [2]int) image.Point { return image.Pt(a[0], a[1]) }

var cpus = []int{1, 2, 3, 4, 8, 16}

func runGeometry(t *kit.T, c *geoCase) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	rnd := rand.New(rand.NewSource(t.Seed))
	masked := c.MK != "none"
	for k := 0; k < 2; k++ {
		var name string
		if masked || (c.Op>>k)&1 == 0 {
			name = modeNames[(c.Op+k*11)%len(modeNames)]
		} else {
			name = drawerNames[(c.Op+k*5)%len(drawerNames)]
		}
		n := cpus[rnd.Intn(len(cpus))]
		if k == 0 {
			n = []int{2, 3, 8}[rnd.Intn(3)]
		}
		runtime.GOMAXPROCS(n)
		geometry(t, c, name, n, rnd)
		if len(t.Fails) > 0 {
			return
		}
	}
}

func geometry(t *kit.T, c *geoCase, name string, n int, rnd *rand.Rand) {
	parent := rect(c.PB).Union(rect(c.DB)).Inset(-2)
	base := blank(c.DK, parent)
	fill(base, rnd)
	var dst draw.Image
	var src image.Image
	switch {
	case c.Shared && c.Same:
		// both are the whole image: it has no margin then
		base = blank(c.DK, rect(c.DB))
		fill(base, rnd)
		parent = base.Bounds()
		dst, src = base, base
	case c.Shared:
		dst, src = part(base, rect(c.DB)), part(base, rect(c.SB))
	default:
		dst, src = part(base, rect(c.DB)), source(c.SK, rect(c.SB), rnd)
	}
	var mask image.Image
	switch c.MK {
	case "none":
	case "uniform":
		mask = image.NewUniform(color.Alpha{uint8([]int{0, 1, 128, 255, rnd.Intn(256)}[rnd.Intn(5)])})
	default:
		mask = source(c.MK, rect(c.MB), rnd)
	}

	// a copy of everything, taken first
	before := blank(c.DK, parent)
	for y := parent.Min.Y; y < parent.Max.Y; y++ {
		for x := parent.Min.X; x < parent.Max.X; x++ {
			before.Set(x, y, base.At(x, y))
		}
	}
	from := src
	if c.Shared {
		from = before
	}
	one := func(q image.Point) color.Color {
		d := pixel(c.DK, before, q).(draw.Image)
		off := q.Sub(rect(c.CR).Min)
		s := pixel(c.SK, from, point(c.CSP).Add(off))
		var m image.Image
		if mask != nil {
			m = pixel(c.MK, mask, point(c.CMP).Add(off))
		}
		do(name, d, image.Rect(0, 0, 1, 1), s, image.Point{}, m, image.Point{})
		return d.At(0, 0)
	}
	want := map[image.Point]color.Color{}
	if !c.None {
		cr := rect(c.CR)
		for y := cr.Min.Y; y < cr.Max.Y; y++ {
			for x := cr.Min.X; x < cr.Max.X; x++ {
				want[image.Pt(x, y)] = one(image.Pt(x, y))
			}
		}
	}

	what := fmt.Sprintf("%s of %s onto %s, mask %s, %d CPUs", name, c.SK, c.DK, c.MK, n)
	if c.Shared {
		what += ", shared memory"
	}
	t.Guard(what, func() {
		do(name, dst, rect(c.R), src, point(c.SP), mask, point(c.MP))
	})
	for y := parent.Min.Y; y < parent.Max.Y; y++ {
		for x := parent.Min.X; x < parent.Max.X; x++ {
			p := image.Pt(x, y)
			w, drawn := want[p]
			if !drawn {
				w = before.At(x, y)
			}
			if g := base.At(x, y); g != w {
				how := "is not to be drawn"
				if drawn {
					how = "is drawn"
				}
				t.Errorf("%s: pixel %v %s: %v, want %v", what, p, how, g, w)
				return
			}
		}
	}
	t.Count("draws", 1)
	t.Count("drawn_pixels", len(want))
	if c.Shared && len(want) > 0 {
		t.Count("shared_draws", 1)
	}
	if c.None {
		t.Count("empty_draws", 1)
	}
}

func do(name string, dst draw.Image, r image.Rectangle, src image.Image, sp image.Point, mask image.Image, mp image.Point) {
	if d, ok := drawers[name]; ok {
		d.Draw(dst, r, src, sp)
		return
	}
	d := modes[name]
	if mask == nil && r.Min.X&1 == 0 {
		d.Draw(dst, r, src, sp)
		return
	}
	d.DrawMask(dst, r, src, sp, mask, mp)
}

var _ blend.Drawer
