package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math/rand"
	"os"

	"github.com/oov/psd/blend"
)

var drawers = map[string]draw.Drawer{
	"Clear": blend.Clear, "Copy": blend.Copy, "Dest": blend.Dest, "SrcOver": blend.SrcOver, "DestOver": blend.DestOver,
	"SrcIn": blend.SrcIn, "DestIn": blend.DestIn, "SrcOut": blend.SrcOut, "DestOut": blend.DestOut,
	"SrcAtop": blend.SrcAtop, "DestAtop": blend.DestAtop, "XOR": blend.XOR,
}

var modes = map[string]blend.Drawer{
	"Normal": blend.Normal, "Darken": blend.Darken, "Multiply": blend.Multiply, "ColorBurn": blend.ColorBurn,
	"LinearBurn": blend.LinearBurn, "DarkerColor": blend.DarkerColor, "Lighten": blend.Lighten, "Screen": blend.Screen,
	"ColorDodge": blend.ColorDodge, "LinearDodge": blend.LinearDodge, "LighterColor": blend.LighterColor, "Add": blend.Add,
	"Overlay": blend.Overlay, "SoftLight": blend.SoftLight, "HardLight": blend.HardLight, "LinearLight": blend.LinearLight,
	"VividLight": blend.VividLight, "PinLight": blend.PinLight, "HardMix": blend.HardMix, "Difference": blend.Difference,
	"Exclusion": blend.Exclusion, "Subtract": blend.Subtract, "Divide": blend.Divide, "Hue": blend.Hue,
	"Saturation": blend.Saturation, "Color": blend.Color, "Luminosity": blend.Luminosity,
}

var drawerNames = []string{"Clear", "Copy", "Dest", "SrcOver", "DestOver", "SrcIn", "DestIn", "SrcOut", "DestOut", "SrcAtop", "DestAtop", "XOR"}
var modeNames = []string{"Normal", "Darken", "Multiply", "ColorBurn", "LinearBurn", "DarkerColor", "Lighten", "Screen", "ColorDodge", "LinearDodge",
	"LighterColor", "Add", "Overlay", "SoftLight", "HardLight", "LinearLight", "VividLight", "PinLight", "HardMix", "Difference", "Exclusion",
	"Subtract", "Divide", "Hue", "Saturation", "Color", "Luminosity"}

// wrap hides the concrete type of an image.
type wrap struct{ draw.Image }

var pal = func() color.Palette {
	p := color.Palette{color.NRGBA{}, color.Black, color.White}
	for i := 0; i < 29; i++ {
		p = append(p, color.NRGBA{uint8(i * 37), uint8(i * 91), uint8(255 - i*7), uint8(255 - (i%4)*40)})
	}
	return p
}()

// blank creates an image of a kind; it is nil for kinds that are only read.
func blank(kind string, r image.Rectangle) draw.Image {
	switch kind {
	case "RGBA":
		return image.NewRGBA(r)
	case "NRGBA":
		return image.NewNRGBA(r)
	case "RGBA64":
		return image.NewRGBA64(r)
	case "NRGBA64":
		return image.NewNRGBA64(r)
	case "Gray":
		return image.NewGray(r)
	case "Gray16":
		return image.NewGray16(r)
	case "Alpha":
		return image.NewAlpha(r)
	case "Paletted":
		return image.NewPaletted(r, pal)
	case "wrap":
		return &wrap{image.NewNRGBA(r)}
	}
	fmt.Fprintln(os.Stderr, "no such image kind:", kind)
	os.Exit(3)
	return nil
}

func noisy(rnd *rand.Rand) color.NRGBA64 {
	a := rnd.Intn(0x10000)
	switch rnd.Intn(5) {
	case 0:
		a = 0xffff
	case 1:
		a = 0
	}
	return color.NRGBA64{uint16(rnd.Intn(0x10000)), uint16(rnd.Intn(0x10000)), uint16(rnd.Intn(0x10000)), uint16(a)}
}

func fill(m draw.Image, rnd *rand.Rand) {
	r := m.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			m.Set(x, y, noisy(rnd))
		}
	}
}

// part is the part r of m, as the same kind of image.
func part(m draw.Image, r image.Rectangle) draw.Image {
	if w, ok := m.(*wrap); ok {
		return &wrap{part(w.Image, r)}
	}
	return m.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(r).(draw.Image)
}

// pixel copies one pixel into a 1x1 image of the same kind.
func pixel(kind string, m image.Image, p image.Point) image.Image {
	r := image.Rect(0, 0, 1, 1)
	switch kind {
	case "uniform":
		return m
	case "YCbCr":
		s := m.(*image.YCbCr)
		d := image.NewYCbCr(r, image.YCbCrSubsampleRatio444)
		c := s.YCbCrAt(p.X, p.Y)
		d.Y[0], d.Cb[0], d.Cr[0] = c.Y, c.Cb, c.Cr
		return d
	}
	d := blank(kind, r)
	d.Set(0, 0, m.At(p.X, p.Y))
	return d
}

func source(kind string, r image.Rectangle, rnd *rand.Rand) image.Image {
	switch kind {
	case "uniform":
		return image.NewUniform(noisy(rnd))
	case "YCbCr":
		m := image.NewYCbCr(r.Inset(-2), image.YCbCrSubsampleRatio420)
		rnd.Read(m.Y)
		rnd.Read(m.Cb)
		rnd.Read(m.Cr)
		return m.SubImage(r)
	}
	m := blank(kind, r.Inset(-3))
	fill(m, rnd)
	return part(m, r)
}
