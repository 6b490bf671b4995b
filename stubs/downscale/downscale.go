// Package downscale is a stand-in for github.com/oov/downscale, which is not
// available offline.  It implements the one function package composite uses:
// an area-averaging reduction of straight-alpha images (alpha-weighted).
package downscale

import (
	"context"
	"errors"
	"image"
)

// NRGBAFast scales src into dest by averaging the source area each destination pixel covers.
func NRGBAFast(ctx context.Context, dest *image.NRGBA, src *image.NRGBA) error {
	dw, dh := dest.Rect.Dx(), dest.Rect.Dy()
	sw, sh := src.Rect.Dx(), src.Rect.Dy()
	if dw <= 0 || dh <= 0 || sw <= 0 || sh <= 0 {
		return errors.New("downscale: empty image")
	}
	for y := 0; y < dh; y++ {
		if err := ctx.Err(); err != nil {
			return err
		}
		y0, y1 := y*sh/dh, ((y+1)*sh+dh-1)/dh
		for x := 0; x < dw; x++ {
			x0, x1 := x*sw/dw, ((x+1)*sw+dw-1)/dw
			var r, g, b, a, n uint64
			for sy := y0; sy < y1; sy++ {
				for sx := x0; sx < x1; sx++ {
					p := src.Pix[sy*src.Stride+sx*4:]
					al := uint64(p[3])
					r += uint64(p[0]) * al
					g += uint64(p[1]) * al
					b += uint64(p[2]) * al
					a += al
					n++
				}
			}
			q := dest.Pix[y*dest.Stride+x*4:]
			if a > 0 {
				q[0], q[1], q[2], q[3] = uint8(r/a), uint8(g/a), uint8(b/a), uint8(a/n)
			}
		}
	}
	return nil
}
