package main

import (
	"image/color"

	"verif/harness/kit"
)

type exportCase struct {
	Export []struct {
		Node int
		Path []int
	}
	Drop []int
	Doc  compDoc
	Ext  *extDoc
}

func runExport(t *kit.T, c *exportCase) {
	d := &c.Doc
	d.ext, d.drop = c.Ext, c.Drop
	var want []kit.Exported
	for _, e := range c.Export {
		i := e.Node
		w, h := d.area(i)
		want = append(want, kit.Exported{Path: e.Path, W: w, H: h, At: func(x, y int) color.Color {
			p := d.Pix[i-1][y*w+x]
			a := 255
			if d.HasA[i-1] {
				a = p[3]
			}
			return color.NRGBA{byte(p[0]), byte(p[1]), byte(p[2]), byte(a)}
		}})
	}
	kit.Export(t, d.file(), want)
}
