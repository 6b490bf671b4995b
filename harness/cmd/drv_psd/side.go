package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"runtime"
	"sync"

	"github.com/oov/psd"

	"verif/harness/kit"
)

// ---------------------------------------------------------------- C24

// sideBefore is the document of the case before, to have two different ones at work at once.
var sideBefore []byte

type sideResult struct {
	Doc    *psd.PSD
	Cfg    psd.Config
	Img    image.Image
	Pixels []color.Color
	N      int
	Failed bool
}

func docSide(t *kit.T, c *docCase) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	runtime.GOMAXPROCS(8)
	other := sideBefore
	if other == nil {
		other = c.B
	}
	sideBefore = c.B
	shared, _, _ := psd.Decode(bytes.NewReader(c.B), nil)
	dec := func(b []byte, o *psd.DecodeOptions) func() sideResult {
		return func() sideResult {
			p, n, err := psd.Decode(bytes.NewReader(b), o)
			return sideResult{Doc: p, N: n, Failed: err != nil}
		}
	}
	jobs := []func() sideResult{
		dec(c.B, nil), dec(other, nil), dec(c.B, &psd.DecodeOptions{SkipMergedImage: true}), dec(c.B[:len(c.B)/2], nil),
		dec(c.B, &psd.DecodeOptions{SkipLayerImage: true}),
		func() sideResult {
			cfg, n, err := psd.DecodeConfig(bytes.NewReader(c.B))
			return sideResult{Cfg: cfg, N: n, Failed: err != nil}
		},
		func() sideResult {
			m, _, err := image.Decode(bytes.NewReader(other))
			return sideResult{Img: m, Failed: err != nil}
		},
	}
	read := func() sideResult {
		r := sideResult{}
		if shared == nil {
			return r
		}
		at := func(m image.Image) {
			if m == nil || m.Bounds().Dx() > 64 || m.Bounds().Dy() > 64 {
				return
			}
			b := m.Bounds()
			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					r.Pixels = append(r.Pixels, m.At(x, y))
				}
			}
		}
		if shared.Picker != nil {
			at(shared.Picker)
		}
		var walk func(ls []psd.Layer)
		walk = func(ls []psd.Layer) {
			for i := range ls {
				if l := &ls[i]; l.HasImage() && l.Picker != nil {
					at(l.Picker)
				}
				walk(ls[i].Layer)
			}
		}
		walk(shared.Layer)
		for _, v := range shared.Config.Palette() {
			r.Pixels = append(r.Pixels, v)
		}
		return r
	}
	jobs = append(jobs, read, read)
	alone := make([]sideResult, len(jobs))
	beside := make([]sideResult, len(jobs))
	if !t.Guard("one after the other", func() {
		for i, f := range jobs {
			alone[i] = f()
		}
	}) {
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, f := range jobs {
		i, f := i, f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					mu.Lock()
					t.Errorf("job %d among others: panic: %v", i, v)
					mu.Unlock()
				}
			}()
			beside[i] = f()
		}()
	}
	wg.Wait()
	t.Count("decodes", 2*len(jobs))
	for i := range jobs {
		if d := kit.Diff(alone[i], beside[i]); d != "" {
			t.Errorf("%s", fmt.Sprintf("job %d (%s) among others differs from alone: %s", i, c.What, d))
			return
		}
	}
}
