package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"image"
	"image/color"
	"io"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"unicode/utf16"

	"github.com/oov/psd"
	psdColor "github.com/oov/psd/color"

	"verif/harness/kit"
)

func runDoc(t *kit.T, c *docCase) {
	t.Count("kind_"+c.Kind, 1)
	if c.Kind == "lie" {
		t.Count("lies_"+c.Verdict, 1)
		// something was changed, and the specification's reader made another document of it
		if c.Verdict == "ok" {
			c.Kind = "none"
		}
	}
	switch t.Prop {
	case "C01":
		docConfig(t, c)
	case "C02":
		docLayers(t, c)
	case "C04":
		docReaders(t, c)
	case "C05":
		docReject(t, c)
	case "C06":
		docNoise(t, c)
	case "C07":
		docPlanes(t, c)
	case "C09":
		docPixels(t, c)
	case "C10":
		docOptions(t, c)
	case "C23":
		docExport(t, c)
	case "C24":
		docSide(t, c)
	}
}

func decode(t *kit.T, what string, b []byte, o *psd.DecodeOptions) (p *psd.PSD, n int, err error) {
	err = errors.New("panicked")
	t.Guard(what, func() { p, n, err = psd.Decode(bytes.NewReader(b), o) })
	return
}

// ---------------------------------------------------------------- C01

func sameConfig(t *kit.T, what string, g *psd.Config, w *cfgOut) {
	if g.Version != w.Version || g.PSB() != (w.Version == 2) {
		t.Errorf("%s: version %d PSB %v, file has %d", what, g.Version, g.PSB(), w.Version)
	}
	if g.Rect != image.Rect(0, 0, w.W, w.H) {
		t.Errorf("%s: rect %v, file is %dx%d", what, g.Rect, w.W, w.H)
	}
	if g.Channels != w.Ch || g.Depth != w.Depth || int(g.ColorMode) != w.Mode {
		t.Errorf("%s: channels/depth/mode %d/%d/%d, file has %d/%d/%d", what, g.Channels, g.Depth, g.ColorMode, w.Ch, w.Depth, w.Mode)
	}
	if !bytes.Equal(g.ColorModeData, w.Cmd) {
		t.Errorf("%s: color mode data %d bytes differs from the file's %d", what, len(g.ColorModeData), len(w.Cmd))
	}
	if len(g.Res) != len(w.Res) {
		t.Errorf("%s: %d resources, file has %d", what, len(g.Res), len(w.Res))
	}
	for _, r := range w.Res {
		e, ok := g.Res[r.ID]
		if !ok {
			t.Errorf("%s: resource %d is missing", what, r.ID)
			continue
		}
		if e.Name != string(r.Name) || !bytes.Equal(e.Data, r.Data) {
			t.Errorf("%s: resource %d is %q/%d bytes %x, file has %q/%d bytes", what, r.ID, e.Name, len(e.Data), head(e.Data), r.Name, len(r.Data))
		}
	}
}

func head(b []byte) []byte {
	if len(b) > 16 {
		return b[:16]
	}
	return b
}

func docConfig(t *kit.T, c *docCase) {
	if c.Kind == "lie" && (c.Verdict != "reject" || c.Stage != "cfg") {
		return
	}
	for _, s := range sources {
		t.Guard("DecodeConfig", func() {
			r, _ := s.Make(c.B, t.Seed)
			cfg, _, err := psd.DecodeConfig(r)
			t.Count("decodes", 1)
			if c.Kind != "none" {
				if err == nil && (c.Focus == "config" || c.Kind == "lie") {
					t.Errorf("DecodeConfig accepted a header breaking rule %q", c.What)
				}
				return
			}
			if err != nil {
				t.Errorf("DecodeConfig (%s): %v", s.Name, err)
				return
			}
			sameConfig(t, "DecodeConfig ("+s.Name+")", &cfg, &c.Cfg)
		})
	}
	if c.Focus == "config" {
		if c.Kind != "none" {
			if _, _, err := decode(t, "Decode", c.B, nil); err == nil {
				t.Errorf("Decode accepted a header breaking rule %q", c.What)
			}
		}
		return
	}
	if c.Kind == "none" {
		if p, _, err := decode(t, "Decode", c.B, nil); err != nil {
			t.Errorf("Decode: %v", err)
		} else {
			sameConfig(t, "Decode", &p.Config, &c.Cfg)
		}
	}
}

type hdrCase struct {
	Hdr               kit.Bytes
	OK                bool
	V, Ch, W, H, D, M int
}

func runHeader(t *kit.T, c *hdrCase) {
	b := append(append([]byte{}, c.Hdr...), 0, 0, 0, 0, 0, 0, 0, 0)
	t.Guard("DecodeConfig", func() {
		cfg, n, err := psd.DecodeConfig(bytes.NewReader(b))
		if (err == nil) != c.OK {
			t.Errorf("header %v (version %d, %d channels, %dx%d, depth %d): accepted %v, must be %v", c.Hdr, c.V, c.Ch, c.W, c.H, c.D, err == nil, c.OK)
			return
		}
		if err == nil && (cfg.Version != c.V || cfg.Channels != c.Ch || cfg.Rect != image.Rect(0, 0, c.W, c.H) || cfg.Depth != c.D || int(cfg.ColorMode) != c.M || n != len(b)) {
			t.Errorf("header %v reported as %+v, %d bytes", c.Hdr, cfg, n)
		}
	})
	if !c.OK {
		t.Count("rejected", 1)
		if _, _, err := decode(t, "Decode", append(b, 0, 0, 0, 0, 0, 0, 0, 0), &psd.DecodeOptions{SkipMergedImage: true}); err == nil {
			t.Errorf("Decode accepted header %v", c.Hdr)
		}
	}
}

// ---------------------------------------------------------------- C02

func f64(b []byte) float64 { return math.Float64frombits(binary.BigEndian.Uint64(b)) }

func sameMask(t *kit.T, i int, g *psd.Mask, w *maskOut) {
	if w.Form == 0 {
		if !g.Rect.Empty() || !g.RealRect.Empty() {
			t.Errorf("layer %d: mask %+v reported where the file has none", i, *g)
		}
		return
	}
	want := psd.Mask{
		Rect: rect(w.Rect), DefaultColor: w.Def, Flags: w.Flags,
		RealRect: rect(w.RRect), RealBackgroundColor: w.RBG, RealFlags: w.RFlags,
		UserMaskDensity: w.UD, UserMaskFeather: f64(w.UF), VectorMaskDensity: w.VD, VectorMaskFeather: f64(w.VF),
	}
	have := *g
	if w.Form == 2 {
		// Mask data that ends before the flags says nothing of densities.
		want.UserMaskDensity, want.VectorMaskDensity = have.UserMaskDensity, have.VectorMaskDensity
	}
	for _, p := range [...]struct{ h, w *float64 }{{&have.UserMaskFeather, &want.UserMaskFeather}, {&have.VectorMaskFeather, &want.VectorMaskFeather}} {
		if math.IsNaN(*p.h) && math.IsNaN(*p.w) {
			*p.h, *p.w = 0, 0
		}
	}
	if have != want {
		t.Errorf("layer %d: mask %+v, file has %+v", i, *g, want)
	}
	if g.Enabled() != (w.Flags&2 == 0) || g.RealEnabled() != (w.RFlags&2 == 0) {
		t.Errorf("layer %d: mask enabled %v/%v with flags %d/%d", i, g.Enabled(), g.RealEnabled(), w.Flags, w.RFlags)
	}
}

func reserved(k psd.AdditionalInfoKey) bool {
	switch k {
	case psd.AdditionalInfoKeyUnicodeLayerName, psd.AdditionalInfoKeyBlendClippingElements,
		psd.AdditionalInfoKeySectionDividerSetting, psd.AdditionalInfoKeySectionDividerSetting2:
		return true
	}
	return false
}

func sameInfos(t *kit.T, what string, g map[psd.AdditionalInfoKey][]byte, w []infoOut) {
	n := 0
	for k := range g {
		if !reserved(k) {
			n++
		}
	}
	if n != len(w) {
		t.Errorf("%s: %d additional information blocks, file has %d", what, n, len(w))
	}
	for _, e := range w {
		d, ok := g[psd.AdditionalInfoKey(e.Key)]
		if !ok || !bytes.Equal(d, e.Data) {
			t.Errorf("%s: block %q present %v, %d bytes %x; file has %d bytes %x", what, e.Key, ok, len(d), head(d), len(e.Data), head(e.Data))
		}
	}
}

func samePlanes(t *kit.T, i int, g *psd.Layer, w *layerOut) {
	if len(g.Channel) != len(w.Chans) {
		t.Errorf("layer %d: %d channels, file has %d", i, len(g.Channel), len(w.Chans))
	}
	for _, ch := range w.Chans {
		d, ok := g.Channel[ch.ID]
		if !ok {
			t.Errorf("layer %d: channel %d is missing", i, ch.ID)
			continue
		}
		t.Count("planes", 1)
		if !bytes.Equal(d.Data, ch.Plane) {
			t.Errorf("layer %d channel %d (compression %d, rect %v): plane is %d bytes %x, must be %d bytes %x (first difference at %d)",
				i, ch.ID, ch.Comp, ch.Rect, len(d.Data), head(d.Data), len(ch.Plane), head(ch.Plane), firstDiff(d.Data, ch.Plane))
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

func sameLayer(t *kit.T, i int, g *psd.Layer, w *layerOut, images bool) {
	seq := i
	if w.Seq != nil {
		seq = *w.Seq
	}
	if g.SeqID != seq {
		t.Errorf("layer %d: SeqID %d, must be %d", i, g.SeqID, seq)
	}
	if g.Rect != rect(w.Rect) {
		t.Errorf("layer %d: rect %v, file has %v", i, g.Rect, w.Rect)
	}
	if string(g.BlendMode) != string(w.BM) || int(g.Opacity) != w.Op || g.Clipping != w.Clip || int(g.Flags) != w.Flags {
		t.Errorf("layer %d: mode/opacity/clipping/flags %q/%d/%v/%d, file has %q/%d/%v/%d", i, g.BlendMode, g.Opacity, g.Clipping, g.Flags, w.BM, w.Op, w.Clip, w.Flags)
	}
	if g.Visible() != (w.Flags&2 == 0) || g.TransparencyProtected() != (w.Flags&1 != 0) {
		t.Errorf("layer %d: visible %v protected %v with flags %d", i, g.Visible(), g.TransparencyProtected(), w.Flags)
	}
	if g.Folder() != (w.SType == 1 || w.SType == 2) || g.FolderIsOpen() != (w.SType == 1) || g.HasImage() != (w.SType == 0) {
		t.Errorf("layer %d: reported as folder %v, open %v, with image %v; its type is %d", i, g.Folder(), g.FolderIsOpen(), g.HasImage(), w.SType)
	}
	if len(g.Layer) != len(w.Kids) {
		t.Errorf("layer %d: holds %d layers, file has %d", i, len(g.Layer), len(w.Kids))
	} else {
		for k := range w.Kids {
			sameLayer(t, k, &g.Layer[k], &w.Kids[k], images)
		}
	}
	sameMask(t, i, &g.Mask, &w.Mask)
	if g.MBCSName != string(w.MBCS) {
		t.Errorf("layer %d: legacy name %q, file has %q", i, g.MBCSName, w.MBCS)
	}
	name, uni := string(w.MBCS), ""
	if w.HasUni {
		uni = string(utf16.Decode(w.Units))
		name = uni
	}
	if g.UnicodeName != uni || g.Name != name || g.String() != name {
		t.Errorf("layer %d: names %q/%q, file has %q/%q", i, g.UnicodeName, g.Name, uni, name)
	}
	if g.BlendClippedElements != w.BCE {
		t.Errorf("layer %d: blend clipped elements %v, file has %v", i, g.BlendClippedElements, w.BCE)
	}
	sd := g.SectionDividerSetting
	if sd.Type != w.SType || string(sd.BlendMode) != string(w.SBM) || sd.SubType != w.SSub {
		t.Errorf("layer %d: section divider %+v, file has %d %q %d", i, sd, w.SType, w.SBM, w.SSub)
	}
	sameInfos(t, "layer", g.AdditionalLayerInfo, w.Infos)
	if images {
		samePlanes(t, i, g, w)
	}
}

func sameLayers(t *kit.T, p *psd.PSD, c *docCase, images bool) bool {
	if len(p.Layer) != len(c.Layers) {
		t.Errorf("%d layers, file has %d", len(p.Layer), len(c.Layers))
		return false
	}
	for i := range c.Layers {
		sameLayer(t, i, &p.Layer[i], &c.Layers[i], images)
	}
	t.Count("layers", len(c.Layers))
	return true
}

func docLayers(t *kit.T, c *docCase) {
	// "lenient": the decoder may refuse the file, but if it does not it has to read it right
	if c.Kind != "none" && c.Kind != "lenient" {
		return
	}
	for _, o := range []*psd.DecodeOptions{nil, {SkipMergedImage: true}, {SkipLayerImage: true}} {
		p, _, err := decode(t, "Decode", c.B, o)
		if err != nil {
			if c.Kind == "none" {
				t.Errorf("Decode (%s): %v", c.What, err)
			}
			return
		}
		sameLayers(t, p, c, o == nil || !o.SkipLayerImage)
		sameInfos(t, "document", p.AdditinalLayerInfo, c.Infos)
	}
}

// ---------------------------------------------------------------- C04

func docReaders(t *kit.T, c *docCase) {
	if c.Kind != "none" {
		return
	}
	zipped := c.MComp >= 2
	var ref *psd.PSD
	for i, s := range sources {
		s := s
		t.Guard("Decode ("+s.Name+")", func() {
			r, used := s.Make(c.B, t.Seed)
			cfg, n, err := psd.DecodeConfig(r)
			t.Count("decodes", 1)
			if err != nil {
				t.Errorf("DecodeConfig (%s): %v", s.Name, err)
				return
			}
			if n != c.EndRes || used() != c.EndRes {
				t.Errorf("DecodeConfig (%s): reported %d bytes, consumed %d, header and resources are %d", s.Name, n, used(), c.EndRes)
			}
			if ref != nil {
				if d := kit.Diff(cfg, ref.Config); d != "" {
					t.Errorf("DecodeConfig (%s) differs from Decode: %s", s.Name, d)
				}
			}
			if c.Focus == "config" {
				return
			}
			for skip := 0; skip < 2; skip++ {
				r, used = s.Make(c.B, t.Seed+int64(skip))
				_, n, err = psd.Decode(r, &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: skip == 1})
				t.Count("decodes", 1)
				if err != nil {
					t.Errorf("Decode without merged image (%s): %v", s.Name, err)
				} else if n != c.EndLay || used() != c.EndLay {
					t.Errorf("Decode without merged image (%s, skip layers %v): reported %d bytes, consumed %d, must be %d", s.Name, skip == 1, n, used(), c.EndLay)
				}
			}
			r, used = s.Make(c.B, t.Seed+2)
			p, n, err := psd.Decode(r, nil)
			t.Count("decodes", 1)
			if err != nil {
				t.Errorf("Decode (%s): %v", s.Name, err)
				return
			}
			if n != used() && s.Name != "bufio.Reader" {
				t.Errorf("Decode (%s): reported %d bytes, consumed %d", s.Name, n, used())
			}
			if !zipped && (n != c.EndAll || used() != c.EndAll) {
				t.Errorf("Decode (%s): reported %d bytes, consumed %d, document is %d of %d", s.Name, n, used(), c.EndAll, len(c.B))
			}
			if zipped && (n < c.EndAll-4 || n > len(c.B)) {
				t.Errorf("Decode (%s): reported %d bytes, document is %d of %d", s.Name, n, c.EndAll, len(c.B))
			}
			if i == 0 {
				ref = p
				sameConfig(t, "Decode", &p.Config, &c.Cfg)
				sameLayers(t, p, c, true)
				sameMerged(t, p, c)
			} else if ref != nil {
				if d := kit.Diff(*ref, *p); d != "" {
					t.Errorf("Decode (%s) differs from Decode (%s): %s", s.Name, sources[0].Name, d)
				}
			}
		})
	}
}

// ---------------------------------------------------------------- C05

func docReject(t *kit.T, c *docCase) {
	if c.Kind == "none" {
		// the same document undamaged must be accepted: otherwise rejecting proves nothing
		if c.Focus == "config" {
			if _, _, err := psd.DecodeConfig(bytes.NewReader(c.B)); err != nil {
				t.Errorf("undamaged header rejected: %v", err)
			}
		} else if _, _, err := decode(t, "Decode", c.B, nil); err != nil {
			t.Errorf("undamaged document rejected: %v", err)
		}
		if c.What == "a changed byte" {
			return
		}
		docUnread(t, c)
		return
	}
	if c.Kind == "lie" {
		if c.Verdict != "reject" {
			return
		}
		t.Count("refused_"+c.Stage, 1)
	} else if c.Kind != "trunc" && c.Kind != "viol" {
		return
	} else {
		t.Count("damaged_"+c.What, 1)
	}
	for _, s := range sources {
		s := s
		try := func(what string, must bool, f func(r io.Reader) error) {
			t.Guard(what+" ("+s.Name+")", func() {
				r, _ := s.Make(c.B, t.Seed)
				err := f(r)
				t.Count("decodes", 1)
				if must && err == nil {
					t.Errorf("%s (%s) accepted a document with %s at byte %d of %d (resources end %d, layers end %d, all %d)", what, s.Name, c.What, c.At, len(c.B), c.EndRes, c.EndLay, c.EndAll)
				}
				if !must && err != nil && c.Kind == "trunc" {
					t.Errorf("%s (%s) needs only the bytes before the cut at %d but failed: %v", what, s.Name, c.At, err)
				}
			})
		}
		cfgMust := c.Kind == "trunc" && c.At < c.EndRes || c.Kind == "viol" && c.At <= c.EndRes
		layMust := c.Kind == "trunc" && c.At < c.EndLay || c.Kind == "viol" && c.At <= c.EndLay
		inimg := c.InImg
		if c.Kind == "lie" {
			cfgMust, inimg = c.Stage == "cfg", c.Stage == "img"
			layMust = c.Stage != "merged"
		}
		if c.Kind == "trunc" || c.At <= c.EndRes {
			try("DecodeConfig", cfgMust, func(r io.Reader) error { _, _, err := psd.DecodeConfig(r); return err })
			try("image.DecodeConfig", cfgMust, func(r io.Reader) error { _, _, err := image.DecodeConfig(r); return err })
		}
		if c.Focus == "config" {
			continue
		}
		for skip := 0; skip < 2; skip++ {
			sl := skip == 1
			if sl && inimg {
				continue // the rule is broken inside the part that is skipped
			}
			if !c.Soft {
				try(map[bool]string{false: "Decode", true: "Decode without layer images"}[sl], true, func(r io.Reader) error {
					p, _, err := psd.Decode(r, &psd.DecodeOptions{SkipLayerImage: sl})
					if err != nil && p != nil {
						t.Errorf("Decode returned both a document and error %v", err)
					}
					return err
				})
			}
			try(map[bool]string{false: "Decode without merged image", true: "Decode without images"}[sl], layMust, func(r io.Reader) error {
				_, _, err := psd.Decode(r, &psd.DecodeOptions{SkipLayerImage: sl, SkipMergedImage: true})
				return err
			})
		}
		if !c.Soft && !inimg {
			try("image.Decode", true, func(r io.Reader) error { _, _, err := image.Decode(r); return err })
		}
	}
}

// docUnread reads an undamaged document from a reader that fails once, at a byte that is needed, and would carry on.
// The bytes up to there say what a file cut there says: the document was not read.
func docUnread(t *kit.T, c *docCase) {
	end := c.EndAll
	if c.Focus == "config" {
		end = c.EndRes
	}
	if end > len(c.B) || end <= 0 {
		return
	}
	rnd := rand.New(rand.NewSource(t.Seed))
	var at []int
	few := 400
	switch {
	case c.Focus == "odd":
		few = 12
	case !t.Quick:
		few = 4000
	}
	if end <= few {
		for n := 0; n < end; n++ {
			at = append(at, n)
		}
	} else {
		for i := 0; i < few; i++ {
			n := rnd.Intn(end)
			if i%2 == 0 && c.EndLay <= end && c.EndLay > 0 {
				n = rnd.Intn(c.EndLay)
			}
			if i%4 == 1 && c.EndRes > 0 {
				n = rnd.Intn(c.EndRes)
			}
			at = append(at, n)
		}
	}
	for _, n := range at {
		n := n
		try := func(what string, f func(r io.Reader) error) {
			t.Guard(what, func() {
				h := &hiccup{r: bytes.NewReader(c.B), at: n}
				var r io.Reader = h
				if n%3 == 1 {
					r = discarder{h}
				}
				t.Count("unread", 1)
				if err := f(r); err == nil {
					t.Errorf("%s hides that its reader failed at byte %d (resources end %d, layers end %d, all %d)", what, n, c.EndRes, c.EndLay, c.EndAll)
				}
			})
		}
		if n < c.EndRes {
			try("DecodeConfig", func(r io.Reader) error { _, _, err := psd.DecodeConfig(r); return err })
		}
		if c.Focus == "config" {
			continue
		}
		try("Decode", func(r io.Reader) error { _, _, err := psd.Decode(r, nil); return err })
		if n < c.EndLay {
			try("Decode without images", func(r io.Reader) error {
				_, _, err := psd.Decode(r, &psd.DecodeOptions{SkipLayerImage: true, SkipMergedImage: true})
				return err
			})
		}
	}
}

// ---------------------------------------------------------------- C06

// touch reads pixels of an image: corners and a sample.
func touch(t *kit.T, what string, m image.Image, rnd *rand.Rand) {
	if m == nil || reflect.ValueOf(m).IsNil() {
		return
	}
	t.Guard(what, func() {
		b := m.Bounds()
		cm := m.ColorModel()
		if b.Empty() {
			return
		}
		at := func(x, y int) {
			c := m.At(x, y)
			c.RGBA()
			if cm != nil && !nan(c) {
				cm.Convert(c)
			}
			t.Count("pixels", 1)
		}
		at(b.Min.X, b.Min.Y)
		at(b.Max.X-1, b.Max.Y-1)
		at(b.Min.X, b.Max.Y-1)
		at(b.Max.X-1, b.Min.Y)
		for i := 0; i < 12; i++ {
			at(b.Min.X+rnd.Intn(b.Dx()), b.Min.Y+rnd.Intn(b.Dy()))
		}
	})
}

func nan(c color.Color) bool { return false }

func touchLayers(t *kit.T, ls []psd.Layer, rnd *rand.Rand) {
	for i := range ls {
		l := &ls[i]
		t.Guard("layer accessors", func() {
			_, _, _, _, _, _ = l.Visible(), l.TransparencyProtected(), l.Folder(), l.FolderIsOpen(), l.HasImage(), l.String()
			_, _ = l.Mask.Enabled(), l.Mask.RealEnabled()
			_ = l.BlendMode.String()
		})
		touch(t, "layer pixel", l.Picker, rnd)
		for id, ch := range l.Channel {
			if id >= -1 || id == -2 || id == -3 {
				touch(t, "layer channel pixel", ch.Picker, rnd)
			}
		}
		touchLayers(t, l.Layer, rnd)
	}
}

// modest tells whether the declared image is small enough to allocate.
func modest(b []byte) bool {
	if len(b) < 26 {
		return true
	}
	ch := int64(binary.BigEndian.Uint16(b[12:]))
	h := int64(binary.BigEndian.Uint32(b[14:]))
	w := int64(binary.BigEndian.Uint32(b[18:]))
	d := int64(binary.BigEndian.Uint16(b[22:]))
	if ch > 56 || d > 32 || w > 300000 || h > 300000 {
		return true // must be rejected
	}
	return (w*d/8+1)*h*ch < 64<<20
}

func docNoise(t *kit.T, c *docCase) {
	rnd := rand.New(rand.NewSource(t.Seed))
	ok := modest(c.B)
	s := sources[rnd.Intn(len(sources))]
	t.Guard("DecodeConfig", func() {
		r, _ := s.Make(c.B, t.Seed)
		cfg, n, err := psd.DecodeConfig(r)
		t.Count("decodes", 1)
		if n < 0 || n > len(c.B) {
			t.Errorf("DecodeConfig reported %d bytes of %d", n, len(c.B))
		}
		if err != nil {
			t.Count("rejected", 1)
			return
		}
		cfg.Palette()
		cfg.PSB()
	})
	t.Guard("image.DecodeConfig", func() {
		ic, _, err := image.DecodeConfig(bytes.NewReader(c.B))
		if err == nil && ic.ColorModel != nil {
			for _, cl := range []color.Color{color.NRGBA{1, 2, 3, 0}, color.NRGBA{200, 100, 0, 255}, color.Gray{9}, color.NRGBA{255, 255, 255, 1}} {
				if p, isPal := ic.ColorModel.(color.Palette); isPal && len(p) == 0 {
					continue
				}
				ic.ColorModel.Convert(cl)
			}
		}
	})
	for o := 0; o < 4; o++ {
		opt := &psd.DecodeOptions{SkipLayerImage: o&1 != 0, SkipMergedImage: o&2 != 0 || !ok}
		src := sources[rnd.Intn(len(sources))]
		t.Guard("Decode ("+src.Name+")", func() {
			r, _ := src.Make(c.B, t.Seed+int64(o))
			p, n, err := psd.Decode(r, opt)
			t.Count("decodes", 1)
			if err != nil {
				t.Count("rejected", 1)
				return
			}
			t.Count("accepted", 1)
			if n < 0 || n > len(c.B) {
				t.Errorf("Decode reported %d bytes of %d", n, len(c.B))
			}
			p.Config.Palette()
			touch(t, "merged pixel", p.Picker, rnd)
			for _, ch := range p.Channel {
				touch(t, "merged channel pixel", ch.Picker, rnd)
			}
			touchLayers(t, p.Layer, rnd)
		})
	}
	if ok {
		t.Guard("image.Decode", func() {
			m, _, err := image.Decode(bytes.NewReader(c.B))
			if err == nil {
				touch(t, "image.Decode pixel", m, rnd)
			}
		})
	}
}

// ---------------------------------------------------------------- C07

func sameMerged(t *kit.T, p *psd.PSD, c *docCase) {
	if len(p.Channel) != len(c.Merged) {
		t.Errorf("merged image has %d channels, file has %d", len(p.Channel), len(c.Merged))
		return
	}
	var all []byte
	for i, w := range c.Merged {
		all = append(all, w...)
		g := p.Channel[i].Data
		t.Count("planes", 1)
		if !bytes.Equal(g, w) {
			t.Errorf("merged channel %d (compression %d, depth %d): %d bytes %x, must be %d bytes %x (first difference at %d)", i, c.MComp, c.Cfg.Depth, len(g), head(g), len(w), head(w), firstDiff(g, w))
		}
	}
	if !bytes.Equal(p.Data, all) {
		t.Errorf("merged data differs from its channels")
	}
}

func docPlanes(t *kit.T, c *docCase) {
	if c.Kind != "none" {
		return
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for _, n := range []int{1, 2, 3, 5, 8} {
		runtime.GOMAXPROCS(n)
		p, _, err := decode(t, "Decode", c.B, nil)
		t.Count("decodes", 1)
		if err != nil {
			t.Errorf("Decode with %d CPUs: %v", n, err)
			return
		}
		if len(p.Layer) != len(c.Layers) {
			t.Errorf("%d layers, file has %d", len(p.Layer), len(c.Layers))
			return
		}
		for i := range c.Layers {
			samePlanes(t, i, &p.Layer[i], &c.Layers[i])
		}
		sameMerged(t, p, c)
	}
}

// ---------------------------------------------------------------- C09

func be16(b []byte) uint16   { return binary.BigEndian.Uint16(b) }
func be32f(b []byte) float32 { return math.Float32frombits(binary.BigEndian.Uint32(b)) }

func wantColor(model string, p []kit.Bytes) color.Color {
	switch model {
	case "NRGBA", "Palette":
		return color.NRGBA{p[0][0], p[1][0], p[2][0], p[3][0]}
	case "NRGBA64":
		return color.NRGBA64{be16(p[0]), be16(p[1]), be16(p[2]), be16(p[3])}
	case "NRGBA128":
		return psdColor.NRGBA128{R: be32f(p[0]), G: be32f(p[1]), B: be32f(p[2]), A: be32f(p[3])}
	case "NGrayA":
		return psdColor.NGrayA{Y: p[0][0], A: p[1][0]}
	case "NGrayA32":
		return psdColor.NGrayA32{Y: be16(p[0]), A: be16(p[1])}
	case "NGrayA64":
		return psdColor.NGrayA64{Y: be32f(p[0]), A: be32f(p[1])}
	case "NCMYKA":
		return psdColor.NCMYKA{C: p[0][0], M: p[1][0], Y: p[2][0], K: p[3][0], A: p[4][0]}
	case "NCMYKA80":
		return psdColor.NCMYKA80{C: be16(p[0]), M: be16(p[1]), Y: be16(p[2]), K: be16(p[3]), A: be16(p[4])}
	case "Gray1":
		return psdColor.Gray1{Y: p[0][0] == 1}
	}
	panic("model " + model)
}

func wantModel(model string) color.Model {
	switch model {
	case "NRGBA":
		return color.NRGBAModel
	case "NRGBA64":
		return color.NRGBA64Model
	case "NRGBA128":
		return psdColor.NRGBA128Model
	case "NGrayA":
		return psdColor.NGrayAModel
	case "NGrayA32":
		return psdColor.NGrayA32Model
	case "NGrayA64":
		return psdColor.NGrayA64Model
	case "NCMYKA":
		return psdColor.NCMYKAModel
	case "NCMYKA80":
		return psdColor.NCMYKA80Model
	case "Gray1":
		return psdColor.Gray1Model
	}
	return nil
}

// sameColor compares bit by bit, so that NaN samples compare equal to themselves.
func sameColor(a, b color.Color) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < va.NumField(); i++ {
		x, y := va.Field(i), vb.Field(i)
		if x.Kind() == reflect.Float32 {
			if math.Float32bits(float32(x.Float())) != math.Float32bits(float32(y.Float())) {
				// NaN payloads need not survive a load
				if x.Float() == x.Float() || y.Float() == y.Float() {
					return false
				}
			}
			continue
		}
		if x.Interface() != y.Interface() {
			return false
		}
	}
	return true
}

func checkImage(t *kit.T, what string, m image.Image, b image.Rectangle, model string, pix [][]kit.Bytes) {
	if m == nil || reflect.ValueOf(m).IsNil() {
		t.Errorf("%s: no image", what)
		return
	}
	if m.Bounds() != b {
		t.Errorf("%s: bounds %v, must be %v", what, m.Bounds(), b)
		return
	}
	cm := m.ColorModel()
	if w := wantModel(model); w != nil && cm != w {
		t.Errorf("%s: color model %T %v, must be %s", what, cm, cm, model)
	}
	if b.Empty() || len(pix) == 0 {
		return
	}
	i := 0
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			w := wantColor(model, pix[i])
			i++
			t.Count("pixels", 1)
			g := m.At(x, y)
			if !sameColor(g, w) {
				t.Errorf("%s: pixel (%d,%d) is %T%v, must be %T%v", what, x, y, g, g, w, w)
				return
			}
			if model != "Palette" {
				if cv := cm.Convert(g); !sameColor(cv, g) {
					t.Errorf("%s: pixel %T%v does not belong to the image's color model (converts to %T%v)", what, g, g, cv, cv)
					return
				}
			}
		}
	}
}

func checkPlaneImage(t *kit.T, what string, m image.Image, b image.Rectangle, depth int, plane []byte) {
	if m == nil || reflect.ValueOf(m).IsNil() {
		t.Errorf("%s: no image", what)
		return
	}
	if m.Bounds() != b {
		t.Errorf("%s: bounds %v, must be %v", what, m.Bounds(), b)
		return
	}
	rb := (b.Dx()*depth + 7) / 8
	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ {
			var w color.Color
			row := plane[y*rb:]
			switch depth {
			case 1:
				w = psdColor.Gray1{Y: row[x/8]>>(7-uint(x%8))&1 == 0}
			case 8:
				w = color.Gray{Y: row[x]}
			case 16:
				w = color.Gray16{Y: be16(row[2*x:])}
			default:
				w = psdColor.Gray32{Y: be32f(row[4*x:])}
			}
			if g := m.At(b.Min.X+x, b.Min.Y+y); !sameColor(g, w) {
				t.Errorf("%s: pixel (%d,%d) is %T%v, must be %T%v", what, b.Min.X+x, b.Min.Y+y, g, g, w, w)
				return
			}
			t.Count("pixels", 1)
		}
	}
	if !b.Empty() {
		g := m.At(b.Min.X, b.Min.Y)
		if cv := m.ColorModel().Convert(g); !sameColor(cv, g) {
			t.Errorf("%s: pixel %T%v does not belong to the image's color model (converts to %T%v)", what, g, g, cv, cv)
		}
	}
}

func docPixels(t *kit.T, c *docCase) {
	if c.Kind != "none" {
		return
	}
	cfg, _, err := psd.DecodeConfig(bytes.NewReader(c.B))
	if err != nil {
		t.Errorf("DecodeConfig: %v", err)
		return
	}
	if n, ok := map[int]int{0: 1, 1: 1, 2: 1, 3: 3, 4: 4}[c.Cfg.Mode]; ok && cfg.ColorMode.Channels() != n {
		t.Errorf("color mode %d has %d channels, must be %d", c.Cfg.Mode, cfg.ColorMode.Channels(), n)
	}
	t.Guard("Palette", func() {
		pal := cfg.Palette()
		if c.Cfg.Mode != 2 {
			if pal != nil {
				t.Errorf("palette of %d entries for color mode %d", len(pal), c.Cfg.Mode)
			}
			return
		}
		if len(pal) != len(c.Cfg.Cmd)/3 {
			t.Errorf("palette of %d entries from %d bytes", len(pal), len(c.Cfg.Cmd))
			return
		}
		for i, g := range pal {
			w := color.NRGBA{c.Cfg.Cmd[i], c.Cfg.Cmd[i+256], c.Cfg.Cmd[i+512], 255}
			if i == c.Cfg.Trans {
				w.A = 0
			}
			if g != w {
				t.Errorf("palette entry %d is %v, must be %v", i, g, w)
				return
			}
		}
	})
	if c.Focus == "config" {
		return
	}
	p, _, err := decode(t, "Decode", c.B, nil)
	if err != nil {
		t.Errorf("Decode: %v", err)
		return
	}
	full := image.Rect(0, 0, c.Cfg.W, c.Cfg.H)
	t.Guard("merged image", func() { checkImage(t, "merged image", p.Picker, full, c.Cfg.Model, c.MPix) })
	t.Guard("image.Decode", func() {
		m, _, err := image.Decode(bytes.NewReader(c.B))
		if err != nil {
			t.Errorf("image.Decode: %v", err)
			return
		}
		checkImage(t, "image.Decode", m, full, c.Cfg.Model, c.MPix)
	})
	for i := range c.Merged {
		i := i
		t.Guard("merged channel", func() {
			checkPlaneImage(t, "merged channel", p.Channel[i].Picker, full, c.Cfg.Depth, c.Merged[i])
		})
	}
	if len(p.Layer) != len(c.Layers) {
		t.Errorf("%d layers, file has %d", len(p.Layer), len(c.Layers))
		return
	}
	for i := range c.Layers {
		l, w := &p.Layer[i], &c.Layers[i]
		if c.Focus == "odd" && len(w.Pix) == 0 {
			continue // not all of its color channels are there, or it is a group
		}
		if a := rect(w.Rect).Dx() * rect(w.Rect).Dy(); len(w.Pix) > 0 || a == 0 || a > 5000 {
			t.Guard("layer image", func() { checkImage(t, "layer image", l.Picker, rect(w.Rect), w.Model, w.Pix) })
		} // otherwise not all of its color channels are there
		for _, ch := range w.Chans {
			ch := ch
			t.Guard("layer channel", func() {
				checkPlaneImage(t, "layer channel", l.Channel[ch.ID].Picker, rect(ch.Rect), c.Cfg.Depth, ch.Plane)
			})
		}
	}
}

// ---------------------------------------------------------------- C10

func dropImages(ls []psd.Layer) []psd.Layer {
	r := append([]psd.Layer{}, ls...)
	for i := range r {
		r[i].Channel, r[i].Picker = nil, nil
		r[i].Layer = dropImages(r[i].Layer)
	}
	return r
}

var errStop = errors.New("stop here")

func docOptions(t *kit.T, c *docCase) {
	if c.Kind != "none" || c.Focus == "odd" && c.What == "divider" {
		return // the callbacks' layers are compared one by one with a flat list
	}
	cfg, _, err := psd.DecodeConfig(bytes.NewReader(c.B))
	if err != nil {
		t.Errorf("DecodeConfig: %v", err)
		return
	}
	wantFmt := map[int]string{1: "psd", 2: "psb"}[c.Cfg.Version]
	t.Guard("image.DecodeConfig", func() {
		ic, f, err := image.DecodeConfig(bytes.NewReader(c.B))
		if err != nil {
			t.Errorf("image.DecodeConfig: %v", err)
			return
		}
		if f != wantFmt || ic.Width != c.Cfg.W || ic.Height != c.Cfg.H {
			t.Errorf("image.DecodeConfig: %s %dx%d, file is %s %dx%d", f, ic.Width, ic.Height, wantFmt, c.Cfg.W, c.Cfg.H)
		}
		if w := wantModel(c.Cfg.Model); w != nil && ic.ColorModel != w {
			t.Errorf("image.DecodeConfig: color model is not %s", c.Cfg.Model)
		}
		if c.Cfg.Model == "Palette" {
			if pal, ok := ic.ColorModel.(color.Palette); !ok || !reflect.DeepEqual(pal, cfg.Palette()) {
				t.Errorf("image.DecodeConfig: color model is not the document's palette")
			}
		}
	})
	if c.Focus == "config" {
		return
	}
	full, nfull, err := decode(t, "Decode", c.B, nil)
	if err != nil {
		t.Errorf("Decode: %v", err)
		return
	}
	if d := kit.Diff(full.Config, cfg); d != "" {
		t.Errorf("DecodeConfig and Decode report different configurations: %s", d)
	}
	t.Guard("image.Decode", func() {
		m, f, err := image.Decode(bytes.NewReader(c.B))
		if err != nil {
			t.Errorf("image.Decode: %v", err)
			return
		}
		if d := kit.SameImage(m, full.Picker); f != wantFmt || d != "" {
			t.Errorf("image.Decode (%s) differs from the merged image of Decode: %s", f, d)
		}
	})
	for o := 0; o < 16; o++ {
		skipL, skipM, stop, cb := o&1 != 0, o&2 != 0, o&4 != 0, o&8 != 0
		var order []string
		calls := 0
		var seen []psd.Layer
		src := sources[(o+t.Index)%len(sources)]
		r, used := src.Make(c.B, t.Seed)
		opt := &psd.DecodeOptions{SkipLayerImage: skipL, SkipMergedImage: skipM}
		if cb || stop {
			opt.ConfigLoaded = func(g psd.Config) error {
				calls++
				order = append(order, "config")
				if d := kit.Diff(g, full.Config); d != "" {
					t.Errorf("ConfigLoaded received another configuration: %s", d)
				}
				if n := used(); n != c.EndRes {
					t.Errorf("ConfigLoaded called after %d bytes were consumed, resources end at %d", n, c.EndRes)
				}
				if stop {
					return errStop
				}
				return nil
			}
		}
		if cb {
			opt.LayerImageLoaded = func(l *psd.Layer, index, total int) {
				order = append(order, "layer")
				if calls != 1 {
					t.Errorf("LayerImageLoaded before ConfigLoaded")
				}
				if index != len(seen) || total != len(c.Layers) || l.SeqID != index {
					t.Errorf("LayerImageLoaded(layer %d, %d, %d), expected index %d of %d", l.SeqID, index, total, len(seen), len(c.Layers))
				}
				if index < len(c.Layers) {
					sameLayer(t, index, l, &c.Layers[index], true)
				}
				seen = append(seen, *l)
			}
		}
		var p *psd.PSD
		var n int
		err := errors.New("panicked")
		t.Guard("Decode with options", func() { p, n, err = psd.Decode(r, opt) })
		t.Count("decodes", 1)
		if stop {
			if !errors.Is(err, errStop) || p != nil || calls != 1 || len(seen) != 0 {
				t.Errorf("ConfigLoaded's error: Decode returned (%v, %v) after %d/%d callbacks", p != nil, err, calls, len(seen))
			}
			continue
		}
		if err != nil {
			t.Errorf("Decode (skip layers %v, merged %v): %v", skipL, skipM, err)
			continue
		}
		if cb {
			want := len(c.Layers)
			if skipL {
				want = 0
			}
			if calls != 1 || len(seen) != want || order[0] != "config" {
				t.Errorf("callbacks: %d configuration, %d layers, order %v; document has %d layers, skipped %v", calls, len(seen), order, len(c.Layers), skipL)
			}
		}
		wantN := nfull
		if skipM {
			wantN = c.EndLay
		}
		if n != wantN && (skipM || c.MComp < 2) {
			t.Errorf("Decode (skip layers %v, merged %v) reported %d bytes, must be %d", skipL, skipM, n, wantN)
		}
		ref := *full
		if skipM {
			if p.Data != nil || p.Picker != nil || p.Channel != nil {
				t.Errorf("Decode without merged image returned one")
			}
			ref.Data, ref.Picker, ref.Channel = nil, nil, nil
		}
		got := *p
		if skipL {
			for i := range p.Layer {
				if p.Layer[i].Picker != nil || len(p.Layer[i].Channel) != 0 {
					t.Errorf("Decode without layer images returned an image for layer %d", i)
				}
			}
			ref.Layer, got.Layer = dropImages(ref.Layer), dropImages(got.Layer)
		}
		if d := kit.Diff(ref, got); d != "" {
			t.Errorf("Decode (skip layers %v, merged %v) differs from a full decode: %s", skipL, skipM, d)
		}
	}
}

// ---------------------------------------------------------------- C23

func docExport(t *kit.T, c *docCase) {
	if c.Kind != "none" || c.Cfg.Mode != 1 && c.Cfg.Mode != 3 && c.Cfg.Mode != 4 {
		return
	}
	var want []kit.Exported
	for i := range c.Layers {
		l := &c.Layers[i]
		r := rect(l.Rect)
		if l.SType != 0 || r.Empty() || len(l.Pix) == 0 {
			if r.Dx()*r.Dy() > 5000 {
				return // the specification does not spell out so many pixels
			}
			continue
		}
		want = append(want, kit.Exported{Path: []int{i}, W: r.Dx(), H: r.Dy(), At: func(x, y int) color.Color {
			return wantColor(l.Model, l.Pix[y*r.Dx()+x])
		}})
	}
	kit.Export(t, c.B, want)
}
