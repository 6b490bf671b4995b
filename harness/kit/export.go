package kit

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Exported is what psdexporter must write for one layer: the positions that
// lead to it and its pixels.
type Exported struct {
	Path []int
	W, H int
	At   func(x, y int) color.Color
}

// Name is the name of the file.
func (e *Exported) Name() string {
	var s []string
	for _, p := range e.Path {
		s = append(s, fmt.Sprintf("%03d", p))
	}
	return strings.Join(s, "_") + ".png"
}

// Export runs psdexporter over a file, as an unprivileged user in a directory
// of its own, and compares what it leaves there.
func Export(t *T, file []byte, want []Exported) {
	exe := os.Getenv("PSD_EXPORTER")
	harness := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(98)
		}
	}
	top, err := ioutil.TempDir("", "psdexport-")
	harness(err)
	defer os.RemoveAll(top)
	harness(os.Chmod(top, 0711))
	in, dir := filepath.Join(top, "in.psd"), filepath.Join(top, "out")
	harness(ioutil.WriteFile(in, file, 0644))
	harness(os.Mkdir(dir, 0700))
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, in)
	cmd.Dir = dir
	if os.Getuid() == 0 {
		harness(os.Chown(dir, 65534, 65534))
		asNobody(cmd)
	}
	var msg bytes.Buffer
	cmd.Stderr = &msg
	err = cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		harness(err)
	}
	if err != nil {
		t.Errorf("psdexporter failed (%v): %s", err, Short(msg.String()))
	}
	t.Count("exports", 1)
	left := map[string]bool{}
	harness(filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && p != in {
			rel, _ := filepath.Rel(dir, p)
			left[rel] = true
		}
		return nil
	}))
	for i := range want {
		w := &want[i]
		if !left[w.Name()] {
			t.Errorf("psdexporter did not write %s", w.Name())
			continue
		}
		delete(left, w.Name())
		b, err := ioutil.ReadFile(filepath.Join(dir, w.Name()))
		harness(err)
		m, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			t.Errorf("psdexporter: %s is no image: %v", w.Name(), err)
			continue
		}
		t.Count("images", 1)
		if m.Bounds() != image.Rect(0, 0, w.W, w.H) {
			t.Errorf("psdexporter: %s is %v, the layer is %dx%d", w.Name(), m.Bounds(), w.W, w.H)
			continue
		}
		bad := false
		for y := 0; y < w.H && !bad; y++ {
			for x := 0; x < w.W && !bad; x++ {
				g, e := nrgba(m.At(x, y)), nrgba(w.At(x, y))
				t.Count("pixels", 1)
				if g != e && (g.A != 0 || e.A != 0) && !(g.A == e.A && near(g.R, e.R) && near(g.G, e.G) && near(g.B, e.B)) {
					t.Errorf("psdexporter: pixel (%d,%d) of %s is %v, the layer has %v", x, y, w.Name(), g, e)
					bad = true
				}
			}
		}
	}
	for n := range left {
		t.Errorf("psdexporter wrote %q, which is no layer with pixels", n)
	}
}

func near(a, b uint8) bool { return a == b || a+1 == b || b+1 == a }

func nrgba(c color.Color) color.NRGBA { return color.NRGBAModel.Convert(c).(color.NRGBA) }

// Short is the first part of a message.
func Short(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
