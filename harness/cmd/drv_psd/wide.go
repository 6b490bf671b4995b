package main

import (
	"bytes"
	"compress/zlib"
	"encoding/json"
	"errors"
	"image"
	"runtime"

	"github.com/oov/psd"

	"verif/harness/kit"
)

// wideCase is a behaviour of spec/WideRows.tla: rows as progressions of samples.
type wideCase struct {
	Wide struct {
		Comp, Depth, W, H, Ch int
		Large                 bool
		Form                  string
		Shift                 int
	}
	Unit, RL, Lines int
	Cls             []int
	Rows            [][][3]int
	Packets         [][]packet
	Diffs           [][][3]int
	Ent             []kit.Bytes
	Read            []struct {
		OK  bool
		Out [][3]int
	}
	Len       int
	Pre, Post kit.Bytes
}

type packet struct {
	kind       string
	v, d, k, m int
}

func (p *packet) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&p.kind, &p.v, &p.d, &p.k, &p.m})
}

// samples writes the progressions, add to every sample, and zeros up to n samples.
func (c *wideCase) samples(ps [][3]int, add, n int) []byte {
	out := make([]byte, 0, n*c.Unit)
	for _, p := range ps {
		for i, v := 0, p[0]+add; i < p[2]; i, v = i+1, v+p[1] {
			if c.Unit == 2 {
				out = append(out, byte(v>>8))
			}
			out = append(out, byte(v))
		}
	}
	return append(out, make([]byte, n*c.Unit-len(out))...)
}

func (c *wideCase) pack(ps []packet, add int) []byte {
	var out []byte
	for _, p := range ps {
		v := p.v + add
		switch p.kind {
		case "nop":
			out = append(out, bytes.Repeat([]byte{0x80}, p.m)...)
		case "run":
			for i := 0; i < p.m; i++ {
				out = append(out, byte(257-p.k), byte(v))
			}
		case "lit":
			for i := 0; i < p.m; i++ {
				out = append(out, byte(p.k-1))
				for j := 0; j < p.k; j++ {
					out = append(out, byte(v))
					v += p.d
				}
			}
		case "cutrun":
			out = append(out, byte(257-p.k))
		case "cutlit":
			out = append(out, byte(p.k-1))
			for j := 0; j < p.m; j++ {
				out = append(out, byte(v))
				v += p.d
			}
		}
	}
	return out
}

// payload builds what the file stores and what must come out of it; ok is false if it has to be refused.
func (c *wideCase) payload() (in, want []byte, ok bool) {
	g := c.Wide
	ok = true
	var table, data bytes.Buffer
	for y, k := range c.Cls {
		add := y * g.Shift
		row := c.samples(c.Read[k-1].Out, add, c.RL)
		ok = ok && c.Read[k-1].OK
		switch g.Comp {
		case 0, 2:
			data.Write(row)
		case 1:
			table.Write(c.Ent[k-1])
			data.Write(c.pack(c.Packets[k-1], add))
		case 3:
			ds := append([][3]int{}, c.Diffs[k-1]...)
			ds[0][0] += add
			for _, d := range ds {
				data.Write(c.samples([][3]int{{d[0], 0, d[2]}}, 0, d[2]))
			}
			if g.Depth == 32 {
				r := make([]byte, len(row))
				for j := 0; j < g.W; j++ {
					for b := 0; b < 4; b++ {
						r[j*4+b] = row[b*g.W+j]
					}
				}
				row = r
			}
		}
		want = append(want, row...)
	}
	if g.Comp < 2 {
		return append(table.Bytes(), data.Bytes()...), want, ok
	}
	var z bytes.Buffer
	w, _ := zlib.NewWriterLevel(&z, 1+len(c.Cls)%9)
	w.Write(data.Bytes())
	w.Close()
	return z.Bytes(), want, ok
}

func runWide(t *kit.T, c *wideCase) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	g := c.Wide
	in, want, ok := c.payload()
	if g.Comp < 2 && len(in) != c.Len {
		panic("harness: payload length")
	}
	cpus := []int{1, 2, 3, 5, 8, 16}
	for k, n := range cpus {
		if g.Form != "call" && k%3 != t.Index%3 {
			continue
		}
		runtime.GOMAXPROCS(n)
		src := sources[(t.Index+k)%len(sources)]
		if src.Name == "one byte per read" && len(in) > 200000 {
			src = sources[0]
		}
		t.Count("decodes", 1)
		switch g.Form {
		case "call":
			dest := make([]byte, len(want))
			rd, used := src.Make(in, t.Seed)
			err := errors.New("panicked")
			read := 0
			t.Guard("Decode", func() {
				read, err = psd.CompressionMethod(g.Comp).Decode(dest, rd, int64(len(in)), image.Rect(-1, 3, g.W-1, 3+g.H), g.Depth, g.Ch, g.Large)
			})
			if (err == nil) != ok {
				t.Errorf("method %d depth %d %dx%dx%d large %v with %d CPUs (%s): error %v, must succeed: %v", g.Comp, g.Depth, g.W, g.H, g.Ch, g.Large, n, src.Name, err, ok)
				return
			}
			if err != nil {
				t.Count("rejected", 1)
				continue
			}
			if d := firstDiff(dest, want); t.Prop != "C04" && !bytes.Equal(dest, want) {
				t.Errorf("method %d depth %d %dx%dx%d large %v with %d CPUs: byte %d (row %d) is %d, must be %d", g.Comp, g.Depth, g.W, g.H, g.Ch, g.Large, n, d, d/(len(want)/c.Lines), dest[d], want[d])
				return
			}
			if t.Prop == "C04" && g.Comp < 2 && (read != len(in) || used() != len(in)) {
				t.Errorf("method %d: reported %d bytes, consumed %d, payload is %d", g.Comp, read, used(), len(in))
			}
		default:
			file := append(append(append([]byte{}, c.Pre...), in...), c.Post...)
			rd, used := src.Make(file, t.Seed)
			var p *psd.PSD
			err := errors.New("panicked")
			read := 0
			t.Guard("Decode", func() { p, read, err = psd.Decode(rd, nil) })
			if err != nil {
				t.Errorf("Decode (%s, %s): %v", g.Form, src.Name, err)
				return
			}
			if t.Prop != "C04" {
			} else if read != used() && src.Name != "bufio.Reader" || g.Comp < 2 && read != len(file) {
				t.Errorf("Decode (%s, %s): reported %d bytes, consumed %d, the file has %d", g.Form, src.Name, read, used(), len(file))
			}
			var got []byte
			if g.Form == "merged" {
				got = p.Data
			} else if len(p.Layer) != 1 {
				t.Errorf("%d layers, the file has 1", len(p.Layer))
				return
			} else {
				got = p.Layer[0].Channel[0].Data
			}
			if d := firstDiff(got, want); t.Prop != "C04" && !bytes.Equal(got, want) {
				t.Errorf("Decode (%s) method %d depth %d %dx%dx%d large %v: plane byte %d of %d differs (%d bytes)", g.Form, g.Comp, g.Depth, g.W, g.H, g.Ch, g.Large, d, len(want), len(got))
			}
		}
	}
}
