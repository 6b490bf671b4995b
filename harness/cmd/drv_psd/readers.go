package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"math/rand"
)

// A source is one way of handing the same bytes to the library.
type source struct {
	Name string
	// Exact says that what is consumed from the source can be measured exactly.
	Make func(b []byte, seed int64) (r io.Reader, consumed func() int)
}

type plain struct{ r *bytes.Reader }

func (p plain) Read(b []byte) (int, error) { return p.r.Read(b) }

type oneByte struct{ r *bytes.Reader }

func (p oneByte) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	return p.r.Read(b[:1])
}

type chunky struct {
	r     *bytes.Reader
	rnd   *rand.Rand
	zeros bool
}

func (p chunky) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.zeros && p.rnd.Intn(4) == 0 {
		return 0, nil
	}
	n := 1 + p.rnd.Intn(len(b))
	if p.rnd.Intn(3) == 0 && n > 3 {
		n = 1 + p.rnd.Intn(3)
	}
	return p.r.Read(b[:n])
}

// eofWithData reports io.EOF together with the last byte, as io.Reader allows.
type eofWithData struct{ r *bytes.Reader }

func (p eofWithData) Read(b []byte) (int, error) {
	n, err := p.r.Read(b)
	if err == nil && p.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

// seekOnly is a short-reading reader that can seek.
type seekOnly struct {
	r   *bytes.Reader
	rnd *rand.Rand
}

func (p seekOnly) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	return p.r.Read(b[:1+p.rnd.Intn(len(b))])
}
func (p seekOnly) Seek(o int64, w int) (int64, error) { return p.r.Seek(o, w) }

// pipe looks seekable, as an *os.File does, but cannot seek.
type pipe struct{ plain }

func (p pipe) Seek(int64, int) (int64, error) { return 0, errors.New("seek: illegal seek") }

func left(r *bytes.Reader, n int) func() int { return func() int { return n - r.Len() } }

var sources = []source{
	{"bytes.Reader", func(b []byte, _ int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return r, left(r, len(b))
	}},
	{"one byte per read", func(b []byte, _ int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return oneByte{r}, left(r, len(b))
	}},
	{"not seekable", func(b []byte, _ int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return plain{r}, left(r, len(b))
	}},
	{"random short reads", func(b []byte, s int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return chunky{r, rand.New(rand.NewSource(s)), false}, left(r, len(b))
	}},
	{"short and empty reads", func(b []byte, s int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return chunky{r, rand.New(rand.NewSource(s)), true}, left(r, len(b))
	}},
	{"EOF with last data", func(b []byte, _ int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return eofWithData{r}, left(r, len(b))
	}},
	{"seekable short reads", func(b []byte, s int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return seekOnly{r, rand.New(rand.NewSource(s))}, left(r, len(b))
	}},
	{"bufio.Reader", func(b []byte, _ int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		br := bufio.NewReaderSize(plain{r}, 16)
		return br, func() int { return len(b) - r.Len() - br.Buffered() }
	}},
	{"pipe", func(b []byte, _ int64) (io.Reader, func() int) {
		r := bytes.NewReader(b)
		return pipe{plain{r}}, left(r, len(b))
	}},
	{"io.SectionReader", func(b []byte, _ int64) (io.Reader, func() int) {
		// the document sits in the middle of a larger file
		big := append(append([]byte("prefix!"), b...), "8BPSsuffix"...)
		r := io.NewSectionReader(bytes.NewReader(big), 7, int64(len(b)))
		return r, func() int {
			p, _ := r.Seek(0, 1)
			return int(p)
		}
	}},
}

// hiccup fails once, before byte at, and carries on when it is read again.
type hiccup struct {
	r    *bytes.Reader
	at   int
	done bool
}

var errHiccup = errors.New("reading failed")

func (h *hiccup) Read(b []byte) (int, error) {
	if left := h.at - int(h.r.Size()) + h.r.Len(); !h.done {
		if left == 0 && len(b) > 0 {
			h.done = true
			return 0, errHiccup
		}
		if len(b) > left {
			b = b[:left]
		}
	}
	return h.r.Read(b)
}

// discarder can skip, as bufio.Reader does.
type discarder struct{ *hiccup }

func (d discarder) Discard(n int) (int, error) {
	m, err := io.CopyN(io.Discard, d.hiccup, int64(n))
	return int(m), err
}
