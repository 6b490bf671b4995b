// Package js stands in for GopherJS: it carries out the calls that package psd makes into
// compress.inc.js, by handing them to a JavaScript engine running that file.  Byte slices
// arrive there as Uint8Array (a slice of a larger array as a view with an offset) and what
// the script writes into them is copied back, as if the memory were shared.
package js

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
)

// Object is a JavaScript value.
type Object struct {
	name string
	v    interface{}
}

// Global is the global object.
var Global = &Object{}

var (
	mu  sync.Mutex
	in  *bufio.Writer
	out *bufio.Reader
)

func fail(err error) {
	fmt.Fprintln(os.Stderr, "HARNESS the JavaScript engine failed:", err)
	os.Exit(98)
}

func start() {
	c := exec.Command("node", os.Getenv("PSD_JS_RUNNER"), os.Getenv("PSD_JS_FILE"))
	c.Stderr = os.Stderr
	w, err := c.StdinPipe()
	if err != nil {
		fail(err)
	}
	r, err := c.StdoutPipe()
	if err != nil {
		fail(err)
	}
	if err = c.Start(); err != nil {
		fail(err)
	}
	in, out = bufio.NewWriter(w), bufio.NewReader(r)
}

// Get returns a property.
func (o *Object) Get(key string) *Object {
	return &Object{name: key}
}

func u32(n int) {
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], uint32(n))
	in.Write(b[:])
}

func str(s string) {
	u32(len(s))
	in.WriteString(s)
}

func get32() int {
	var b [4]byte
	if _, err := io.ReadFull(out, b[:]); err != nil {
		fail(err)
	}
	return int(binary.LittleEndian.Uint32(b[:]))
}

// Call calls a method.
func (o *Object) Call(name string, args ...interface{}) *Object {
	mu.Lock()
	defer mu.Unlock()
	if in == nil {
		start()
	}
	str(o.name)
	str(name)
	u32(len(args))
	for _, a := range args {
		switch v := a.(type) {
		case []byte:
			in.WriteByte('b')
			str(string(v))
		case []uint:
			in.WriteByte('u')
			u32(len(v))
			for _, n := range v {
				u32(int(n))
			}
		case int:
			in.WriteByte('i')
			u32(v)
		case uint:
			in.WriteByte('i')
			u32(int(v))
		case bool:
			in.WriteByte('t')
			if v {
				u32(1)
			} else {
				u32(0)
			}
		default:
			fail(fmt.Errorf("argument of type %T", a))
		}
	}
	if err := in.Flush(); err != nil {
		fail(err)
	}
	for _, a := range args { // what the script left in the byte slices
		if v, ok := a.([]byte); ok {
			if _, err := io.ReadFull(out, v); err != nil {
				fail(err)
			}
		}
	}
	r := &Object{}
	kind, err := out.ReadByte()
	if err != nil {
		fail(err)
	}
	n := get32()
	switch kind {
	case 't':
		r.v = n != 0
	case 'i':
		r.v = int(int32(n))
	case 'n':
		r = Undefined
	case 'u':
		l := make([]uint, n)
		for i := range l {
			l[i] = uint(get32())
		}
		r.v = l
	case 'e': // a JavaScript exception arrives as a panic
		b := make([]byte, n)
		if _, err := io.ReadFull(out, b); err != nil {
			fail(err)
		}
		panic("JavaScript error: " + string(b))
	default:
		fail(fmt.Errorf("answer of kind %q", kind))
	}
	return r
}

// Interface returns the value as a Go value.
func (o *Object) Interface() interface{} { return o.v }

// Bool returns the value as a truth value.
func (o *Object) Bool() bool { b, _ := o.v.(bool); return b }

// Int returns the value as a number.
func (o *Object) Int() int { n, _ := o.v.(int); return n }

// Length returns the length of an array.
func (o *Object) Length() int { l, _ := o.v.([]uint); return len(l) }

// Index returns an element of an array.
func (o *Object) Index(i int) *Object {
	l, _ := o.v.([]uint)
	if i < 0 || i >= len(l) {
		return Undefined
	}
	return &Object{v: int(l[i])}
}

// Undefined is the value of what does not exist.
var Undefined = &Object{}
