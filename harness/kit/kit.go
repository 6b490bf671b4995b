// Package kit runs a file of behaviours (one JSON document per line, as printed
// by TLC) against the library, one at a time, and reports what differed.
//
// Protocol on stdout, one line each:
//
//	VIOL <index> <json string>   an observation of the real code contradicts the specification
//	STAT <json object>           measured counts, at the end
//
// The index of the case being run is kept in the progress file, so that a crash
// of the process (a panic in a goroutine of the library) can be attributed.
package kit

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Bytes is a JSON array of small numbers.
type Bytes []byte

// UnmarshalJSON implements json.Unmarshaler.
func (b *Bytes) UnmarshalJSON(d []byte) error {
	if string(d) == "null" {
		*b = nil
		return nil
	}
	r := make([]byte, 0, len(d)/3)
	n, in := 0, false
	for _, c := range d {
		switch {
		case c >= '0' && c <= '9':
			n = n*10 + int(c-'0')
			in = true
		case c == ',' || c == ']':
			if in {
				if n > 255 {
					return fmt.Errorf("not a byte: %d", n)
				}
				r = append(r, byte(n))
			}
			n, in = 0, false
		case c == '[' || c == ' ':
		case c == '{' || c == '}': // TLC prints an empty sequence in some contexts as {}
		default:
			return fmt.Errorf("bad byte list %q", d)
		}
	}
	*b = r
	return nil
}

// T collects the outcome of the current case.
type T struct {
	Prop  string
	Index int
	Seed  int64
	Fails []string
	Stat  map[string]int
	Quick bool
}

// Errorf records a violation.
func (t *T) Errorf(f string, a ...interface{}) {
	if len(t.Fails) < 5 {
		t.Fails = append(t.Fails, fmt.Sprintf(f, a...))
	}
}

// Count adds to a measured count.
func (t *T) Count(k string, n int) { t.Stat[k] += n }

// Guard runs f and reports a panic of the library as a violation.
func (t *T) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if where() == "" { // not the library: a fault of the harness
				fmt.Fprintf(os.Stderr, "HARNESS panic: %v\n%s\n", e, debug.Stack())
				os.Exit(98)
			}
			t.Errorf("%s: panic: %v at %s", what, e, where())
		}
	}()
	f()
	return true
}

func where() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "github.com/oov/psd") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Main drives `run` over the cases.  hang is the time one case may take.
func Main(hang time.Duration, run func(t *T, line []byte)) {
	prop := flag.String("prop", "", "")
	cases := flag.String("cases", "", "")
	progress := flag.String("progress", "", "")
	seed := flag.Int64("seed", 1, "")
	from := flag.Int("from", 0, "")
	only := flag.Int("only", -1, "")
	quick := flag.Bool("quick", true, "")
	tseed := flag.Int64("tseed", 0, "replay: the seed of the single case")
	flag.Parse()

	f, err := os.Open(*cases)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	var pf *os.File
	if *progress != "" {
		if pf, err = os.OpenFile(*progress, os.O_CREATE|os.O_WRONLY, 0o600); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	out := bufio.NewWriter(os.Stdout)
	stat := map[string]int{}
	distinct := map[uint64]struct{}{}
	var started atomic.Int64
	var curIdx atomic.Int64
	go func() {
		for {
			time.Sleep(hang / 20)
			s := started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hang {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG case %d\n%s\n", curIdx.Load(), buf)
				os.Exit(97)
			}
		}
	}()
	rd := bufio.NewReaderSize(f, 1<<20)
	viol := 0
	for idx := 0; ; idx++ {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if idx < *from || (*only >= 0 && idx != *only) {
			continue
		}
		line = bytes.TrimSpace(line)
		if len(line) == 0 {
			continue
		}
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(idx))
			pf.WriteAt(b[:], 0)
		}
		t := &T{Prop: *prop, Index: idx, Seed: *seed*1000003 + int64(idx), Stat: stat, Quick: *quick}
		if *tseed != 0 {
			t.Seed = *tseed
		}
		curIdx.Store(int64(idx))
		started.Store(time.Now().UnixNano())
		t.Guard("replay", func() { run(t, line) })
		started.Store(0)
		stat["cases"]++
		h := fnv.New64a()
		h.Write(line)
		distinct[h.Sum64()] = struct{}{}
		for _, m := range t.Fails {
			j, _ := json.Marshal(m)
			fmt.Fprintf(out, "VIOL %d %s\n", idx, j)
			out.Flush()
			viol++
		}
		if viol >= 5 {
			break
		}
	}
	stat["distinct"] = len(distinct)
	keys := make([]string, 0, len(stat))
	for k := range stat {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	j, _ := json.Marshal(stat)
	fmt.Fprintf(out, "STAT %s\n", j)
	out.Flush()
}
