// Command drv_psd replays container-format behaviours of spec/*.tla into package psd.
package main

import (
	"encoding/json"
	"fmt"
	"image"
	"io/ioutil"
	"log"
	"os"
	"time"

	"github.com/oov/psd"

	"verif/harness/kit"
)

type maskOut struct {
	Form   int
	Rect   [4]int
	Def    int
	Flags  int
	UD     int
	UF     kit.Bytes
	VD     int
	VF     kit.Bytes
	RFlags int
	RBG    int
	RRect  [4]int
}

type chanOut struct {
	ID    int
	Plane kit.Bytes
	Comp  int
	Rect  [4]int
}

type infoOut struct {
	Key  kit.Bytes
	Data kit.Bytes
}

type layerOut struct {
	Rect   [4]int
	BM     kit.Bytes
	Op     int
	Clip   bool
	Flags  int
	Mask   maskOut
	MBCS   kit.Bytes
	HasUni bool
	Units  []uint16
	BCE    bool
	SType  int
	SBM    kit.Bytes
	SSub   int
	Infos  []infoOut
	Chans  []chanOut
	Model  string
	Pix    [][]kit.Bytes
	Seq    *int       // position in the file, where it is not the position in the list
	Kids   []layerOut // the layers of a group
}

type resOut struct {
	ID   int
	Name kit.Bytes
	Data kit.Bytes
}

type cfgOut struct {
	Version, W, H, Ch, Depth, Mode int
	Cmd                            kit.Bytes
	Res                            []resOut
	Trans                          int
	Model                          string
}

type docCase struct {
	Kind           string
	What           string
	At             int
	Soft           bool
	InImg          bool
	Verdict, Stage string // of the specification's reader
	B              kit.Bytes
	Focus          string
	EndRes         int
	EndLay         int
	EndAll         int
	Cfg            cfgOut
	Layers         []layerOut
	Infos          []infoOut
	MComp          int
	Merged         []kit.Bytes
	MPix           [][]kit.Bytes
}

func rect(r [4]int) image.Rectangle { return image.Rect(r[0], r[1], r[2], r[3]) }

func parse(line []byte, v interface{}) {
	if err := json.Unmarshal(line, v); err != nil {
		fmt.Fprintln(os.Stderr, "bad case:", err)
		os.Exit(3)
	}
}

func main() {
	kit.Main(30*time.Second, func(t *kit.T, line []byte) {
		var probe struct {
			G     json.RawMessage
			Wide  json.RawMessage
			Types json.RawMessage
			Hdr   json.RawMessage
		}
		parse(line, &probe)
		// every other case is decoded with the debug log turned on, which must not make a difference
		psd.Debug = nil
		if t.Seed%2 == 1 {
			psd.Debug = log.New(ioutil.Discard, "", 0)
		}
		switch {
		case probe.G != nil:
			var c planeCase
			parse(line, &c)
			runPlane(t, &c)
		case probe.Wide != nil:
			var c wideCase
			parse(line, &c)
			runWide(t, &c)
		case probe.Types != nil:
			var c treeCase
			parse(line, &c)
			runTree(t, &c)
		case probe.Hdr != nil:
			var c hdrCase
			parse(line, &c)
			runHeader(t, &c)
		default:
			var c docCase
			parse(line, &c)
			runDoc(t, &c)
		}
	})
}
