// Command drv_comp replays behaviours of spec/Compose.tla, spec/RenderCache.tla and
// spec/CanvasPipeline.tla into package composite.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif/harness/kit"
)

func parse(line []byte, v interface{}) {
	if err := json.Unmarshal(line, v); err != nil {
		fmt.Fprintln(os.Stderr, "bad case:", err)
		os.Exit(3)
	}
}

func main() {
	kit.Main(20*time.Second, func(t *kit.T, line []byte) {
		var probe struct{ Script, Out, Plan, View, Kind, Export, Side, Moves, Light, News json.RawMessage }
		parse(line, &probe)
		switch {
		case probe.Script != nil:
			var c scriptCase
			parse(line, &c)
			runScript(t, &c)
		case probe.Plan != nil:
			var c planCase
			parse(line, &c)
			runPlan(t, &c)
		case probe.View != nil:
			var c viewCase
			parse(line, &c)
			runView(t, &c)
		case probe.Export != nil:
			var c exportCase
			parse(line, &c)
			runExport(t, &c)
		case probe.Side != nil:
			var c sideCase
			parse(line, &c)
			runSide(t, &c)
		case probe.News != nil:
			var c newsCase
			parse(line, &c)
			runNews(t, &c)
		case probe.Light != nil:
			var c lightCase
			parse(line, &c)
			runLight(t, &c)
		case probe.Moves != nil:
			var c moveCase
			parse(line, &c)
			runMoves(t, &c)
		case probe.Kind != nil:
			var c byteCase
			parse(line, &c)
			runBytes(t, &c)
		default:
			var c compCase
			parse(line, &c)
			runCompose(t, &c)
		}
	})
}
