// Command drv_blend replays behaviours of spec/BlendGeometry.tla, spec/PorterDuff.tla,
// spec/BlendModes.tla and spec/ColorModels.tla into packages blend and color.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif/harness/kit"
)

func parse(line []byte, v interface{}) {
	if err := json.Unmarshal(line, v); err != nil {
		fmt.Fprintln(os.Stderr, "bad case:", err)
		os.Exit(3)
	}
}

func main() {
	kit.Main(20*time.Second, func(t *kit.T, line []byte) {
		switch t.Prop {
		case "C17":
			var c geoCase
			parse(line, &c)
			runGeometry(t, &c)
		case "C18":
			var c pdCase
			parse(line, &c)
			runPorterDuff(t, &c)
		case "C19":
			var c modeCase
			parse(line, &c)
			runModes(t, &c)
		case "C20":
			var c colorCase
			parse(line, &c)
			runColors(t, &c)
		}
	})
}
