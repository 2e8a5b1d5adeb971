// Command compile explores byte-compilation by an external compiler (C25).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	if os.Getenv("C25_SPEC") != "" {
		compiler()
		return
	}
	mc.Main(map[string]mc.Suite{"C25": c25}[os.Getenv("CHECK_ID")])
}
