// Command cli explores the command line program under faults: crash and failure points of `layer gobuild
// --output` (C20), and of every subcommand's input and output (C22).
package main

import (
	"os"
	"path/filepath"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	switch {
	case filepath.Base(os.Args[0]) == "go":
		fakeGo()
	case len(os.Args) > 1 && os.Args[1] == "pycompile":
		fakeCompiler()
	case filepath.Base(os.Args[0]) == "python3":
		fakePython()
	default:
		mc.Main(map[string]mc.Suite{"C20": c20, "C22": c22}[os.Getenv("CHECK_ID")])
	}
}
