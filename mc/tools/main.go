// Command tools explores the subcommands that drive other programs: `python inspect` (C29) and `layer
// gobuild` (C30).  Those programs are stand-ins, most of which are this executable under other names.
package main

import (
	"os"
	"path/filepath"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	switch {
	case filepath.Base(os.Args[0]) == "go":
		fakeGo()
	case filepath.Base(os.Args[0]) == "docker":
		fakeDocker()
	case len(os.Args) > 1 && os.Args[1] == "pycompile":
		fakeCompiler()
	case len(os.Args) > 2 && os.Args[1] == "nested":
		nestedInspections(os.Args[2], os.Args[3:])
	default:
		mc.Main(map[string]mc.Suite{"C29": c29, "C30": c30, "C32": c32}[os.Getenv("CHECK_ID")])
	}
}
