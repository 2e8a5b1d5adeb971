// Command wheel explores wheels against pkg/python/pypa/bdist and the post-install hooks (C08-C12).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	if os.Getenv("WHEEL_HELPER") != "" {
		compileHelper()
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "execcompile" {
		execCompiler(os.Args[2:])
		return
	}
	mc.Main(map[string]mc.Suite{"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12}[os.Getenv("CHECK_ID")])
}
