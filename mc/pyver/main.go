// Command pyver explores PEP 440 versions and specifiers, release selection and the simple index
// client (C13-C17).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-dump" {
		dump()
		return
	}
	mc.Main(map[string]mc.Suite{"C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}[os.Getenv("CHECK_ID")])
}
