// Command dirs explores the layers made from directories (C06).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	if os.Getenv("C06_HELPER") != "" {
		helper()
		return
	}
	mc.Main(map[string]mc.Suite{"C06": c06}[os.Getenv("CHECK_ID")])
}
