// Command image explores program lookup inside of images (C26) and the building of images (C21).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	mc.Main(map[string]mc.Suite{"C26": c26, "C21": c21}[os.Getenv("CHECK_ID")])
}
