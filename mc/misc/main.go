// Command misc explores smaller parts of ocibuild (C18, C19, C23, C24, C27, C28).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	mc.Main(map[string]mc.Suite{"C18": c18, "C19": c19, "C23": c23, "C24": c24, "C27": c27, "C28": c28, "C31": c31}[os.Getenv("CHECK_ID")])
}
