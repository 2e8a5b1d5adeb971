// Command squash explores histories of layers against pkg/squash (C01-C04).
package main

import (
	"os"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func main() {
	mc.Main(map[string]mc.Suite{"C01": c01, "C02": c02, "C03": c03, "C04": c04}[os.Getenv("CHECK_ID")])
}
