package main

import (
	"fmt"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func c30words(t *mc.T, epoch int64) {
	words := t.Words("pkg/gobuild", "pkg/dir", "cmd_layer_gobuild.go")
	t.Section("words", fmt.Sprintf("%d words as names of files: the code's own strings, with a character more or less", len(words)))
	for i := 0; i < len(words); i += 4 {
		i := i
		t.Case(func() string { return fmt.Sprintf("words from %q on", words[i]) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			for k := i; k < i+4 && k < len(words); k++ {
				g.spec.Files = append(g.spec.Files, goFile{Name: words[k], Content: fmt.Sprint(k), Mode: 0o755, Mtime: 1500000000})
			}
			g.check(c, g.run(), epoch, epoch)
			g.clean(c)
			c.Outcome(fmt.Sprint(i))
		})
	}
}
