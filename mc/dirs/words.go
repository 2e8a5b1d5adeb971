package main

import (
	"fmt"
	"time"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/verifmc/mc"
)

func c06words(t *mc.T) {
	old := clamp.Add(-time.Hour)
	words := t.Words("pkg/dir", "pkg/fsutil", "cmd_layer_dir.go")
	t.Section("words", fmt.Sprintf("%d words as names of files, directories, links, targets and prefixes: the code's own strings, with a character more or less", len(words)))
	for _, w := range words {
		w := w
		for k := 0; k < 4; k++ {
			k := k
			t.Case(func() string { return fmt.Sprintf("%q in place %d", w, k) }, func(c *mc.C) {
				var nodes []node
				var pre *dir.Prefix
				one := node{p: "f", kind: 'f', mode: 0o644, body: "x", mtime: old}
				switch k {
				case 0:
					nodes = []node{{p: w, kind: 'f', mode: 0o640, body: "w", mtime: old}, {p: "zd", kind: 'd', mode: 0o755, mtime: old}, {p: "zd/" + w, kind: 'f', mode: 0o604, body: "v", mtime: old}, {p: "zz", kind: 'f', link: w}}
				case 1:
					nodes = []node{{p: w, kind: 'd', mode: 0o750, mtime: old}, {p: w + "/" + w, kind: 'd', mode: 0o755, mtime: old}, {p: w + "/" + w + "/f", kind: 'f', mode: 0o644, body: "f", mtime: old}}
				case 2:
					nodes = []node{one, {p: "d", kind: 'd', mode: 0o755, mtime: old}, {p: "d/s", kind: 'l', target: w, mtime: old}, {p: w + "~", kind: 'l', target: "/" + w, mtime: old}}
				case 3:
					nodes = []node{one}
					pre = &dir.Prefix{DirName: w + "/sub"}
				}
				check(c, nodes, pre, nil)
				c.Outcome(fmt.Sprint(w, k))
			})
		}
	}
}
