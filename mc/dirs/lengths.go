package main

import (
	"fmt"
	"path"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/verifmc/mc"
)

func c06lengths(t *mc.T) {
	old := clamp.Add(-time.Hour)
	base := []int64{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025}
	var vals []int
	for _, v := range t.Sizes(1, 1100, base, "pkg/dir", "pkg/fsutil", "cmd_layer_dir.go") {
		vals = append(vals, int(v))
	}
	t.Section("lengths", fmt.Sprintf("%d numbers of files, directories, hard links, levels, prefix levels, and lengths of names and symlink targets", len(vals)))
	for _, n := range vals {
		n := n
		kinds := []string{"files", "directories", "links", "groups", "symlinks", "levels", "prefix", "prefix name", "name", "target"}
		for _, kind := range kinds {
			kind := kind
			t.Case(func() string { return fmt.Sprintf("%s: %d", kind, n) }, func(c *mc.C) {
				if limit := map[string]int{"directories": 520, "links": 520, "groups": 260}[kind]; limit > 0 && n > limit { // the comparison is quadratic
					c.Trivial()
					return
				}
				var nodes []node
				var pre *dir.Prefix
				one := node{p: "f", kind: 'f', mode: 0o644, body: "x", mtime: old}
				switch kind {
				case "files":
					for i := 0; i < n; i++ {
						nodes = append(nodes, node{p: fmt.Sprintf("f%05d", i), kind: 'f', mode: 0o644, body: fmt.Sprint(i), mtime: old})
					}
				case "directories":
					for i := 0; i < n; i++ {
						nodes = append(nodes, node{p: fmt.Sprintf("d%05d", i), kind: 'd', mode: 0o755, mtime: old}, node{p: fmt.Sprintf("d%05d/f", i), kind: 'f', mode: 0o600, body: fmt.Sprint(i), mtime: old})
					}
				case "links":
					nodes = append(nodes, one)
					for i := 0; i < n; i++ {
						nodes = append(nodes, node{p: fmt.Sprintf("l%05d", i), kind: 'f', link: "f"})
					}
				case "groups":
					for i := 0; i < n; i++ {
						nodes = append(nodes, node{p: fmt.Sprintf("a%05d", i), kind: 'f', mode: 0o644, body: fmt.Sprint(i), mtime: old})
					}
					for i := 0; i < n; i++ {
						nodes = append(nodes, node{p: fmt.Sprintf("b%05d", i), kind: 'f', link: fmt.Sprintf("a%05d", i)})
					}
				case "symlinks":
					for i := 0; i < n; i++ {
						nodes = append(nodes, node{p: fmt.Sprintf("s%05d", i), kind: 'l', target: fmt.Sprintf("t%d", i), mtime: old})
					}
				case "levels":
					if n > 1000 { // PATH_MAX
						c.Trivial()
						return
					}
					p := ""
					for i := 0; i < n; i++ {
						p = path.Join(p, "dd")
						nodes = append(nodes, node{p: p, kind: 'd', mode: 0o755, mtime: old})
					}
					nodes = append(nodes, node{p: p + "/f", kind: 'f', mode: 0o644, body: "x", mtime: old})
				case "prefix":
					nodes = []node{one}
					pre = &dir.Prefix{DirName: strings.TrimSuffix(strings.Repeat("p/", n), "/")}
				case "prefix name":
					nodes = []node{one}
					pre = &dir.Prefix{DirName: strings.Repeat("p", n)}
				case "name":
					if n > 255 {
						c.Trivial()
						return
					}
					nodes = []node{{p: strings.Repeat("n", n), kind: 'f', mode: 0o644, body: "x", mtime: old}, {p: "z" + strings.Repeat("d", n-1), kind: 'd', mode: 0o755, mtime: old}}
				case "target":
					nodes = []node{{p: "s", kind: 'l', target: strings.Repeat("t", n), mtime: old}}
				}
				check(c, nodes, pre, nil)
				c.Outcome(kind + fmt.Sprint(n))
			})
		}
	}
}
