package main

import (
	"fmt"
	"strings"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

func c21words(t *mc.T, run func(b int, layers []int, f flagSet), nbases int) {
	words := t.Words("cmd_image_build.go", "pkg/fsutil")
	t.Section("words", fmt.Sprintf("%d words as variables, values, arguments, directories: the code's own strings, with a character more or less", len(words)))
	for n, w := range words {
		if strings.HasPrefix(w, "-") {
			continue
		}
		v := strings.Replace(w, "=", "_", -1)
		run(n%nbases, []int{0}, flagSet{env: []string{v + "=1", "Z=" + w}, entry: []string{w}, cmd: []string{"c", w}, wd: "/" + w, format: n})
		run((n+3)%nbases, []int{0}, flagSet{env: []string{v + "="}, cmd: []string{w}, entry: []string{"e", w}, format: n + 1, clear: n%2 == 0})
	}
}

func c26words(t *mc.T) {
	words := t.Words("pkg/python/pyinspect", "pkg/squash")
	t.Section("words", fmt.Sprintf("%d words as names of programs, directories, variables", len(words)))
	for _, w := range words {
		w := w
		t.Case(func() string { return fmt.Sprintf("%q", w) }, func(c *mc.C) {
			if strings.Contains(w, ":") || strings.HasPrefix(w, ".wh.") {
				c.Trivial()
				return
			}
			v := strings.Replace(w, "=", "_", -1)
			i := mkimg([][]ltar.Ent{{fileE("bin/"+w, 0o755), fileE("bin/python3", 0o755), fileE(w+"/python3", 0o755), fileE(w+"/only", 0o755), lnkE("l-"+w, w), lnkE("sbin/p", "../"+w+"/only")}},
				[]string{v + "=/sbin", "PATH=/sbin:/" + w + ":/bin:/l-" + w}, "/")
			sys := i.fs()
			for _, name := range []string{"python3", w, "only", "p", "/bin/" + w, "/" + w + "/only", "/l-" + w + "/only", "./" + w + "/only", "sbin/p"} {
				checkLook(c, i, sys, name)
			}
			checkStat(c, i, sys, "/bin/"+w)
			checkStat(c, i, sys, "/"+w+"/only")
			checkStat(c, i, sys, "/sbin/p")
			c.Outcome(w)
		})
	}
}
