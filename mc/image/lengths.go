package main

import (
	"archive/tar"
	"fmt"
	"strings"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// lengthValues are numbers and lengths to try: around powers of two, and around each number in the code.
func lengthValues(t *mc.T, max int64, dirs ...string) []int {
	base := []int64{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 42, 63, 64, 65, 99, 100, 101, 125, 126, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65536}
	var ret []int
	for _, v := range t.Sizes(1, max, base, dirs...) {
		if v <= max {
			ret = append(ret, int(v))
		}
	}
	return ret
}

func c21lengths(t *mc.T, run func(b int, layers []int, f flagSet), nlayers, nbases int) {
	vals := lengthValues(t, 260, ".", "pkg/fsutil")
	t.Section("lengths", fmt.Sprintf("%d numbers of layers, variables, arguments; lengths of values, tags, directories", len(vals)))
	for _, n := range vals {
		var layers []int
		var env, args []string
		for i := 0; i < n; i++ {
			layers = append(layers, (i*5+n)%nlayers)
			env = append(env, fmt.Sprintf("V%d=%d", i, n))
			args = append(args, fmt.Sprintf("arg %d", i))
		}
		b := n % nbases
		if n <= 130 {
			run(b, layers, flagSet{})
			run((b+1)%nbases, layers, flagSet{wd: "/w"})
		}
		run(b, []int{0}, flagSet{env: env, format: n})
		run(b, []int{0}, flagSet{clear: true, env: env, format: n})
		run(b, []int{0}, flagSet{entry: args, format: n})
		run(b, []int{0}, flagSet{cmd: args, format: n})
		run(b, []int{0}, flagSet{wd: "/" + strings.Repeat("w", n)})
		run(b, []int{0}, flagSet{wd: strings.Repeat("/w", n)})
		run(b, []int{0}, flagSet{tag: strings.Repeat("x", n%127+2) + ":tag"})
		run(b, []int{0}, flagSet{tag: "name:" + strings.Repeat("x", n%127+1)})
	}
	for _, n := range lengthValues(t, 70000, ".", "pkg/fsutil") {
		run(n%nbases, []int{0}, flagSet{env: []string{"X=" + strings.Repeat("v", n)}, entry: []string{strings.Repeat("e", n)}, cmd: []string{"c", strings.Repeat("c", n)}, format: n})
	}
}

func c26lengths(t *mc.T) {
	vals := lengthValues(t, 1100, "pkg/python/pyinspect", "pkg/squash")
	t.Section("lengths", fmt.Sprintf("%d numbers of PATH elements, variables, layers, levels, lengths of names, with the program at the first, a middle, and the last place", len(vals)))
	for _, n := range vals {
		for _, at := range []int{0, n / 2, n - 1, n} {
			n, at := n, at
			if at == n/2 && n < 3 {
				continue
			}
			t.Case(func() string { return fmt.Sprintf("%d, at %d", n, at) }, func(c *mc.C) {
				var dirs []ltar.Ent
				var path, env []string
				var layers [][]ltar.Ent
				for i := 0; i < n; i++ {
					d := fmt.Sprintf("d%d", i)
					path = append(path, "/"+d)
					dirs = append(dirs, dirE(d))
					if i == at {
						dirs = append(dirs, fileE(d+"/python3", 0o755))
					} else {
						dirs = append(dirs, fileE(d+"/python3", 0o644))
					}
					if i != at {
						env = append(env, fmt.Sprintf("V%d=/d%d", i, i))
					} else {
						env = append(env, "PATH=/d0")
					}
					l := []ltar.Ent{fileE("d0/other", 0o644)}
					if i == at {
						l = append(l, fileE("d0/python3", 0o755))
					} else if i > at {
						l = append(l, fileE(fmt.Sprintf("d0/x%d", i), 0o755))
					}
					layers = append(layers, l)
				}
				i := mkimg([][]ltar.Ent{dirs}, []string{"PATH=" + strings.Join(path, ":")}, "/")
				checkLook(c, i, i.fs(), "python3")
				if at < n {
					i = mkimg([][]ltar.Ent{{dirE("d0"), fileE("d0/python3", 0o755)}}, env, "/")
					checkLook(c, i, i.fs(), "python3")
				}
				if n <= 300 {
					i = mkimg(layers, []string{"PATH=/d0"}, "/")
					sys := i.fs()
					checkLook(c, i, sys, "python3")
					if at < n {
						checkStat(c, i, sys, "/d0/python3")
					}
				}
				c.Outcome(fmt.Sprint(n, at))
			})
		}
		n := n
		t.Case(func() string { return fmt.Sprintf("%d levels and characters", n) }, func(c *mc.C) {
			deep := strings.TrimSuffix(strings.Repeat("d/", n), "/")
			long := strings.Repeat("p", n)
			i := mkimg([][]ltar.Ent{{fileE(deep+"/python3", 0o755), fileE("bin/"+long, 0o755), lnkE("l", deep), lnkE("m", "./"+strings.Repeat("../", n)+"bin/"+long)}}, []string{"PATH=/" + deep + ":/bin:/l"}, "/")
			sys := i.fs()
			for _, name := range []string{"python3", long, "/l/python3", "/m", "/" + deep + "/python3", "./" + strings.Repeat("./", n) + "m"} {
				checkLook(c, i, sys, name)
			}
			checkStat(c, i, sys, "/"+deep+"/python3")
			checkStat(c, i, sys, "/l/python3")
			checkStat(c, i, sys, "/m")
			c.Outcome(fmt.Sprint(n))
		})
	}
	_ = tar.TypeReg
}
