package main

import (
	"path"
	"strings"

	"github.com/datawire/ocibuild/verifmc/mc"
)

// dirAt is the name of a directory that is n levels down.
func dirAt(name string, n int) string { return strings.TrimSuffix(strings.Repeat(name+"/", n), "/") }

// targets are the ways to write a symlink in a directory that is p levels down to a directory.
func targets(p int, dir string) []string {
	up := strings.Repeat("../", p)
	rel := up + dir
	if rel == "" {
		rel = "."
	}
	return []string{"/" + dir, rel, up + "../../" + dir, "/p/../" + dir, "./" + up + dir + "/."}
}

// levelShapes are stacks with symlinks that are p levels down and lead to directories that are q levels
// down, and that lead on from there to directories that are r levels down.
func levelShapes(max int) []shape {
	var ret []shape
	acts := []struct {
		name   string
		layers []layerSpec
	}{
		{"add", []layerSpec{{f("x")}}},
		{"add below", []layerSpec{{f("s/z")}, {f("s/y")}}},
		{"remove", []layerSpec{{f("x"), f("y")}, {f(".wh.x")}}},
		{"opaque", []layerSpec{{f("x")}, {f(".wh..wh..opq"), f("w")}}},
	}
	for p := 0; p <= max; p++ {
		for q := 0; q <= max; q++ {
			from, to := dirAt("p", p), dirAt("q", q)
			low := layerSpec{d("."), f(path.Join(to, "x")), f(path.Join(to, "low")), f(path.Join(to, "s/z")), f(path.Join(from, "x"))}
			for _, tgt := range targets(p, to) {
				link := s(path.Join(from, "l"), tgt)
				for _, a := range acts {
					stack := []layerSpec{{link}}
					for _, l := range a.layers {
						var nl layerSpec
						for _, e := range l {
							nl = append(nl, elem{e.typ, path.Join(from, "l") + "/" + e.name, e.link})
						}
						stack = append(stack, nl)
					}
					ret = append(ret, shape{bounds("%s through %v", a.name, link), stack, low})
				}
				for r := 0; r <= max && p < max && q < max; r++ {
					for i, tgt2 := range targets(q, dirAt("r", r)) {
						if i > 1 {
							break
						}
						link2 := s(path.Join(to, "m"), tgt2)
						ret = append(ret, shape{bounds("through %v and %v", link, link2), []layerSpec{
							{link, link2, f(path.Join(dirAt("r", r), "x"))},
							{f(path.Join(from, "l/m/y")), f(path.Join(from, "l/m/.wh.x"))},
						}, nil})
					}
				}
			}
		}
	}
	return ret
}

// eachLevel runs a check on every shape.
func eachLevel(t *mc.T, fn func(c *mc.C, s shape, stack []*built)) {
	shapes := levelShapes(t.Pick(3, 5))
	t.Section("levels", bounds("%d stacks with symlinks between directories that are up to %d levels down", len(shapes), t.Pick(3, 5)))
	for _, s := range shapes {
		if !t.Mine() {
			continue
		}
		s := s
		t.Run(func() string { return s.name }, func(c *mc.C) {
			var bs []*built
			for k, l := range s.stack {
				bs = append(bs, rawBuild(l, k))
			}
			fn(c, s, bs)
		})
	}
}
