package main

import (
	"archive/tar"
	"fmt"
	"path"
	"strings"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// lengthValues are the numbers of layers, entries, levels and characters to try: around powers of two,
// and around each number in the code.
func lengthValues(t *mc.T, max int64) []int64 {
	base := []int64{1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025}
	var ret []int64
	for _, v := range t.Sizes(1, max, base, "pkg/squash", "pkg/fsutil", "cmd_layer_squash.go") {
		if v <= max {
			ret = append(ret, v)
		}
	}
	return ret
}

type shape struct {
	name  string
	stack []layerSpec
	low   layerSpec // what lies below
}

func num(p string, i int) string { return fmt.Sprintf("%s%04d", p, i) }

// lengthShapes are stacks of a size that n gives.
func lengthShapes(n int) []shape {
	var ret []shape
	add := func(name string, low layerSpec, stack ...layerSpec) { ret = append(ret, shape{name, stack, low}) }
	var grow, chase, toggle, opaque, sym []layerSpec
	for i := 0; i < n; i++ {
		grow = append(grow, layerSpec{f(num("d/f", i)), f("d/same")})
		l := layerSpec{f(num("x", i))}
		if i > 0 {
			l = append(l, f(num(".wh.x", i-1)))
		}
		chase = append(chase, l)
		toggle = append(toggle, layerSpec{[]elem{f("d/x"), f("d/.wh.x"), f(".wh.d"), f("d")}[i%4]})
		opaque = append(opaque, layerSpec{f("d/.wh..wh..opq"), f(num("d/f", i)), f("e/" + num("f", i))})
		sym = append(sym, layerSpec{s("l", num("t", i)), f("l/" + num("f", i))})
	}
	low := layerSpec{d("."), d("d"), f("d/x"), f("d/f0000"), f("d/low"), f("x0000"), d("l"), f("l/low")}
	add("layers that add", low, grow...)
	add("layers that remove what the previous one added", low, chase...)
	add("layers that add and remove the same", low, toggle...)
	add("opaque layers", low, opaque...)
	add("layers that turn a symlink", low, sym...)
	var wide, some, all, more, tree, treeRm, links, via layerSpec
	wide = append(wide, d("d"))
	lowWide := layerSpec{d("."), d("d")}
	for i := 0; i < n; i++ {
		wide = append(wide, f(num("d/f", i)))
		lowWide = append(lowWide, f(num("d/f", i)))
		all = append(all, f(num("d/.wh.f", i)))
		if i%3 == 0 {
			some = append(some, f(num("d/.wh.f", i)))
			more = append(more, f(num("d/g", i)))
		}
		tree = append(tree, d(num("t/d", i)), f(num("t/d", i)+"/file"))
		if i == n/2 || i == n-1 {
			treeRm = append(treeRm, f(num("t/.wh.d", i)))
		}
		links = append(links, s(num("l", i), num("t/d", i)))
		via = append(via, f(num("l", i)+"/file"))
	}
	add("a wide directory", nil, wide)
	add("a wide directory of which some is removed", lowWide, wide, some, more)
	add("a wide directory of which all is removed", lowWide, wide, all)
	add("removed from below only", lowWide, all, more)
	add("a wide directory that is replaced", lowWide, wide, layerSpec{f("d")}, layerSpec{d("d"), f("d/new")})
	add("a wide directory made opaque", lowWide, wide, append(append(layerSpec{}, f("d/.wh..wh..opq")), more...))
	add("many directories", nil, tree, treeRm)
	add("many symlinks", nil, tree, links, via)
	p := "t"
	var deep layerSpec
	mid := ""
	for i := 0; i < n; i++ {
		deep = append(deep, d(p))
		if i == n/2 {
			mid = p
		}
		p += "/d"
	}
	deep = append(deep, f(p))
	add("a deep directory", nil, deep)
	add("a deep directory that nothing describes", nil, layerSpec{f(p)}, layerSpec{f(path.Dir(p) + "/x")})
	add("a deep directory of which a part is removed", nil, deep, layerSpec{f(path.Dir(mid) + "/.wh." + path.Base(mid))})
	add("a deep directory that is replaced", nil, deep, layerSpec{s(mid, "gone")}, layerSpec{f(p)})
	long := strings.Repeat("n", n)
	add("a long name", nil, layerSpec{f("d/" + long), s("d/s", long)}, layerSpec{f("d/s"), f("d/.wh." + long)}, layerSpec{d("d/" + long), f("d/" + long + "/x")})
	add("a long target", nil, layerSpec{s("l", long), f("l/x"), s("k", "./"+strings.Repeat("../", n)+"t")}, layerSpec{f("k/x")})
	return ret
}

func lengthLow(l layerSpec) []*ltar.FS {
	if l == nil {
		return nil
	}
	fs := ltar.NewFS()
	if err := fs.Apply(rawBuild(l, 900).ents, false); err != nil {
		panic(err)
	}
	return []*ltar.FS{fs}
}

func rawBuild(l layerSpec, pos int) *built {
	var ents []ltar.Ent
	for _, e := range l {
		ents = append(ents, e.ent(pos))
	}
	raw := ltar.MustEncode(ents)
	dec, err := ltar.Decode(raw)
	if err != nil {
		panic(err)
	}
	return &built{dec, raw}
}

// eachLength runs a check on every shape of every size.
func eachLength(t *mc.T, max int64, fn func(c *mc.C, s shape, stack []*built)) {
	vals := lengthValues(t, max)
	t.Section("lengths", bounds("stacks of %d shapes x %d sizes up to %d: layers, entries, whiteouts, levels, characters", len(lengthShapes(1)), len(vals), max))
	for _, n := range vals {
		for i := range lengthShapes(1) {
			if !t.Mine() {
				continue
			}
			n, i := int(n), i
			t.Run(func() string { return fmt.Sprintf("%s: %d", lengthShapes(1)[i].name, n) }, func(c *mc.C) {
				s := lengthShapes(n)[i]
				var bs []*built
				for k, l := range s.stack {
					bs = append(bs, rawBuild(l, k))
				}
				fn(c, s, bs)
			})
		}
	}
}

// linkShapes are stacks with n hard links.
func linkShapes(n int) []shape {
	var ret []shape
	add := func(name string, stack ...layerSpec) { ret = append(ret, shape{name, stack, nil}) }
	star, chain, each := layerSpec{f("m")}, layerSpec{f("m0000")}, layerSpec{}
	rev := layerSpec{f("z")}
	var rm, back layerSpec
	var layers, relay []layerSpec
	layers = append(layers, layerSpec{f("m")})
	relay = append(relay, layerSpec{f("m0000")})
	for i := 0; i < n; i++ {
		star = append(star, h(num("x", i), "m"))
		chain = append(chain, h(num("m", i+1), num("m", i)))
		rev = append(rev, h(num("a", n-i), "z"))
		each = append(each, f(num("d/f", i)), h(num("e/g", i), num("d/f", i)))
		layers = append(layers, layerSpec{h(num("x", i), "m")})
		relay = append(relay, layerSpec{h(num("m", i+1), num("m", i))}, layerSpec{f(num(".wh.m", i))})
		if i%2 == 0 {
			rm = append(rm, f(num(".wh.x", i)))
		} else {
			back = append(back, f(num("x", i)))
		}
	}
	rm = append(rm, f(".wh.m"))
	add("many links", star)
	add("many links of which some are removed", star, rm)
	add("many links of which some are replaced", star, rm, append(append(layerSpec{}, back...), f("m")))
	add("links before their target", rev)
	add("links before their target, which goes", rev, layerSpec{f(".wh.z")})
	add("a chain of links", chain)
	add("a chain of links without its start", chain, layerSpec{f(".wh.m0000")})
	add("many linked files", each, layerSpec{f(".wh.d")})
	add("a link per layer", layers...)
	add("a relay", relay...)
	return ret
}

var _ = tar.TypeReg
