package main

import (
	"strings"

	"github.com/datawire/ocibuild/verifmc/mc"
)

func squashWords(t *mc.T) []string {
	var ret []string
	for _, w := range t.Words("pkg/squash", "pkg/fsutil", "cmd_layer_squash.go") {
		if !strings.HasPrefix(w, ".wh.") {
			ret = append(ret, w)
		}
	}
	return ret
}

// wordShapes are stacks in each of which a name is to be replaced with a word.
func wordShapes() []shape {
	low := layerSpec{d("."), d("d"), f("d/x"), f("d/low"), d("e"), f("e/x"), f("x")}
	mk := func(name string, stack ...layerSpec) shape { return shape{name, stack, low} }
	return []shape{
		mk("add", layerSpec{d("d"), f("d/x"), f("x"), s("l", "d")}, layerSpec{f("d/y")}),
		mk("remove", layerSpec{f("d/x"), f("d/y")}, layerSpec{f("d/.wh.x")}),
		mk("remove from below", layerSpec{f("d/.wh.x"), f(".wh.x")}),
		mk("remove a directory", layerSpec{f("d/x"), f("d/s/x")}, layerSpec{f(".wh.d")}, layerSpec{f("d/z")}),
		mk("opaque", layerSpec{f("d/x")}, layerSpec{f("d/.wh..wh..opq"), f("d/z")}),
		mk("through a symlink", layerSpec{s("l", "d"), f("d/x")}, layerSpec{f("l/x"), f("l/y")}, layerSpec{f("l/.wh.x")}),
		mk("replaced symlink", layerSpec{s("l", "d"), f("d/x")}, layerSpec{d("l")}, layerSpec{f("l/x")}),
		mk("file, directory, file", layerSpec{f("x")}, layerSpec{d("x"), f("x/y")}, layerSpec{f("x")}),
		mk("nested", layerSpec{f("e/d/x"), s("e/l", "../d")}, layerSpec{f("e/.wh.d")}, layerSpec{f("e/l/x")}),
		mk("directory, symlink", layerSpec{d("d"), f("d/x")}, layerSpec{s("d", "e")}, layerSpec{f("d/x")}),
		mk("twice in a layer", layerSpec{f("x"), f("d/x"), f("x"), f(".wh.x")}, layerSpec{f(".wh.x"), f("x")}),
	}
}

func wordLinkShapes() []shape {
	mk := func(name string, stack ...layerSpec) shape { return shape{name, stack, nil} }
	return []shape{
		mk("link", layerSpec{f("d/x"), h("l", "d/x"), h("d/y", "d/x")}),
		mk("link, target goes", layerSpec{f("x"), h("d/l", "x")}, layerSpec{f(".wh.x")}),
		mk("link goes", layerSpec{f("x"), h("d/l", "x")}, layerSpec{f("d/.wh.l")}),
		mk("link to an earlier layer", layerSpec{f("d/x"), s("y", "d")}, layerSpec{h("l", "y/x")}, layerSpec{f("d/x")}),
		mk("directory of the target goes", layerSpec{f("d/x"), h("x", "d/x"), h("l", "d/x")}, layerSpec{f(".wh.d")}),
		mk("replaced link", layerSpec{f("x"), h("l", "x"), h("d/l", "l")}, layerSpec{f("l")}),
	}
}

// renamed replaces the name from with to.
func renamed(l layerSpec, from, to string) layerSpec {
	var ret layerSpec
	re := func(p string) string {
		parts := strings.Split(p, "/")
		for i, c := range parts {
			if c == from {
				parts[i] = to
			} else if c == ".wh."+from {
				parts[i] = ".wh." + to
			}
		}
		return strings.Join(parts, "/")
	}
	for _, e := range l {
		ret = append(ret, elem{e.typ, re(e.name), re(e.link)})
	}
	return ret
}

// eachWord runs a check on every shape with each of its names replaced with every word.
func eachWord(t *mc.T, shapes []shape, build func(layerSpec, int) *built, fn func(c *mc.C, s shape, stack []*built)) {
	words := squashWords(t)
	t.Section("words", bounds("%d stacks in which a name is one of %d words: the code's own strings, with a character more or less", len(shapes), len(words)))
	for _, w := range words {
		for _, s := range shapes {
			for _, from := range []string{"d", "x", "l"} {
				if !t.Mine() {
					continue
				}
				w, s, from := w, s, from
				t.Run(func() string { return bounds("%s: %s is %q", s.name, from, w) }, func(c *mc.C) {
					n := shape{name: s.name}
					if s.low != nil {
						n.low = renamed(s.low, from, w)
					}
					var bs []*built
					for k, l := range s.stack {
						l = renamed(l, from, w)
						n.stack = append(n.stack, l)
						bs = append(bs, build(l, k))
					}
					fn(c, n, bs)
				})
			}
		}
	}
}
