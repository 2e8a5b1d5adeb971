package main

import (
	"archive/tar"
	"path"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"io/fs"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c02 = mc.Suite{
	ID:    "C02",
	Level: "model_checking",
	Rule: "all histories of layers over regular files, hard links between them (in both sort orders, through symlinked directories, " +
		"to symlinks), overwrites, whiteouts and type changes in which every link target exists in the stack; non-trivial: reference defined",
	Assumptions: []string{
		"a hard link whose target no input layer provides is passed through (its target must then be left alone by the later layers)",
		"the header of a hard link entry of the input carries the metadata of its target (where it does not, which of the two counts is left open; all names of the file have to agree in the output)",
	},
	Body: runC02,
}

var linkAlphabet = []elem{
	f("a"), f("m"), f("d/f"), f("z"),
	h("a", "m"), h("m", "a"), h("z", "a"), h("a", "z"), h("m", "d/f"), h("d/f", "m"), h("d/f", "z"), h("z", "/d/f"), h("d/g", "./d/f"), h("l/h", "m"), h("k", "l/f"), h("k", "y"), h("m", "m"), h("d/f", "l/f"),
	s("l", "d"), s("y", "a"), d("d"), d("m"), d("a"), f("a/q"),
	f(".wh.a"), f(".wh.m"), f(".wh.d"), f("d/.wh.f"), f(".wh.z"), f("d/.wh..wh..opq"), f(".wh..wh..opq"),
}

func linkEnt(l layerSpec, pos int) *built {
	// the header of a link has the metadata of its target; as that depends on the history, give
	// all entries of this suite the same metadata, and tell them apart by content
	var ents []ltar.Ent
	for _, e := range l {
		en := e.ent(pos)
		n := elem{e.typ, e.name, e.link}.ent(0)
		n.Body = en.Body
		n.Hdr.PAXRecords = nil
		ents = append(ents, n)
	}
	raw := ltar.MustEncode(ents)
	dec, err := ltar.Decode(raw)
	if err != nil {
		panic(err)
	}
	return &built{dec, raw}
}

var linkCache = map[string]*built{}

func linkStack(stack []layerSpec) []*built {
	ret := make([]*built, len(stack))
	for i, l := range stack {
		k := string(rune('0'+i)) + l.String()
		b := linkCache[k]
		if b == nil {
			b = linkEnt(l, i)
			linkCache[k] = b
		}
		ret[i] = b
	}
	return ret
}

func runC02(t *mc.T) {
	lows := []*ltar.FS{lowers()[0]}
	check := func(c *mc.C, bs []*built) {
		if equivalence(c, lows, bs, true) != "ok" || c.Failed() {
			return
		}
		raws := make([][]byte, 0)
		layers := []ociv1.Layer{}
		for _, b := range bs {
			raws = append(raws, b.raw)
			layers = append(layers, ltar.RawLayer(b.raw))
		}
		out, _ := doSquash(raws...)
		ents, _ := ltar.Decode(out)
		files := map[string]bool{}
		for _, e := range ents {
			if e.Hdr.Typeflag == tar.TypeLink {
				if !files[path.Clean(e.Hdr.Linkname)] {
					c.Failf("link %q refers to %q which the output has not emitted before it; output %s", e.Hdr.Name, e.Hdr.Linkname, ltar.Describe(ents))
				}
				if len(e.Body) > 0 || e.Hdr.Size != 0 {
					c.Failf("link %q has a body", e.Hdr.Name)
				}
			} else if e.Hdr.Typeflag != tar.TypeDir && !ltar.IsWhiteout(e.Hdr.Name) {
				files[path.Clean(e.Hdr.Name)] = true
			}
		}
		// the loaded view
		ref, _, _ := refApply(ltar.NewFS(), bs, nil)
		v, err := squash.Load(layers, false)
		if err != nil {
			c.Failf("Load: %v", err)
			return
		}
		var visit func(p string, n *ltar.Inode)
		visit = func(p string, n *ltar.Inode) {
			if n.Type == tar.TypeDir {
				for _, k := range n.Names() {
					visit(path.Join(p, k), n.Kids[k])
				}
				return
			}
			if n.Type != tar.TypeReg {
				return
			}
			bs, err := fs.ReadFile(v, p)
			if err != nil {
				c.Failf("reading %q from the loaded stack: %v", p, err)
			} else if string(bs) != n.Body {
				c.Failf("reading %q from the loaded stack: want %q got %q", p, n.Body, bs)
			}
			st, err := fs.Stat(v, p)
			if err != nil {
				c.Failf("stat of %q in the loaded stack: %v", p, err)
			} else if !st.Mode().IsRegular() || st.Size() != int64(len(n.Body)) {
				c.Failf("stat of %q in the loaded stack: mode %v size %d, want a regular file of %d bytes", p, st.Mode(), st.Size(), len(n.Body))
			}
		}
		visit("", ref.Root)
	}
	ex := func(name string, sets [][]layerSpec, b string, pre ...elem) {
		t.Section(name, b)
		histories(t, sets, func(stack []layerSpec) {
			if !t.Mine() {
				return
			}
			st := append([]layerSpec(nil), stack...)
			if len(pre) > 0 {
				st = append([]layerSpec{layerSpec(pre)}, st...)
			}
			t.Run(func() string { return stackString(st) }, func(c *mc.C) { check(c, linkStack(st)) })
		})
	}
	one := single(linkAlphabet)
	two := pairs(linkAlphabet)
	ex("pair", rep(two, 1), "all 1-layer stacks of two entries")
	ex("base+2", [][]layerSpec{one, one}, "base layer {a m d/f z l->d}, then all 2 single-entry layers", f("a"), f("m"), f("d/f"), f("z"), s("l", "d"))
	ex("base+pair", [][]layerSpec{two}, "base layer, then all two-entry layers", f("a"), f("m"), f("d/f"), f("z"), s("l", "d"))
	ex("depth3", rep(one, 3), "all 3-layer stacks of single entries")
	ex("base+3", rep(one, 3), "base layer, then all 3 single-entry layers", f("a"), f("m"), f("d/f"), s("l", "d"))
	ex("pair+single", [][]layerSpec{two, one}, "two-entry layer, single-entry layer")
	// links within one layer: triples
	t.Section("triple", "all 1-layer stacks of three entries from files and links")
	fl := linkAlphabet[:20]
	for _, a := range fl {
		for _, b := range fl {
			for _, e := range fl {
				if !t.Mine() {
					continue
				}
				st := []layerSpec{{a, b, e}}
				t.Run(func() string { return stackString(st) }, func(c *mc.C) { check(c, linkStack(st)) })
			}
		}
	}
	c02meta(t)
	eachWord(t, wordLinkShapes(), linkEnt, func(c *mc.C, s shape, bs []*built) { check(c, bs) })
	vals := lengthValues(t, 600)
	t.Section("lengths", bounds("stacks of %d shapes x %d numbers of links", len(linkShapes(1)), len(vals)))
	for _, n := range vals {
		for i := range linkShapes(1) {
			n, i := int(n), i
			t.Case(func() string { return linkShapes(1)[i].name + bounds(": %d", n) }, func(c *mc.C) {
				var bs []*built
				for k, l := range linkShapes(n)[i].stack {
					bs = append(bs, linkEnt(l, k))
				}
				check(c, bs)
			})
		}
	}
	// pass-through: the target is only in the lower filesystem
	t.Section("lower-target", "a link to a file of the lower filesystem, with unrelated other layers")
	low := ltar.NewFS()
	lowEnts := []ltar.Ent{f("low").ent(0), d("ld").ent(0), f("ld/low2").ent(0)}
	for i := range lowEnts {
		lowEnts[i].Hdr.PAXRecords = nil
	}
	decLow, _ := ltar.Decode(ltar.MustEncode(lowEnts))
	_ = low.Apply(decLow, false)
	un := []elem{f("a"), f("z"), d("d"), f("d/f"), f(".wh.a"), s("y", "low"), d("ld"), f("ld/a")}
	for _, hl := range []elem{h("a", "low"), h("z", "low"), h("d/f", "low"), h("m", "ld/low2"), h("ld/z", "ld/low2")} {
		for _, u1 := range un {
			for _, u2 := range un {
				for pos := 0; pos < 3; pos++ {
					if !t.Mine() {
						continue
					}
					st := []layerSpec{{u1}, {u2}}
					st = append(st[:pos:pos], append([]layerSpec{{hl}}, st[pos:]...)...)
					t.Run(func() string { return stackString(st) }, func(c *mc.C) {
						bs := linkStack(st)
						want, _, ok := refApply(low, bs, c)
						if !ok {
							c.Trivial()
							return
						}
						var raws [][]byte
						for _, b := range bs {
							raws = append(raws, b.raw)
						}
						out, err := doSquash(raws...)
						if err != nil {
							c.Failf("squash: %v", err)
							return
						}
						ents, _ := ltar.Decode(out)
						got := low.Clone()
						if err := got.Apply(ents, true); err != nil {
							c.Failf("unpack: %v; output %s", err, ltar.Describe(ents))
							return
						}
						if d := ltar.Diff(want, got); d != "" {
							c.Failf("%s; output %s", d, ltar.Describe(ents))
						}
						c.Outcome(ltar.Describe(ents))
					})
				}
			}
		}
	}
	if t.Thorough() {
		ex("base+4", rep(single(linkAlphabet[:]), 4), "base layer, then all 4 single-entry layers", f("a"), f("m"), f("d/f"), s("l", "d"))
		ex("pair+pair", [][]layerSpec{two, two}, "two two-entry layers")
	}
}
