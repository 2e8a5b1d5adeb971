package main

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"path"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	"github.com/google/go-containerregistry/pkg/v1/static"
	"github.com/google/go-containerregistry/pkg/v1/types"

	"github.com/datawire/ocibuild/pkg/python/pyinspect"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c26 = mc.Suite{
	ID:    "C26",
	Level: "model_checking",
	Rule: "an image is made of real layers and a real config, and the lookup is compared with a reference filesystem model to which the layers " +
		"were applied; a case is non-trivial if the reference decides it (found at a path, or an error)",
	Assumptions: []string{
		"PATH unset, empty or given twice, and empty names are not covered",
		"'..' after a symlink, and a trailing slash on a relative name, are not covered",
		"directories that no layer describes have no ownership, Stat of them is not covered",
	},
	Body: c26body,
}

func ent(typ byte, name string, mode int64) ltar.Ent {
	return ltar.Ent{Hdr: tar.Header{Typeflag: typ, Name: name, Mode: mode}}
}
func dirE(name string) ltar.Ent { return ent(tar.TypeDir, name+"/", 0o755) }
func fileE(name string, mode int64) ltar.Ent {
	e := ent(tar.TypeReg, name, mode)
	e.Body = []byte(name)
	return e
}
func lnkE(name, target string) ltar.Ent {
	e := ent(tar.TypeSymlink, name, 0o777)
	e.Hdr.Linkname = target
	return e
}
func hardE(name, target string, mode int64) ltar.Ent {
	e := ent(tar.TypeLink, name, mode)
	e.Hdr.Linkname = target
	return e
}

// own gives every entry of a list an owner of its own.
func own(layers [][]ltar.Ent) {
	id := 100
	for _, l := range layers {
		for i := range l {
			h := &l[i].Hdr
			if h.Typeflag == tar.TypeLink {
				continue // metadata is that of its target
			}
			id++
			h.Uid, h.Gid = id, id+1000
			h.Uname, h.Gname = fmt.Sprintf("u%d", id), fmt.Sprintf("g%d", id)
		}
	}
}

type img struct {
	layers [][]ltar.Ent
	env    []string
	wd     string
	model  *ltar.FS
}

func mkimg(layers [][]ltar.Ent, env []string, wd string) *img {
	own(layers)
	m := ltar.NewFS()
	for _, l := range layers {
		if err := m.Apply(l, false); err != nil {
			panic(fmt.Sprintf("%v: %v", ltar.Describe(l), err))
		}
	}
	return &img{layers, env, wd, m}
}

func (i *img) String() string {
	var ls []string
	for _, l := range i.layers {
		ls = append(ls, ltar.Describe(l))
	}
	return fmt.Sprintf("layers=%v env=%q wd=%q", ls, i.env, i.wd)
}

func (i *img) build() (ociv1.Image, error) {
	var layers []ociv1.Layer
	for _, l := range i.layers {
		layers = append(layers, static.NewLayer(ltar.MustEncode(l), types.DockerUncompressedLayer))
	}
	ret, err := mutate.AppendLayers(empty.Image, layers...)
	if err != nil {
		return nil, err
	}
	return mutate.Config(ret, ociv1.Config{Env: i.env, WorkingDir: i.wd})
}

func (i *img) fs() *pyinspect.ImageFS {
	im, err := i.build()
	if err != nil {
		panic(err)
	}
	return &pyinspect.ImageFS{Image: im}
}

func (i *img) workdir() string {
	if i.wd == "" {
		return "/"
	}
	return path.Join("/", i.wd)
}

func (i *img) path() []string {
	for _, kv := range i.env {
		if strings.HasPrefix(kv, "PATH=") {
			return strings.Split(kv[5:], ":")
		}
	}
	panic("no PATH")
}

// get resolves an absolute path.
func (i *img) get(name string) (*ltar.Inode, error) {
	n, err := i.model.Lookup(strings.TrimPrefix(path.Clean(name), "/"), true)
	if err != nil {
		return nil, err
	}
	if n.Type != tar.TypeDir && (strings.HasSuffix(name, "/") || strings.HasSuffix(name, "/.")) {
		return nil, ltar.ErrNotDir{}
	}
	return n, nil
}

func (i *img) executable(name string) bool {
	n, err := i.get(name)
	if err != nil || n.Type == tar.TypeDir || n.Type == tar.TypeSymlink {
		return false
	}
	return n.Hdr.Mode&0o111 != 0
}

// look is the reference lookup.
func (i *img) look(name string) (string, bool) {
	if strings.Contains(name, "/") {
		full := name
		if !strings.HasPrefix(name, "/") {
			full = i.workdir() + "/" + name
		}
		return full, i.executable(full)
	}
	for _, dir := range i.path() {
		full := dir + "/" + name
		if !strings.HasPrefix(dir, "/") {
			full = i.workdir() + "/" + dir + "/" + name
		}
		full = path.Clean(full)
		if i.executable(full) {
			return full, true
		}
	}
	return "", false
}

func checkLook(c *mc.C, i *img, sys *pyinspect.ImageFS, name string) {
	want, ok := i.look(name)
	got, err := sys.LookPath(name)
	switch {
	case !ok && err == nil:
		c.Failf("LookPath(%q) = %q, want an error", name, got)
	case ok && err != nil:
		c.Failf("LookPath(%q): %v; want %q", name, err, want)
	case ok && path.Clean(got) != path.Clean(want):
		c.Failf("LookPath(%q) = %q, want %q", name, got, want)
	case !ok && got != "":
		c.Failf("LookPath(%q) = %q together with an error", name, got)
	}
	if ok {
		c.AddOutcome(path.Clean(want))
	} else {
		c.AddOutcome("error")
	}
}

func (i *img) shebangs(name string) (console, graphical string, ok bool) {
	generic, ok := i.look(name)
	if !ok {
		return "", "", false
	}
	console, graphical = generic, generic
	dir, base := path.Split(generic)
	if strings.HasPrefix(base, "pythonw") {
		if sib := dir + "python" + base[7:]; i.executable(sib) {
			console = sib
		}
	} else if strings.HasPrefix(base, "python") {
		if sib := dir + "pythonw" + base[6:]; i.executable(sib) {
			graphical = sib
		}
	}
	return console, graphical, true
}

// a state says what there is for the name in one directory of PATH.
type state struct {
	name string
	mk   func(dir, name string, l [][]ltar.Ent) // adds to the two layers
}

func add(l [][]ltar.Ent, n int, e ...ltar.Ent) { l[n] = append(l[n], e...) }

func states() []state {
	one := func(name string, e ...func(p string) ltar.Ent) state {
		return state{name, func(dir, name string, l [][]ltar.Ent) {
			add(l, 0, dirE(dir))
			for _, e := range e {
				add(l, 0, e(dir+"/"+name))
			}
		}}
	}
	f := func(mode int64) func(string) ltar.Ent { return func(p string) ltar.Ent { return fileE(p, mode) } }
	ln := func(t string) func(string) ltar.Ent {
		return func(p string) ltar.Ent { return lnkE(p, strings.ReplaceAll(t, "$", path.Base(p))) }
	}
	typ := func(t byte, mode int64) func(string) ltar.Ent { return func(p string) ltar.Ent { return ent(t, p, mode) } }
	two := func(name string, f func(p string, l [][]ltar.Ent)) state {
		return state{name, func(dir, name string, l [][]ltar.Ent) {
			add(l, 0, dirE(dir))
			f(dir+"/"+name, l)
		}}
	}
	ret := []state{
		one("absent"),
		one("exec", f(0o755)),
		one("dir", func(p string) ltar.Ent { return ent(tar.TypeDir, p+"/", 0o755) }),
		one("nonexec", f(0o644)),
		one("u+x", f(0o100)),
		one("g+x", f(0o010)),
		one("o+x", f(0o001)),
		one("mode0", f(0)),
		one("setuid-nonexec", f(0o7644)),
		one("setuid-exec", f(0o4755)),
		one("->abs", ln("/opt/exec")),
		one("->rel", ln("../opt/exec")),
		one("->nonexec", ln("/opt/nonexec")),
		one("->dir", ln("/opt/dir")),
		one("->dangling", ln("/opt/missing")),
		one("->self", ln("$")),
		one("->chain", ln("../opt/chain1")),
		one("->through-dirlink", ln("/optlink/exec")),
		one("->above-root", ln("../../../../opt/exec")),
		one("->below-file", ln("/opt/exec/x")),
		one("->whiteout", ln("/opt/deleted")),
		one("->parent-of-link", ln("/deeplink/../up")),
		one("hardlink", func(p string) ltar.Ent { return hardE(p, "opt/exec", 0o755) }),
		one("hardlink-nonexec", func(p string) ltar.Ent { return hardE(p, "opt/nonexec", 0o644) }),
		one("fifo", typ(tar.TypeFifo, 0o755)),
		two("deleted", func(p string, l [][]ltar.Ent) {
			add(l, 0, fileE(p, 0o755))
			add(l, 1, ent(tar.TypeReg, path.Dir(p)+"/.wh."+path.Base(p), 0o644))
		}),
		two("opaque", func(p string, l [][]ltar.Ent) {
			add(l, 0, fileE(p, 0o755))
			add(l, 1, ent(tar.TypeReg, path.Dir(p)+"/.wh..wh..opq", 0o644))
		}),
		two("later-nonexec", func(p string, l [][]ltar.Ent) {
			add(l, 0, fileE(p, 0o755))
			add(l, 1, fileE(p, 0o644))
		}),
		two("later-exec", func(p string, l [][]ltar.Ent) {
			add(l, 0, fileE(p, 0o644))
			add(l, 1, fileE(p, 0o755))
		}),
		two("later-added", func(p string, l [][]ltar.Ent) { add(l, 1, fileE(p, 0o755)) }),
		two("exec-to-dir", func(p string, l [][]ltar.Ent) {
			add(l, 0, fileE(p, 0o755))
			add(l, 1, ent(tar.TypeDir, p+"/", 0o755))
		}),
		two("dir-to-exec", func(p string, l [][]ltar.Ent) {
			add(l, 0, ent(tar.TypeDir, p+"/", 0o755), fileE(p+"/x", 0o644))
			add(l, 1, fileE(p, 0o755))
		}),
		{"no-dir", func(dir, name string, l [][]ltar.Ent) {}},
		{"dir-is-file", func(dir, name string, l [][]ltar.Ent) { add(l, 0, fileE(dir, 0o755)) }},
		{"dir-implied", func(dir, name string, l [][]ltar.Ent) { add(l, 0, fileE(dir+"/"+name, 0o755)) }},
		{"dir-link", func(dir, name string, l [][]ltar.Ent) {
			add(l, 0, dirE("real-"+dir), fileE("real-"+dir+"/"+name, 0o755), lnkE(dir, "real-"+dir))
		}},
		{"dir-link-dangling", func(dir, name string, l [][]ltar.Ent) { add(l, 0, lnkE(dir, "/nowhere")) }},
		{"dir-link-loop", func(dir, name string, l [][]ltar.Ent) { add(l, 0, lnkE(dir, dir)) }},
		{"dir-deleted", func(dir, name string, l [][]ltar.Ent) {
			add(l, 0, dirE(dir), fileE(dir+"/"+name, 0o755))
			add(l, 1, ent(tar.TypeReg, ".wh."+dir, 0o644))
		}},
		{"dir-to-file", func(dir, name string, l [][]ltar.Ent) {
			add(l, 0, dirE(dir), fileE(dir+"/"+name, 0o755))
			add(l, 1, fileE(dir, 0o755))
		}},
	}
	return ret
}

// common is what every image has.
func common() [][]ltar.Ent {
	return [][]ltar.Ent{
		{
			dirE("opt"), fileE("opt/exec", 0o755), fileE("opt/nonexec", 0o644), dirE("opt/dir"), lnkE("opt/chain1", "chain2"),
			lnkE("opt/chain2", "/optlink/chain3"), lnkE("opt/chain3", "exec"), lnkE("optlink", "opt"), fileE("opt/deleted", 0o755),
			dirE("deep"), dirE("deep/er"), lnkE("deeplink", "deep/er"), fileE("deep/up", 0o755), fileE("up", 0o644),
		},
		{ent(tar.TypeReg, "opt/.wh.deleted", 0o644)},
	}
}

func c26body(t *mc.T) {
	sts := states()
	st3 := sts
	if !t.Thorough() {
		st3 = sts[:len(sts)*3/4]
	}
	imgFor := func(dirs []string, pick []state, name string) *img {
		l := common()
		for n, s := range pick {
			s.mk(dirs[n], name, l)
		}
		return mkimg(l, []string{"A=b", "PATHX=/no", "XPATH=/opt", "PATH=/" + strings.Join(dirs[:len(pick)], ":/"), "Z="}, "/opt")
	}
	desc := func(i *img, names ...string) func() string {
		return func() string { return fmt.Sprintf("%v lookup %q", i, names) }
	}

	t.Section("candidates", fmt.Sprintf("all states of the name in 1 and 2 PATH directories (%d states), and in 3 (%d states)", len(sts), len(st3)))
	dirs := []string{"d1", "d2", "d3"}
	run := func(pick []state) {
		if !t.Mine() {
			return
		}
		i := imgFor(dirs, pick, "python3")
		t.Run(desc(i, "python3"), func(c *mc.C) {
			sys := i.fs()
			want, ok := i.look("python3")
			c.Outcome(fmt.Sprint(want, ok))
			checkLook(c, i, sys, "python3")
			for n := range pick {
				checkLook(c, i, sys, "/"+dirs[n]+"/python3")
				checkLook(c, i, sys, "../"+dirs[n]+"/python3")
			}
			c.Inner(2 * len(pick))
			checkLook(c, i, sys, "python3") // again: lookups don't change anything
		})
	}
	for _, a := range sts {
		run([]state{a})
	}
	for _, a := range sts {
		for _, b := range sts {
			run([]state{a, b})
		}
	}
	for _, a := range st3 {
		for _, b := range st3 {
			for _, d := range st3 {
				run([]state{a, b, d})
			}
		}
	}

	nel := t.Pick(3, 4)
	elems := []string{"", ".", "d1", "./d1", "/d1", "/d1/", "//d2", "/d2/../d1", "../d2", "/missing", "/file", "/wd", "lnk", "/lnk", " /d1"}
	wds := []string{"", "/", "/wd", "wd", "/wd/", "/wd/d1", "/missing", "/lnk", "//wd", "/file"}
	t.Section("paths", fmt.Sprintf("PATH of up to %d elements out of %d (empty, relative, unclean, missing) x %d working directories", nel, len(elems), len(wds)))
	var seqs [][]string
	var gen func(p []string)
	gen = func(p []string) {
		if len(p) > 0 && !(len(p) == 1 && p[0] == "") {
			seqs = append(seqs, append([]string(nil), p...))
		}
		if len(p) < nel {
			for _, e := range elems {
				gen(append(p, e))
			}
		}
	}
	gen(nil)
	for _, wd := range wds {
		for _, seq := range seqs {
			if !t.Mine() {
				continue
			}
			i := mkimg([][]ltar.Ent{{
				dirE("d1"), dirE("d2"), dirE("wd"), dirE("wd/d1"), fileE("d1/a", 0o755), fileE("d2/b", 0o755), fileE("wd/c", 0o755),
				fileE("wd/d1/d", 0o755), fileE("file", 0o755), fileE("d1/m", 0o644), fileE("d2/m", 0o755), fileE("wd/m", 0o755), fileE("e", 0o755),
				lnkE("lnk", "d2"), lnkE("wd/lnk", "../d1"), fileE("d1/file", 0o755),
			}}, []string{"X=1", "PATH=" + strings.Join(seq, ":")}, wd)
			names := []string{"a", "b", "c", "d", "e", "m", "file", "d1", "zz"}
			t.Run(desc(i, names...), func(c *mc.C) {
				sys := i.fs()
				out := ""
				for _, n := range names {
					w, _ := i.look(n)
					out += w + " "
					checkLook(c, i, sys, n)
				}
				c.Outcome(out)
				c.Inner(len(names) - 1)
			})
		}
	}

	c26lengths(t)
	c26words(t)

	depth := t.Pick(4, 5)
	comps := []string{"", ".", "..", "d1", "x", "n", "lnk", "loop", "sub"}
	t.Section("names", fmt.Sprintf("names of up to %d components out of %d, absolute and relative, x %d working directories, for lookup and stat", depth, len(comps), 4))
	for _, wd := range []string{"", "/d1", "d1/sub", "/lnk"} {
		i := mkimg([][]ltar.Ent{{
			dirE("."), dirE("d1"), fileE("x", 0o755), fileE("n", 0o644), fileE("d1/x", 0o755), fileE("d1/n", 0o600), dirE("d1/sub"), lnkE("d1/lnk", "sub/x"),
			fileE("d1/sub/x", 0o711), lnkE("lnk", "d1"), lnkE("loop", "loop2"), lnkE("loop2", "loop"), dirE("sub"), lnkE("sub/x", "../d1/n"),
			lnkE("d1/sub/lnk", "/d1"), hardE("d1/sub/n", "d1/x", 0o755),
		}}, []string{"PATH=/nowhere"}, wd)
		sys := i.fs()
		var rec func(p []string)
		rec = func(p []string) {
			if len(p) > 1 {
				name := strings.Join(p, "/")
				if strings.TrimLeft(name, "/") != "" && t.Mine() {
					t.Run(desc(i, name), func(c *mc.C) { checkName(c, i, sys, name) })
				}
			}
			if len(p) < depth+1 {
				for _, e := range comps {
					if len(p) > 0 || e != "" {
						rec(append(p[:len(p):len(p)], e))
					}
				}
			}
		}
		rec(nil)
		rec([]string{""})
	}

	t.Section("stat", "ownership of everything of several images, with and without a described root, after every number of layers")
	base := [][]ltar.Ent{
		{dirE("usr"), dirE("usr/lib"), dirE("usr/lib/python3"), fileE("usr/lib/f", 0o644), lnkE("lib", "usr/lib"), lnkE("abs", "/usr/lib/python3"),
			lnkE("lnk2", "abs"), hardE("usr/h", "usr/lib/f", 0o644), lnkE("dang", "none"), lnkE("s", "s")},
		{dirE("usr/lib"), lnkE("abs", "/usr")},
		{ent(tar.TypeReg, "usr/lib/.wh.python3", 0o644), dirE("none"), fileE("usr/h", 0o640)},
		{dirE("."), dirE("usr/lib/python3"), ent(tar.TypeReg, ".wh.lib", 0), fileE("usr/implied/f", 0o644)},
	}
	perms := [][]int{{0}, {0, 1}, {0, 2}, {0, 3}, {0, 1, 2}, {0, 1, 3}, {0, 2, 1}, {0, 2, 3}, {0, 3, 1}, {0, 3, 2}, {0, 1, 2, 3}, {0, 3, 2, 1}, {0, 2, 3, 1}, {0, 2, 1, 3}, {3, 0, 1, 2}, {3}, {3, 0}}
	for _, perm := range perms {
		for _, q := range []string{"/", "/.", "//", "/usr", "/usr/", "/usr/.", "/usr/..", "/usr/lib", "/usr/lib/python3", "/lib", "/lib/", "/lib/python3", "/lib/f", "/lib/f/", "/lib/f/.", "/abs",
			"/lnk2", "/lnk2/", "/usr/h", "/dang", "/s", "/s/x", "/none", "/missing", "/missing/..", "/usr/implied/f", "/usr/../lib", "/usr//lib", "usr", "", ".", "./usr", "/.wh.lib", "/usr/lib/.wh.python3"} {
			if !t.Mine() {
				continue
			}
			var l [][]ltar.Ent
			for _, n := range perm {
				l = append(l, append([]ltar.Ent(nil), base[n]...))
			}
			i := mkimg(l, []string{"PATH=/usr"}, "")
			q := q
			t.Run(func() string { return fmt.Sprintf("layers %v of the stat corpus, Stat(%q)", perm, q) }, func(c *mc.C) { checkStat(c, i, i.fs(), q) })
		}
	}

	gens := []string{"python3", "pythonw3", "python", "pythonw", "pypy3", "python3.8", "xpython3", "/d1/python3", "/d1/pythonw3", "d1/python3", "./d1/../d2/pythonw3", "/d2//python3", "pythonw3/x", "pythonnogil", "pythonwnogil", "pythonw3w", "python3w"}
	sib := []string{"absent", "exec", "nonexec", "dir", "->abs", "->dangling", "later-exec", "deleted", "o+x"}
	t.Section("shebangs", fmt.Sprintf("%d interpreter names x %d states each of both siblings in 2 directories", len(gens), len(sib)))
	byName := map[string]state{}
	for _, s := range sts {
		byName[s.name] = s
	}
	var sel func(pick []state)
	nsib := t.Pick(5, len(sib))
	sel = func(pick []state) {
		if len(pick) < 4 {
			k := len(sib)
			if len(pick) >= 2 {
				k = nsib
			}
			for _, n := range sib[:k] {
				sel(append(pick[:len(pick):len(pick)], byName[n]))
			}
			return
		}
		if !t.Mine() {
			return
		}
		l := common()
		pick[0].mk("d1", "python3", l)
		pick[1].mk("d1", "pythonw3", l)
		pick[2].mk("d2", "python3", l)
		pick[3].mk("d2", "pythonw3", l)
		add(l, 0, fileE("d1/pypy3", 0o755), fileE("d2/xpython3", 0o755), fileE("d2/xpythonw3", 0o755), fileE("d2/python", 0o755), fileE("d1/pythonw", 0o755),
			fileE("d2/python3.8", 0o755), fileE("d2/pythonw3.8", 0o755), fileE("d1/pypyw3", 0o755), fileE("d1/pythonnogil", 0o755), fileE("d1/pythonwnogil", 0o755), fileE("d2/python3w", 0o755), fileE("d2/pythonw3w", 0o755))
		i := mkimg(l, []string{"PATH=/d1:/d2"}, "")
		t.Run(func() string { return fmt.Sprintf("d1: python3 %s, pythonw3 %s; d2: python3 %s, pythonw3 %s", pick[0].name, pick[1].name, pick[2].name, pick[3].name) },
			func(c *mc.C) {
				sys := i.fs()
				out := ""
				for _, g := range gens {
					wc, wg, ok := i.shebangs(g)
					gc, gg, err := pyinspect.Shebangs(sys, g)
					out += fmt.Sprintf("%s %s;", wc, wg)
					if ok != (err == nil) {
						c.Failf("Shebangs(%q): want %q, %q (%v), got error %v", g, wc, wg, ok, err)
					} else if ok && (path.Clean(gc) != path.Clean(wc) || path.Clean(gg) != path.Clean(wg)) {
						c.Failf("Shebangs(%q) = %q, %q; want %q, %q", g, gc, gg, wc, wg)
					}
				}
				c.Outcome(out)
				c.Inner(len(gens) - 1)
			})
	}
	sel(nil)

	t.Section("no PATH", "images that set no PATH, or an empty one: names with a slash; a bare name is not found, or found as an executable")
	for k, env := range [][]string{nil, {}, {""}, {"A=b"}, {"PATH"}, {"PATHX=/bin"}, {"path=/bin"}, {"PATH="}, {"X=PATH=/bin"}} {
		for _, wd := range []string{"", "/", "/opt", "opt"} {
			k, env, wd := k, env, wd
			t.Case(func() string { return fmt.Sprintf("env %q wd %q", env, wd) }, func(c *mc.C) {
				i := mkimg([][]ltar.Ent{{dirE("bin"), fileE("bin/python3", 0o755), fileE("opt/python3", 0o755), fileE("python3", 0o755), fileE("only", 0o644), fileE("opt/sub/p", 0o755)}}, env, wd)
				sys := i.fs()
				for _, name := range []string{"/bin/python3", "./python3", "sub/p", "/only", "bin/python3", "../bin/python3"} {
					checkLook(c, i, sys, name)
				}
				checkStat(c, i, sys, "/bin/python3")
				for _, name := range []string{"python3", "only", "p", "nothing"} {
					if got, err := sys.LookPath(name); err == nil && (path.Base(got) != name || !i.executable(got)) {
						c.Failf("LookPath(%q) = %q", name, got)
					}
				}
				c.Outcome(fmt.Sprint(k, wd))
			})
		}
	}

	t.Section("faults", "an image whose config, layer list, or one of whose layers (at every truncation point) cannot be read")
	good := mkimg([][]ltar.Ent{{dirE("bin"), fileE("bin/python3", 0o755)}, {fileE("bin/other", 0o755)}}, []string{"PATH=/bin"}, "")
	im, err := good.build()
	if err != nil {
		panic(err)
	}
	fault := func(name string, i ociv1.Image) {
		t.Case(func() string { return name }, func(c *mc.C) {
			sys := &pyinspect.ImageFS{Image: i}
			c.Outcome(name)
			for n := 0; n < 2; n++ {
				if p, err := sys.LookPath("python3"); err == nil {
					c.Failf("LookPath call %d: found %q", n, p)
				}
				if _, err := sys.Stat("/bin/python3"); err == nil {
					c.Failf("Stat call %d: succeeded", n)
				}
				if _, _, err := pyinspect.Shebangs(sys, "/bin/python3"); err == nil {
					c.Failf("Shebangs call %d: succeeded", n)
				}
			}
		})
	}
	fault("config error", badImage{Image: im, cfg: errors.New("injected")})
	fault("layers error", badImage{Image: im, lay: errors.New("injected")})
	ls, _ := im.Layers()
	for n := range ls {
		fault(fmt.Sprintf("layer %d cannot be opened", n), badImage{Image: im, layers: replace(ls, n, badLayer{Layer: ls[n], n: -1})})
		fault(fmt.Sprintf("layer %d close error", n), badImage{Image: im, layers: replace(ls, n, badLayer{Layer: ls[n], n: 0})})
		for k := 0; k < 1024; k += t.Pick(31, 1) {
			fault(fmt.Sprintf("layer %d read error at %d", n, k), badImage{Image: im, layers: replace(ls, n, badLayer{Layer: ls[n], n: k})})
		}
	}
}

func replace(ls []ociv1.Layer, n int, l ociv1.Layer) []ociv1.Layer {
	ret := append([]ociv1.Layer(nil), ls...)
	ret[n] = l
	return ret
}

type badImage struct {
	ociv1.Image
	cfg, lay error
	layers   []ociv1.Layer
}

func (b badImage) ConfigFile() (*ociv1.ConfigFile, error) {
	if b.cfg != nil {
		return nil, b.cfg
	}
	return b.Image.ConfigFile()
}
func (b badImage) RawConfigFile() ([]byte, error) {
	if b.cfg != nil {
		return nil, b.cfg
	}
	return b.Image.RawConfigFile()
}
func (b badImage) Layers() ([]ociv1.Layer, error) {
	if b.lay != nil {
		return nil, b.lay
	}
	if b.layers != nil {
		return b.layers, nil
	}
	return b.Image.Layers()
}

type badLayer struct {
	ociv1.Layer
	n int // bytes before the error
}

func (l badLayer) Uncompressed() (io.ReadCloser, error) {
	if l.n < 0 {
		return nil, errors.New("injected")
	}
	r, err := l.Layer.Uncompressed()
	if err != nil {
		return nil, err
	}
	return &failing{ReadCloser: r, n: l.n}, nil
}
func (l badLayer) Compressed() (io.ReadCloser, error) { return l.Uncompressed() }

type failing struct {
	io.ReadCloser
	n int
}

func (f *failing) Read(p []byte) (int, error) {
	if f.n == 0 {
		return 0, errors.New("injected")
	}
	if len(p) > f.n {
		p = p[:f.n]
	}
	n, err := f.ReadCloser.Read(p)
	f.n -= n
	return n, err
}

// dotdotAfterLink reports whether a path goes up from a symlink (or something that is not there), where
// lexical and physical resolution may differ.
func (i *img) dotdotAfterLink(abs string) bool {
	cs := strings.Split(abs, "/")
	for n, e := range cs {
		if e != ".." {
			continue
		}
		pre := path.Clean(strings.Join(cs[:n], "/"))
		for p := pre; p != "/" && p != "."; p = path.Dir(p) {
			ino, err := i.model.Lookup(strings.TrimPrefix(p, "/"), false)
			if err != nil || ino.Type != tar.TypeDir {
				return true
			}
		}
	}
	return false
}

func checkName(c *mc.C, i *img, sys *pyinspect.ImageFS, name string) {
	abs := name
	if !strings.HasPrefix(name, "/") {
		abs = i.workdir() + "/" + name
		if strings.HasSuffix(name, "/") || strings.HasSuffix(name, "/.") || strings.HasSuffix(name, "/..") {
			c.Trivial()
			return
		}
	}
	if i.dotdotAfterLink(abs) {
		c.Trivial()
		return
	}
	w, ok := i.look(name)
	c.Outcome(fmt.Sprint(path.Clean(w), ok))
	checkLook(c, i, sys, name)
	checkStat(c, i, sys, name)
	c.Inner(1)
}

func checkStat(c *mc.C, i *img, sys *pyinspect.ImageFS, name string) {
	fi, err := sys.Stat(name)
	if !strings.HasPrefix(name, "/") {
		c.Outcome("relative")
		if err == nil {
			c.Failf("Stat(%q) of a relative path succeeded", name)
		}
		return
	}
	if i.dotdotAfterLink(name) {
		c.Trivial()
		return
	}
	n, lerr := i.get(name)
	if lerr != nil {
		c.Outcome("error")
		if err == nil {
			c.Failf("Stat(%q) succeeded, want error: %v", name, lerr)
		}
		return
	}
	if n.Implicit {
		c.Trivial()
		return
	}
	if err != nil {
		c.Failf("Stat(%q): %v", name, err)
		return
	}
	h := n.Hdr
	c.Outcome(fmt.Sprint(name, h.Uid))
	if fi.UID() != h.Uid || fi.GID() != h.Gid || fi.UName() != h.Uname || fi.GName() != h.Gname {
		c.Failf("Stat(%q): owner %d:%d %s:%s, want %d:%d %s:%s", name, fi.UID(), fi.GID(), fi.UName(), fi.GName(), h.Uid, h.Gid, h.Uname, h.Gname)
	}
	if want := h.FileInfo().Mode(); fi.Mode() != want || fi.IsDir() != want.IsDir() {
		c.Failf("Stat(%q): mode %v, want %v", name, fi.Mode(), want)
	}
	if n.Type == tar.TypeReg && fi.Size() != int64(len(n.Body)) {
		c.Failf("Stat(%q): size %d, want %d", name, fi.Size(), len(n.Body))
	}
}
