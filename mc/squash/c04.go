package main

import (
	"archive/tar"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c04 = mc.Suite{
	ID:    "C04",
	Level: "model_checking",
	Rule: "all layer histories over the C01 alphabet, loaded by the real code; every path of the universe is opened, stat'd, read and listed and compared with " +
		"the reference application of the layers; all sequences of handle operations up to the bound, against a reference handle",
	Assumptions: []string{
		"a directory that no layer describes has no metadata to report (Stat may fail on it, but not with 'does not exist')",
	},
	Body: runC04,
}

// universe are the paths that are queried.
func universe(stack []layerSpec) []string {
	set := map[string]bool{".": true, "nope": true, "nope/x": true, ".wh..wh..opq": true, ".wh.d": true}
	dirs := map[string]bool{"": true}
	bases := map[string]bool{}
	for _, l := range stack {
		for _, e := range l {
			p := path.Clean(e.name)
			set[p] = true
			for q := path.Dir(p); q != "."; q = path.Dir(q) {
				set[q] = true
				dirs[q] = true
			}
			bases[path.Base(p)] = true
			bases[strings.TrimPrefix(path.Base(p), ".wh.")] = true
			if e.typ == tar.TypeSymlink {
				dirs[p] = true
			}
			if e.typ == tar.TypeSymlink || e.typ == tar.TypeLink {
				lp := path.Clean(strings.TrimLeft(e.link, "/."))
				if fs.ValidPath(lp) {
					set[lp] = true
					dirs[lp] = true
				}
			}
			if e.typ == tar.TypeDir {
				dirs[p] = true
			}
		}
	}
	for dd := range dirs {
		for b := range bases {
			set[path.Join(dd, b)] = true
			set[path.Join(dd, ".wh."+b)] = true
		}
		set[path.Join(dd, ".wh..wh..opq")] = true
	}
	var ret []string
	for p := range set {
		if fs.ValidPath(p) && p != ".wh." {
			ret = append(ret, p)
		}
	}
	sort.Strings(ret)
	return ret
}

func fileMode(h *tar.Header) fs.FileMode { return h.FileInfo().Mode() }

func c04view(c *mc.C, bs []*built, paths []string, omit bool) {
	ref := ltar.NewFS()
	for _, b := range bs {
		if err := ref.Apply(b.ents, false); err != nil {
			c.Trivial()
			return
		}
	}
	var layers []ociv1.Layer
	for _, b := range bs {
		layers = append(layers, ltar.RawLayer(b.raw))
	}
	v, err := squash.Load(layers, omit)
	if err != nil {
		c.Failf("Load: %v", err)
		return
	}
	c.Outcome(ref.String())
	c.State(ref.String())
	for round := 0; round < 2; round++ { // twice, as looking must not change anything
		for _, p := range paths {
			c.Transitions(1)
			want, werr := ref.Lookup(p, true)
			file, err := v.Open(p)
			if werr != nil {
				if err == nil {
					c.Failf("opening %q succeeded; want error: %v", p, werr)
					continue
				}
				if _, ok := werr.(ltar.ErrNotExist); ok && !errors.Is(err, fs.ErrNotExist) {
					c.Failf("opening %q: want a does-not-exist error, got %v", p, err)
				}
				continue
			}
			if err != nil {
				c.Failf("opening %q: %v", p, err)
				continue
			}
			info, serr := file.Stat()
			if want.Implicit {
				if serr == nil && !info.IsDir() {
					c.Failf("%q: stat says %v; want a directory", p, info.Mode())
				}
				if serr != nil && errors.Is(serr, fs.ErrNotExist) {
					c.Failf("%q: stat says that it does not exist", p)
				}
			} else {
				switch {
				case serr != nil:
					c.Failf("%q: stat: %v", p, serr)
				case info.Name() != path.Base(p):
					c.Failf("%q: stat: name %q", p, info.Name())
				case info.Mode() != fileMode(want.Hdr):
					c.Failf("%q: stat: mode %v, want %v", p, info.Mode(), fileMode(want.Hdr))
				case !info.ModTime().Equal(want.Hdr.ModTime):
					c.Failf("%q: stat: mtime %v, want %v", p, info.ModTime(), want.Hdr.ModTime)
				case info.Size() != int64(len(want.Body)):
					c.Failf("%q: stat: size %d, want %d", p, info.Size(), len(want.Body))
				default:
					if hd, ok := info.Sys().(*tar.Header); ok && ltar.Meta(hd) != want.Meta {
						c.Failf("%q: stat: %s, want %s", p, ltar.Meta(hd), want.Meta)
					}
				}
			}
			if want.Type == tar.TypeDir {
				if n, err := file.Read(make([]byte, 4)); err == nil || err == io.EOF || n != 0 {
					c.Failf("%q: reading a directory gives %d, %v", p, n, err)
				}
				rd, ok := file.(fs.ReadDirFile)
				if !ok {
					c.Failf("%q: no ReadDir", p)
					continue
				}
				ents, err := rd.ReadDir(-1)
				if err != nil {
					c.Failf("%q: listing: %v", p, err)
					continue
				}
				c04list(c, p, want, ents)
			} else {
				body, err := io.ReadAll(file)
				if omit && want.Type == tar.TypeReg && len(want.Body) > 0 {
					if err == nil {
						c.Failf("%q: reading a file whose content was omitted gives %q", p, body)
					}
				} else if err != nil || string(body) != want.Body {
					c.Failf("%q: content %q (%v), want %q", p, body, err, want.Body)
				}
				if rd, ok := file.(fs.ReadDirFile); ok {
					if _, err := rd.ReadDir(-1); err == nil {
						c.Failf("%q: listing a non-directory succeeded", p)
					}
				}
			}
			if err := file.Close(); err != nil {
				c.Failf("%q: close: %v", p, err)
			}
		}
		if c.Failed() {
			return
		}
	}
	// walking everything
	seen := 0
	err = fs.WalkDir(v, ".", func(p string, de fs.DirEntry, err error) error {
		if err != nil && p == "." && ref.Root.Implicit {
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}
		seen++
		if n, err := ref.Lookup(p, false); err != nil || (n.Type == tar.TypeDir) != de.IsDir() {
			c.Failf("walk: %q is not as in the reference (%v)", p, err)
		}
		return nil
	})
	if err != nil {
		c.Failf("walk: %v", err)
	}
	if want := count(ref.Root); !ref.Root.Implicit && seen != want {
		c.Failf("walk visited %d objects, the reference has %d", seen, want)
	}
}

func count(n *ltar.Inode) int {
	ret := 1
	for _, k := range n.Kids {
		ret += count(k)
	}
	return ret
}

func c04list(c *mc.C, p string, want *ltar.Inode, ents []fs.DirEntry) {
	var got []string
	for _, e := range ents {
		got = append(got, e.Name())
	}
	if strings.Join(got, "\x00") != strings.Join(want.Names(), "\x00") {
		c.Failf("%q: listing %q, want %q", p, got, want.Names())
		return
	}
	for _, e := range ents {
		k := want.Kids[e.Name()]
		wantType := fs.ModeDir
		if !k.Implicit {
			wantType = fileMode(k.Hdr).Type()
		}
		if e.Type() != wantType || e.IsDir() != wantType.IsDir() {
			c.Failf("%q: entry %q has type %v, want %v", p, e.Name(), e.Type(), wantType)
		}
		info, err := e.Info()
		if k.Implicit {
			continue
		}
		if err != nil {
			c.Failf("%q: entry %q: info: %v", p, e.Name(), err)
			continue
		}
		if info.Name() != e.Name() || info.Mode() != fileMode(k.Hdr) || info.Size() != int64(len(k.Body)) || !info.ModTime().Equal(k.Hdr.ModTime) {
			c.Failf("%q: entry %q: info %q %v %d %v", p, e.Name(), info.Name(), info.Mode(), info.Size(), info.ModTime())
		}
	}
}

func runC04(t *mc.T) {
	ex := func(name string, sets [][]layerSpec, b string, omit bool) {
		t.Section(name, b)
		histories(t, sets, func(stack []layerSpec) {
			if !t.Mine() {
				return
			}
			st := append([]layerSpec(nil), stack...)
			t.Run(func() string { return stackString(st) }, func(c *mc.C) { c04view(c, buildStack(st), universe(st), omit) })
		})
	}
	alpha := append(append([]elem(nil), alphabet...), s("d/y", "../l/x"), s("k", "k"), s("d/t", "/nope/x"), s("k", ".wh.d"), s("m", "l/../e"), elem{tar.TypeFifo, "e", ""})
	one := single(alpha)
	ex("depth2", rep(one, 2), bounds("all 2-layer stacks of %d single-entry layers", len(one)), false)
	ex("depth3", rep(one, 3), bounds("all 3-layer stacks of %d single-entry layers", len(one)), false)
	ex("depth2-omit", rep(one, 2), bounds("the same with omitted content, %d", len(one)), true)
	cs := single(append(append([]elem(nil), core...), s("d/t", "x"), s("k", "l/s"), s("d/s", "..")))
	ex("core3", rep(cs, 3), bounds("all 3-layer stacks of %d core layers", len(cs)), false)
	ex("base+1", [][]layerSpec{{{d("."), d("d"), f("d/x"), f("d/y"), d("d/s"), f("d/s/z"), s("l", "d"), d("e"), f("e/w"), s("k", "d/x"), s("d/t", "gone")}}, one}, "populated base, one layer", false)
	ex("base+2", [][]layerSpec{{{d("."), d("d"), f("d/x"), f("d/y"), d("d/s"), f("d/s/z"), s("l", "d"), d("e"), f("e/w"), s("k", "d/x"), s("d/t", "gone")}}, one, one}, "populated base, two layers", false)
	if t.Thorough() {
		ex("core4", rep(cs, 4), bounds("all 4-layer stacks of %d core layers", len(cs)), false)
		ex("core5", rep(single(core), 5), bounds("all 5-layer stacks of %d core layers", len(core)), false)
		ex("pairs+1", [][]layerSpec{pairs(alpha), one}, "two-entry layer, single-entry layer", false)
	}

	shaped := func(c *mc.C, s shape, bs []*built) {
		set := map[string]bool{".": true}
		for _, l := range s.stack {
			for _, e := range l {
				if fs.ValidPath(e.name) {
					set[e.name] = true
					set[path.Dir(e.name)] = true
				}
			}
		}
		var paths []string
		for p := range set {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		c04view(c, bs, paths, len(paths)%2 == 0)
	}
	eachLevel(t, shaped)
	eachWord(t, wordShapes(), build, shaped)
	eachMarker(t, shaped)
	eachDialect(t, func(c *mc.C, s shape, bs, _ []*built) { shaped(c, s, bs) })
	eachLength(t, 1100, shaped)

	t.Section("invalid", "paths that are not valid fs.FS paths")
	for _, p := range []string{"", "/", "/d", "d/", "./d", "d/.", "d/..", "..", "../d", "d//x", "/d/x", "d/./x", "d/../d", "./", "d/x/"} {
		p := p
		t.Case(func() string { return fmt.Sprintf("%q", p) }, func(c *mc.C) {
			v, err := squash.Load([]ociv1.Layer{ltar.RawLayer(build(layerSpec{d("d"), f("d/x")}, 0).raw)}, false)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			_, err = v.Open(p)
			if !errors.Is(err, fs.ErrInvalid) {
				c.Failf("opening %q: want an invalid-path error, got %v", p, err)
			}
			var pe *fs.PathError
			if !errors.As(err, &pe) {
				c.Failf("opening %q: not a *PathError: %v", p, err)
			}
			c.Outcome("invalid")
		})
	}
	c04handles(t)
}

type op struct {
	kind byte // R read, D readdir, S stat, C close
	n    int
}

func (o op) String() string { return fmt.Sprintf("%c%d", o.kind, o.n) }

func sequences(ops []op, n int, fn func([]op)) {
	seq := make([]op, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			fn(seq)
			return
		}
		for _, o := range ops {
			seq[i] = o
			rec(i + 1)
		}
	}
	rec(0)
}

// refHandle is the reference file handle.
type refHandle struct {
	body   string
	names  []string
	dir    bool
	pos    int
	closed bool
}

// step performs an operation on both, and describes a difference.
func (r *refHandle) step(o op, file fs.File) string {
	switch o.kind {
	case 'S':
		if _, err := file.Stat(); err != nil && !r.closed {
			return fmt.Sprintf("stat: %v", err)
		}
	case 'C':
		err := file.Close()
		if (err != nil) != r.closed {
			return fmt.Sprintf("close: %v (already closed: %v)", err, r.closed)
		}
		r.closed = true
	case 'R':
		buf := make([]byte, o.n+1)
		for i := range buf {
			buf[i] = '#'
		}
		n, err := file.Read(buf[:o.n])
		if n < 0 || n > o.n || buf[o.n] != '#' {
			return fmt.Sprintf("read: %d bytes of %d", n, o.n)
		}
		if r.closed || r.dir {
			if err == nil || err == io.EOF || n != 0 {
				return fmt.Sprintf("read on a closed handle or directory: %d, %v", n, err)
			}
			return ""
		}
		if r.pos+n > len(r.body) || string(buf[:n]) != r.body[r.pos:r.pos+n] {
			return fmt.Sprintf("read at %d: %q, want %q", r.pos, buf[:n], r.body[r.pos:])
		}
		r.pos += n
		if err == io.EOF {
			if r.pos != len(r.body) {
				return fmt.Sprintf("EOF at %d of %d", r.pos, len(r.body))
			}
		} else if err != nil {
			return fmt.Sprintf("read: %v", err)
		} else if n == 0 && o.n > 0 {
			return "read: 0 bytes without an error"
		}
	case 'D':
		rd, ok := file.(fs.ReadDirFile)
		if !ok {
			return "no ReadDir"
		}
		ents, err := rd.ReadDir(o.n)
		if r.closed || !r.dir {
			if err == nil || len(ents) > 0 {
				return fmt.Sprintf("listing a closed handle or non-directory: %d entries, %v", len(ents), err)
			}
			return ""
		}
		rest := r.names[r.pos:]
		if o.n > 0 {
			if len(rest) == 0 {
				if len(ents) != 0 || err != io.EOF {
					return fmt.Sprintf("listing at the end: %d entries, %v; want EOF", len(ents), err)
				}
				return ""
			}
			if len(ents) == 0 || len(ents) > o.n || len(ents) > len(rest) {
				return fmt.Sprintf("listing %d at %d: %d entries, %v", o.n, r.pos, len(ents), err)
			}
			if err != nil && err != io.EOF {
				return fmt.Sprintf("listing: %v", err)
			}
		} else if err != nil || len(ents) != len(rest) {
			return fmt.Sprintf("listing the rest at %d: %d entries, %v; want %d", r.pos, len(ents), err, len(rest))
		}
		for i, e := range ents {
			if e.Name() != rest[i] {
				return fmt.Sprintf("listing at %d: %q, want %q", r.pos+i, e.Name(), rest[i])
			}
		}
		r.pos += len(ents)
	}
	return ""
}

func c04handles(t *mc.T) {
	var l1, l2 layerSpec
	l1 = append(l1, d("."), d("d0"), d("d1"), f("d1/a"), d("d3"), f("d3/c"), f("d3/x"), s("d3/b", "gone"), f("d3/w"), d("d4"), f("d4/1"), f("d4/2"), d("d4/3"), s("d4/4", "1"))
	l1 = append(l1, s("ld", "d3"), s("lf", "file5"))
	l2 = append(l2, f("d3/.wh.w"), d("d3/d"), f("d4/.wh..wh..opq"), f("d4/z"), f("d4/y"), f("d4/x"), f("d4/w"))
	b1, b2 := build(l1, 0), build(l2, 1)
	var files []ltar.Ent
	bodies := map[string]string{}
	for _, n := range []int{0, 1, 3, 5} {
		e := f(fmt.Sprintf("file%d", n)).ent(0)
		e.Body = []byte("abcdefgh"[:n])
		bodies[fmt.Sprintf("file%d", n)] = string(e.Body)
		files = append(files, e)
	}
	bodies["lf"] = bodies["file5"]
	layers := []ociv1.Layer{ltar.RawLayer(b1.raw), ltar.RawLayer(ltar.MustEncode(files)), ltar.RawLayer(b2.raw)}
	v, err := squash.Load(layers, false)
	if err != nil {
		t.Section("handles", "")
		t.Case(func() string { return "load" }, func(c *mc.C) { c.Failf("Load: %v", err) })
		return
	}
	mk := func(name string) *refHandle {
		if b, ok := bodies[name]; ok {
			return &refHandle{body: b}
		}
		names := map[string][]string{"d0": nil, "d1": {"a"}, "d3": {"b", "c", "d", "x"}, "ld": {"b", "c", "d", "x"}, "d4": {"w", "x", "y", "z"}}[name]
		return &refHandle{dir: true, names: names}
	}
	fileOps := []op{{'R', 0}, {'R', 1}, {'R', 2}, {'R', 9}, {'S', 0}, {'C', 0}, {'D', 1}}
	dirOps := []op{{'D', -1}, {'D', 0}, {'D', 1}, {'D', 2}, {'D', 9}, {'C', 0}, {'R', 1}, {'S', 0}}
	depth := t.Pick(5, 6)
	t.Section("handles", bounds("all sequences of %d operations on a file and on a directory handle (direct and through a symlink)", depth))
	for _, name := range []string{"file0", "file1", "file3", "file5", "lf", "d0", "d1", "d3", "ld", "d4"} {
		ops := fileOps
		if mk(name).dir {
			ops = dirOps
		}
		name := name
		sequences(ops, depth, func(seq []op) {
			if !t.Mine() {
				return
			}
			q := append([]op(nil), seq...)
			t.Run(func() string { return fmt.Sprintf("%s %v", name, q) }, func(c *mc.C) {
				file, err := v.Open(name)
				if err != nil {
					c.Failf("open: %v", err)
					return
				}
				r := mk(name)
				for i, o := range q {
					c.Transitions(1)
					if d := r.step(o, file); d != "" {
						c.Failf("step %d: %s", i, d)
						return
					}
				}
				c.Outcome(fmt.Sprintf("%s %d %v", name, r.pos, r.closed))
			})
		})
	}
	t.Section("two-handles", "all interleavings of 4 operations over two handles of the same file or directory")
	for _, name := range []string{"file3", "d3"} {
		ops := []op{{'R', 1}, {'R', 2}, {'C', 0}}
		if mk(name).dir {
			ops = []op{{'D', 1}, {'D', 2}, {'D', -1}, {'C', 0}}
		}
		name := name
		sequences(ops, 4, func(seq []op) {
			for mask := 0; mask < 16; mask++ {
				if !t.Mine() {
					continue
				}
				q := append([]op(nil), seq...)
				mask := mask
				t.Run(func() string { return fmt.Sprintf("%s %v who=%04b", name, q, mask) }, func(c *mc.C) {
					var hs [2]fs.File
					var rs [2]*refHandle
					for i := range hs {
						var err error
						if hs[i], err = v.Open(name); err != nil {
							c.Failf("open: %v", err)
							return
						}
						rs[i] = mk(name)
					}
					for i, o := range q {
						w := mask >> i & 1
						c.Transitions(1)
						if d := rs[w].step(o, hs[w]); d != "" {
							c.Failf("step %d: %s", i, d)
							return
						}
					}
					c.Outcome(fmt.Sprint(name, rs[0].pos, rs[1].pos))
				})
			}
		})
	}
	t.Section("sizes", "content sizes x buffer sizes")
	for _, n := range t.Sizes(0, 70000, []int64{0, 1, 2, 3, 31, 32, 33, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 65537}, "pkg/squash", "pkg/fsutil") {
		for _, bn := range []int{1, 2, 3, 7, 511, 512, 513, 4096, 32768, 100000} {
			n, bn := int(n), bn
			if n/bn > 5000 {
				continue
			}
			t.Case(func() string { return fmt.Sprintf("%d bytes by %d", n, bn) }, func(c *mc.C) {
				e := f("f").ent(0)
				e.Body = make([]byte, n)
				for i := range e.Body {
					e.Body[i] = byte(i*7 + i>>8)
				}
				v, err := squash.Load([]ociv1.Layer{ltar.RawLayer(ltar.MustEncode([]ltar.Ent{e}))}, false)
				if err != nil {
					c.Failf("load: %v", err)
					return
				}
				file, err := v.Open("f")
				if err != nil {
					c.Failf("open: %v", err)
					return
				}
				r := &refHandle{body: string(e.Body)}
				for i := 0; i <= n/bn+2; i++ {
					if d := r.step(op{'R', bn}, file); d != "" {
						c.Failf("%s", clipStr(d))
						return
					}
				}
				if r.pos != n {
					c.Failf("read %d bytes of %d", r.pos, n)
				}
				c.Outcome(fmt.Sprint(n, bn))
			})
		}
	}
}

func clipStr(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}
