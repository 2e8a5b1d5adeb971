package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/sirupsen/logrus"

	"github.com/datawire/dlib/dlog"
	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
	"github.com/datawire/ocibuild/verifmc/vmap"
)

var c07 = mc.Suite{
	ID:    "C07",
	Level: "model_checking",
	Rule: "the packages are built with every range over a map visiting the entries in an order chosen by the explorer, and a clock set by it; every input runs under 4 base orders of all ranges and every " +
		"1 (2) deviation(s) from them, at every step of every range; a case is non-trivial if at least one map with several entries was visited, or the environment differed",
	Assumptions: []string{
		"ranges over maps in the packages of the repository; those of the dependencies and the standard library are not reordered",
		"the byte-compiler is a stand-in whose output has the same contents every time, in any order and with any modification times",
		"error messages may differ, whether there is an error may not",
		"the clock may show in the layer where the wheel has no timestamps at all, unless SOURCE_DATE_EPOCH is set",
	},
	Body:     c07body,
	Deadline: 12 * time.Minute,
}

var ctx = func() context.Context {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(l))
}()

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// member is a file of a wheel.
type member struct{ name, data string }

const (
	info = "x-1.0.dist-info/"
	data = "x-1.0.data/"
)

// wheelBytes makes a wheel; "!" at the start of the name means executable.
func wheelBytes(t time.Time, ms []member) []byte {
	has := func(n string) bool {
		for _, m := range ms {
			if m.name == n {
				return true
			}
		}
		return false
	}
	if !has(info + "WHEEL") {
		ms = append(ms[:len(ms):len(ms)], member{info + "WHEEL", "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n"})
	}
	ms = append(ms[:len(ms):len(ms)], member{info + "METADATA", "Metadata-Version: 2.1\nName: x\nVersion: 1.0\n"})
	record := ""
	for _, m := range ms {
		h := sha256.Sum256([]byte(m.data))
		record += fmt.Sprintf("%s,sha256=%s,%d\n", strings.TrimPrefix(m.name, "!"), base64.RawURLEncoding.EncodeToString(h[:]), len(m.data))
	}
	ms = append(ms, member{info + "RECORD", record + info + "RECORD,,\n"})
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for i, m := range ms {
		mode := uint32(0o100644)
		if strings.HasPrefix(m.name, "!") {
			mode = 0o100755
		}
		h := &zip.FileHeader{Name: strings.TrimPrefix(m.name, "!"), Method: zip.Store, Modified: t.Add(-time.Duration(i) * time.Hour), ExternalAttrs: mode << 16, CreatorVersion: 3 << 8}
		fw, err := w.CreateHeader(h)
		must(err)
		_, err = io.WriteString(fw, m.data)
		must(err)
	}
	must(w.Close())
	return buf.Bytes()
}

type whl struct {
	name string
	ms   []member
}

var wheels = []whl{
	{"empty", nil},
	{"modules", []member{{"x/__init__.py", "1"}, {"x/a.py", "a"}, {"x/b.py", "b"}, {"x-y.py", "xy"}, {"x.py", "x"}, {"x/sub/c.py", "c"}, {"x/data.txt", ""}}},
	{"platlib", []member{{"x/a.so", "1"}, {info + "WHEEL", "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: false\nTag: py3-none-any\n"}, {data + "purelib/x/p.py", "p"}}},
	{"entry points", []member{{"x.py", "x"}, {info + "entry_points.txt", "[console_scripts]\na = x:a\nb = x:b.c\nc = x.y:c [extra]\nd = x:d\n[gui_scripts]\ne = x:e\nf = x:f\n[other]\ng = x:g\n"}}},
	{"console and gui", []member{{"x.py", "x"}, {info + "entry_points.txt", "[gui_scripts]\na = x:gui\nb = x:b\n[console_scripts]\na = x:con\nb = x:b\nc = x:c\n"}}},
	{"defaults", []member{{"x.py", "x"}, {info + "entry_points.txt", "[DEFAULT]\nd = x:d\ne = x:e\n[gui_scripts]\na = x:gui\n[console_scripts]\nd = x:other\nc = x:c\n[more]\nz = x:z\n"}}},
	{"interpolation", []member{{"x.py", "x"}, {info + "entry_points.txt", "[DEFAULT]\nmod = x\n[console_scripts]\na = %(mod)s:a\nb = x:b\n"}}},
	{"bad entry points", []member{{"x.py", "x"}, {info + "entry_points.txt", "[console_scripts]\na = x:a\nb = nonsense\nc/d = x:c\n= x:e\n"}}},
	{"entry point over script", []member{{data + "scripts/a", "#!python\nold"}, {data + "scripts/b", "#!pythonw -x\nb"}, {"!" + data + "scripts/c", "#!/bin/sh"}, {info + "entry_points.txt", "[console_scripts]\na = x:a\n[gui_scripts]\nb = x:b\n"}}},
	{"data", []member{{data + "data/bin/tool", "t"}, {data + "data/share/x", "x"}, {data + "headers/x.h", "h"}, {data + "platlib/x/p.so", "so"}, {data + "purelib/x/q.py", "q"}, {data + "scripts/s", "#!python\n"}}},
	{"collision pure and root", []member{{"x/a.py", "root"}, {data + "purelib/x/a.py", "purelib"}}},
	{"collision same content", []member{{"x/a.py", "same"}, {data + "purelib/x/a.py", "same"}}},
	{"collision of three", []member{{"x/a.py", "root"}, {data + "purelib/x/a.py", "purelib"}, {data + "platlib/x/a.py", "platlib"}, {data + "data/lib/x/a.py", "data"}}},
	{"collision scripts and data", []member{{data + "scripts/s", "#!python\nscripts"}, {data + "data/bin/s", "#!python\ndata"}, {data + "data/bin/t", "t"}}},
	{"collision file and directory", []member{{data + "data/lib/x", "a file"}, {"x/a.py", "in a directory"}}},
	{"collision with metadata", []member{{data + "purelib/" + info + "METADATA", "other"}, {data + "purelib/" + info + "INSTALLER", "me"}, {data + "data/lib/" + info + "RECORD", "fake"}}},
	{"collision with compiled", []member{{"x/a.py", "a"}, {"x/__pycache__/a.cpython-39.pyc", "shipped"}, {data + "purelib/x/__pycache__/a.cpython-39.pyc", "other"}}},
	{"metadata that is replaced", []member{{info + "INSTALLER", "pip"}, {info + "REQUESTED", ""}, {info + "direct_url.json", "{}"}, {info + "RECORD.jws", "sig"}}},
}

var plats = []python.Platform{
	{ConsoleShebang: "/usr/bin/python3", GraphicalShebang: "/usr/bin/pythonw", Scheme: python.Scheme{PureLib: "/usr/lib", PlatLib: "/usr/lib", Headers: "/usr/include", Scripts: "/usr/bin", Data: "/usr"}, UID: 7, GName: "g"},
	{ConsoleShebang: "/usr/bin/python3", GraphicalShebang: "/usr/bin/pythonw", Scheme: python.Scheme{PureLib: "/usr/lib", PlatLib: "/usr/lib64", Headers: "/usr/lib/x", Scripts: "/usr/lib", Data: "/usr/lib"}},
}

// compile is a stand-in for the byte-compiler: the order of its output and its times are up to the explorer.
func compile(_ context.Context, clamp time.Time, _ []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
	outs := map[string]fsutil.FileReference{}
	for _, f := range in {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		bs, err := io.ReadAll(r)
		_ = r.Close()
		if err != nil {
			return nil, err
		}
		d, b := path.Split(f.FullName())
		n := path.Join(d, "__pycache__", strings.TrimSuffix(b, ".py")+".cpython-39.pyc")
		body := fmt.Sprintf("compiled %s %s", f.FullName(), bs)
		h := &tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644, Size: int64(len(body)), ModTime: vmap.Now()}
		if h.ModTime.Before(clamp) {
			h.ModTime = clamp
		}
		outs[n] = &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: n, MContent: []byte(body)}
	}
	var ret []fsutil.FileReference
	for it, _, v := vmap.New(outs); it.Next(nil, &v); {
		ret = append(ret, v)
	}
	return ret, nil
}

func raw(l ociv1.Layer, err error) string {
	if err != nil {
		return "error"
	}
	r, err := l.Uncompressed()
	if err != nil {
		return "error reading: " + err.Error()
	}
	defer r.Close()
	bs, err := io.ReadAll(r)
	if err != nil {
		return "error reading: " + err.Error()
	}
	return string(bs)
}

func differ(a, b string) string {
	if a == "error" || b == "error" {
		return fmt.Sprintf("%.20q and %.20q", a, b)
	}
	ea, err1 := ltar.Decode([]byte(a))
	eb, err2 := ltar.Decode([]byte(b))
	if err1 != nil || err2 != nil {
		return fmt.Sprintf("%d and %d bytes", len(a), len(b))
	}
	var da, db []string
	for _, e := range ea {
		da = append(da, fmt.Sprintf("%s %c %o %d:%d %d %.200q", e.Hdr.Name, e.Hdr.Typeflag, e.Hdr.Mode, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.ModTime.Unix(), e.Body))
	}
	for _, e := range eb {
		db = append(db, fmt.Sprintf("%s %c %o %d:%d %d %.200q", e.Hdr.Name, e.Hdr.Typeflag, e.Hdr.Mode, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.ModTime.Unix(), e.Body))
	}
	for i := range da {
		if i >= len(db) || da[i] != db[i] {
			o := "nothing"
			if i < len(db) {
				o = db[i]
			}
			return fmt.Sprintf("entry %d: %s and %s", i, da[i], o)
		}
	}
	return fmt.Sprintf("%d and %d entries, %d and %d bytes", len(da), len(db), len(a), len(b))
}

// orders explores all orders of the ranges of build.
func orders(t *mc.T, name string, maxDev int, build func() string) {
	clocks := []time.Time{time.Unix(1700000000, 0), time.Unix(0, 0), time.Unix(5000000000, 123456789), time.Unix(1700000000, 999999999)}
	ref := ""
	// two deviations only where there are not too many places for them
	alternatives := 0
	vmap.Choose, vmap.Base = func(n int) int { alternatives += n - 1; return 0 }, 0
	build()
	vmap.Choose = nil
	if maxDev > 1 && alternatives > 400 {
		maxDev = 1
	}
	for b := 0; b < vmap.Bases; b++ {
		b := b
		reset := func(choose func(int) int) {
			vmap.Choose, vmap.Base, vmap.Clock, vmap.Tick = choose, b, clocks[b], time.Duration(b)*time.Second
			vmap.Ranges, vmap.Entries = 0, 0
		}
		if ref == "" {
			reset(nil)
			ref = build()
		}
		t.Explore(func() string { return fmt.Sprintf("%s, base order %d", name, b) }, maxDev, func(c *mc.C, ch *mc.Chooser) {
			reset(ch.Choose)
			defer reset(nil)
			got := build()
			c.Transitions(vmap.Entries)
			c.Count("map ranges visited", vmap.Ranges)
			if vmap.Entries > vmap.Ranges || ch.Len() > 0 {
				h := sha256.Sum256([]byte(got))
				c.Outcome(fmt.Sprintf("%s %x", name, h[:6]))
				if got == "error" {
					c.Outcome("error")
				}
				c.State(fmt.Sprint(name, b, ch))
			}
			if got != ref {
				c.Failf("the result differs: %s", differ(ref, got))
			}
		})
	}
}

func c07body(t *mc.T) {
	dir0, err := os.MkdirTemp("", "c07")
	must(err)
	defer os.RemoveAll(dir0)
	when := time.Date(2020, 3, 4, 5, 6, 8, 0, time.UTC)

	t.Section("wheel", fmt.Sprintf("%d wheels x %d platforms x 4 base orders and clocks x %d deviation(s) (1 where there are more than 400 alternatives)", len(wheels), len(plats), t.Pick(1, 2)))
	for wi, w := range wheels {
		fn := filepath.Join(dir0, fmt.Sprint(wi), "x-1.0-py3-none-any.whl")
		must(os.Mkdir(filepath.Dir(fn), 0o755))
		must(os.WriteFile(fn, wheelBytes(when, w.ms), 0o644))
		for pi, p := range plats {
			p := p
			p.PyCompile = compile
			dev := t.Pick(1, 2)
			orders(t, fmt.Sprintf("%s, platform %d", w.name, pi), dev, func() string {
				return raw(bdist.InstallWheel(ctx, p, time.Time{}, time.Time{}, fn,
					bdist.PostInstallHooks(entry_points.CreateScripts(p), recording_installs.Record("sha256", "ocibuild", &direct_url.DirectURL{URL: "https://example.com/x", ArchiveInfo: &direct_url.ArchiveInfo{Hash: "sha256=00"}})), ltar.FastOpts...))
			})
		}
	}

	t.Section("squash", "stacks of layers with whiteouts, links, implied directories: squashed, and loaded and walked")
	e := func(typ byte, name, link, body string) ltar.Ent {
		return ltar.Ent{Hdr: tar.Header{Typeflag: typ, Name: name, Linkname: link, Mode: 0o644, ModTime: when}, Body: []byte(body)}
	}
	stacks := [][][]ltar.Ent{
		{{e('0', "b", "", "1"), e('0', "a/x", "", "2"), e('0', "a-b", "", "3"), e('5', "c", "", ""), e('0', "c/d/e", "", "5")}, {e('0', "a/.wh.x", "", ""), e('0', ".wh.b", "", ""), e('0', "c/.wh..wh..opq", "", ""), e('0', "c/n", "", "")}},
		{{e('0', "z", "", "body"), e('1', "m", "z", ""), e('1', "a", "z", ""), e('1', "q/r", "a", "")}, {e('0', ".wh.z", "", ""), e('0', "m", "", "new")}},
		{{e('0', "z", "", "body"), e('1', "m", "z", ""), e('1', "a", "m", ""), e('0', "d/f", "", "f"), e('1', "d/g", "d/f", "")}, {e('0', "d", "", "file")}},
		{{e('2', "l", "d/e", ""), e('0', "l/x", "", "1"), e('0', "d/e/y", "", "2"), e('2', "k", "nowhere", "")}, {e('0', "l/.wh.y", "", ""), e('0', "d/w", "", ""), e('0', "k/v", "", "")}},
		{{e('0', ".wh.q", "", ""), e('0', "d/.wh.a", "", ""), e('0', "d/.wh.b", "", ""), e('0', "d/c", "", "")}, {e('0', "d/b", "", "back"), e('0', ".wh..wh..opq", "", "")}},
		{{e('0', "a/b", "", ""), e('0', "a", "", "file"), e('0', "a/c", "", "again")}, {e('5', "a", "", ""), e('0', "a/.wh.c", "", ""), e('0', "a/c/d", "", "")}},
	}
	for si, st := range stacks {
		var layers []ociv1.Layer
		for _, l := range st {
			layers = append(layers, ltar.RawLayer(ltar.MustEncode(l)))
		}
		orders(t, fmt.Sprintf("stack %d", si), t.Pick(2, 3), func() string { return raw(squash.Squash(layers, ltar.FastOpts...)) })
		orders(t, fmt.Sprintf("loading stack %d", si), t.Pick(1, 2), func() string {
			fsys, err := squash.Load(layers, false)
			if err != nil {
				return "error"
			}
			ret := ""
			if err := fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
				if err != nil {
					ret += p + " error\n"
					return nil
				}
				ret += p + " " + d.Type().String()
				if d.Type().IsRegular() {
					bs, err := fs.ReadFile(fsys, p)
					ret += fmt.Sprintf(" %q %v", bs, err != nil)
				}
				ret += "\n"
				return nil
			}); err != nil {
				return "error"
			}
			return ret
		})
	}

	t.Section("memory", fmt.Sprintf("all orders of %d files given to LayerFromFileReferences", t.Pick(6, 7)))
	names := []string{"a", "a/b", "a-b", "a.b", "a/b/c", "B", "a/\u00e9"}[:t.Pick(6, 7)]
	refs := func(order []int) []fsutil.FileReference {
		var ret []fsutil.FileReference
		for _, i := range order {
			h := &tar.Header{Typeflag: tar.TypeReg, Name: names[i], Mode: 0o644, Size: int64(i), ModTime: when.Add(time.Duration(i-3) * time.Hour)}
			if names[i] == "a" || names[i] == "a/b" {
				h.Typeflag, h.Size, h.Mode = tar.TypeDir, 0, 0o755
			}
			ret = append(ret, &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: names[i], MContent: bytes.Repeat([]byte{'x'}, int(h.Size))})
		}
		return ret
	}
	var ident []int
	for i := range names {
		ident = append(ident, i)
	}
	ref := raw(fsutil.LayerFromFileReferences(refs(ident), when, ltar.FastOpts...))
	permute(len(names), func(order []int) {
		o := append([]int(nil), order...)
		t.Case(func() string { return fmt.Sprint("order ", o) }, func(c *mc.C) {
			c.Outcome(fmt.Sprint(o))
			if got := raw(fsutil.LayerFromFileReferences(refs(o), when, ltar.FastOpts...)); got != ref || got == "error" {
				c.Failf("the result differs: %s", differ(ref, got))
			}
		})
	})

	t.Section("disk", "directories whose files were made in all orders, linked in all orders, and accessed at different times")
	mk := func(d string, order []int, access time.Time) {
		must(os.Mkdir(d, 0o755))
		files := []string{"b", "a/x", "c-d", "a-b", "e"}
		must(os.Mkdir(filepath.Join(d, "a"), 0o755))
		first := ""
		for _, i := range order {
			p := filepath.Join(d, files[i])
			// b, c-d and a/x are names of one file
			if i < 3 {
				if first == "" {
					first = p
					must(os.WriteFile(p, []byte("shared"), 0o644))
				} else {
					must(os.Link(first, p))
				}
			} else {
				must(os.WriteFile(p, []byte(files[i]), 0o600))
			}
		}
		for _, p := range append(files, "a", "") {
			must(os.Chtimes(filepath.Join(d, p), access, when))
		}
	}
	d0 := filepath.Join(dir0, "disk")
	build := func(d string) string { return raw(dir.LayerFromDir(d, nil, nil, when.Add(time.Hour), ltar.FastOpts...)) }
	mk(d0, []int{0, 1, 2, 3, 4}, when)
	want := build(d0)
	permute(5, func(order []int) {
		o := append([]int(nil), order...)
		t.Case(func() string { return fmt.Sprint("made in order ", o) }, func(c *mc.C) {
			d := filepath.Join(dir0, "other")
			defer os.RemoveAll(d)
			mk(d, o, when.Add(time.Duration(o[0]*1000)*time.Hour))
			c.Outcome(fmt.Sprint(o))
			if got := build(d); got != want || got == "error" {
				c.Failf("the result differs: %s", differ(want, got))
			}
		})
	})
	orders(t, "directory", 2, func() string { return build(d0) })

	t.Section("environment", "the program in different environments: processors, time zone, umask, locale, temporary and working directory, user's home, inherited Python settings, time of compilation")
	self, err := os.Executable()
	must(err)
	sh := filepath.Join(dir0, "env")
	must(os.MkdirAll(filepath.Join(sh, "bin"), 0o755))
	must(os.MkdirAll(filepath.Join(sh, "other place/tmp"), 0o755))
	must(os.MkdirAll(filepath.Join(sh, "tmp"), 0o755))
	must(os.Symlink(self, filepath.Join(sh, "bin/go")))
	must(os.WriteFile(filepath.Join(sh, "l1.tar"), ltar.MustEncode(stacks[0][0]), 0o644))
	must(os.WriteFile(filepath.Join(sh, "l2.tar"), ltar.MustEncode(stacks[0][1]), 0o644))
	must(os.Mkdir(filepath.Join(sh, "w"), 0o755))
	must(os.WriteFile(filepath.Join(sh, "w/x-1.0-py3-none-any.whl"), wheelBytes(when, wheels[1].ms), 0o644))
	must(os.Mkdir(filepath.Join(sh, "f"), 0o755))
	must(os.WriteFile(filepath.Join(sh, "f/x-1.0-py3-none-any.whl"), wheelBytes(time.Date(2099, 1, 1, 0, 0, 0, 0, time.UTC), wheels[3].ms), 0o644))
	must(os.Mkdir(filepath.Join(sh, "e"), 0o755))
	must(os.WriteFile(filepath.Join(sh, "e/x-1.0-py3-none-any.whl"), wheelBytes(when, wheels[8].ms), 0o644))
	mk(filepath.Join(sh, "d"), []int{0, 1, 2, 3, 4}, when)
	must(os.WriteFile(filepath.Join(sh, "plat.yml"), []byte("ConsoleShebang: /usr/bin/python3\nGraphicalShebang: /usr/bin/python3\nScheme:\n  purelib: /usr/lib\n  platlib: /usr/lib\n  headers: /usr/include\n  scripts: /usr/bin\n  data: /usr\n"+
		"UID: 0\nGID: 0\nUName: root\nGName: root\nPyCompile: [\""+self+"\", \"pycompile\"]\n"), 0o644))
	cmds := []struct {
		name string
		args []string // @ is the directory
	}{
		{"squash", []string{"layer", "squash", "@l1.tar", "@l2.tar"}},
		{"dir", []string{"layer", "dir", "--prefix=opt/a/b", "@d"}},
		{"wheel", []string{"layer", "wheel", "--platform-file=@plat.yml", "@w/x-1.0-py3-none-any.whl"}},
		{"future wheel", []string{"layer", "wheel", "--platform-file=@plat.yml", "@f/x-1.0-py3-none-any.whl"}},
		{"scripts", []string{"layer", "wheel", "--platform-file=@plat.yml", "@e/x-1.0-py3-none-any.whl"}},
		{"gobuild", []string{"layer", "gobuild", "./prog", "./tool"}},
		{"image", []string{"image", "build", "@l1.tar", "@l2.tar"}},
	}
	type dim struct {
		name string
		vals []string
	}
	dims := []dim{
		{"GOMAXPROCS", []string{"1", "2", "8"}},
		{"TZ", []string{"UTC", "Asia/Tokyo", "America/New_York"}},
		{"umask", []string{"022", "077", "000"}},
		{"cwd", []string{"", "other place"}},
		{"TMPDIR", []string{"tmp", "other place/tmp"}},
		{"FAKE_MTIME", []string{"1600000000", "1700000000", "1000000000", "4200000000"}},
		{"more", []string{"A=B", "LC_ALL=tr_TR.UTF-8", "PYTHONHASHSEED=77", "PYTHONPATH=/somewhere", "HOME=/nonexistent", "COLUMNS=20", "USER=other", "GOFLAGS=-mod=mod", "GOOS=plan9"}},
	}
	run := func(args []string, sel []int) string {
		cwd := sh
		prefix := ""
		if v := dims[3].vals[sel[3]]; v != "" {
			cwd = filepath.Join(sh, v)
			prefix = sh + "/"
		}
		var av []string
		for _, a := range args {
			av = append(av, strings.Replace(a, "@", prefix, 1))
		}
		cmd := exec.Command("/bin/sh", append([]string{"-c", "umask " + dims[2].vals[sel[2]] + `; exec "$@"`, "sh", os.Getenv("OCIBUILD")}, av...)...)
		cmd.Dir = cwd
		cmd.Env = []string{"PATH=" + filepath.Join(sh, "bin") + ":/usr/bin:/bin", "SOURCE_DATE_EPOCH=1600000000", "HOME=" + sh,
			"GOMAXPROCS=" + dims[0].vals[sel[0]], "TZ=" + dims[1].vals[sel[1]], "TMPDIR=" + filepath.Join(sh, dims[4].vals[sel[4]]),
			"FAKE_MTIME=" + dims[5].vals[sel[5]], dims[6].vals[sel[6]]}
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Run(); err != nil {
			return "error"
		}
		return o.String()
	}
	zero := make([]int, len(dims))
	for _, cm := range cmds {
		cm := cm
		ref := ""
		// all pairs of dimensions (thorough: triples), all their values
		seen := map[string]bool{}
		var sels [][]int
		var rec func(sel []int, from, left int)
		rec = func(sel []int, from, left int) {
			if k := fmt.Sprint(sel); !seen[k] {
				seen[k] = true
				sels = append(sels, append([]int(nil), sel...))
			}
			if left == 0 {
				return
			}
			for d := from; d < len(dims); d++ {
				for v := 1; v < len(dims[d].vals); v++ {
					sel[d] = v
					rec(sel, d+1, left-1)
				}
				sel[d] = 0
			}
		}
		rec(append([]int(nil), zero...), 0, t.Pick(2, 3))
		for _, sel := range sels {
			sel := sel
			t.Case(func() string {
				s := cm.name
				for i, v := range sel {
					if v > 0 {
						s += fmt.Sprintf(" %s=%s", dims[i].name, dims[i].vals[v])
					}
				}
				return s
			}, func(c *mc.C) {
				if ref == "" {
					ref = run(cm.args, zero)
				}
				got := run(cm.args, sel)
				c.Outcome(fmt.Sprint(cm.name, sel))
				if got != ref || got == "error" {
					c.Failf("the result differs: %s", differ(ref, got))
				}
			})
		}
	}
}

func permute(n int, f func([]int)) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			f(cur)
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
}
