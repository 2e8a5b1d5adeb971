package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/dlib/dlog"
	"github.com/sirupsen/logrus"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c25 = mc.Suite{
	ID:    "C25",
	Level: "model_checking",
	Rule: "a stand-in compiler that records what it is given and behaves in every way of a list, x source sets x environments x times; faults at every step; " +
		"all interleavings of the starts and ends of 2 (3) concurrent compilations; non-trivial: every case",
	Assumptions: []string{
		"source files have distinct relative names",
		"the compiler is called as compileall is: options, then '-s DIR -p / DIR'",
	},
	Body: runC25,
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// srcFile is a source file, with faults.
type srcFile struct {
	name    string
	content string
	mtime   time.Time
	openErr error
	readAt  int // fail after that many bytes, if readErr is set
	readErr error
	clsErr  error
}

func (f srcFile) FullName() string   { return f.name }
func (f srcFile) Name() string       { return filepath.Base(f.name) }
func (f srcFile) Size() int64        { return int64(len(f.content)) }
func (f srcFile) Mode() fs.FileMode  { return 0o644 }
func (f srcFile) ModTime() time.Time { return f.mtime }
func (f srcFile) IsDir() bool        { return false }
func (f srcFile) Sys() interface{}   { return nil }

type srcReader struct {
	io.Reader
	err error
}

func (r srcReader) Close() error { return r.err }

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

func (f srcFile) Open() (io.ReadCloser, error) {
	if f.openErr != nil {
		return nil, f.openErr
	}
	var r io.Reader = strings.NewReader(f.content)
	if f.readErr != nil {
		r = io.MultiReader(strings.NewReader(f.content[:f.readAt]), errReader{f.readErr})
	}
	return srcReader{r, f.clsErr}, nil
}

var _ fsutil.FileReference = srcFile{}

func quiet() context.Context {
	l := logrus.New()
	l.SetOutput(ioutil.Discard)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(l))
}

var serial int

// world is the surroundings of one compilation.
type world struct {
	dir  string
	tmp  string
	spec spec
}

func newWorld(mode string) *world {
	serial++
	w := &world{dir: filepath.Join(os.Getenv("WORK"), "tmp", fmt.Sprintf("c25-%d-%d", os.Getpid(), serial))}
	must(os.Mkdir(w.dir, 0o700))
	w.tmp = filepath.Join(w.dir, "T")
	must(os.Mkdir(w.tmp, 0o700))
	w.spec = spec{Report: filepath.Join(w.dir, "report"), Mode: mode}
	w.save()
	return w
}

func (w *world) save() {
	bs, err := json.Marshal(w.spec)
	must(err)
	must(ioutil.WriteFile(filepath.Join(w.dir, "spec"), bs, 0o600))
}

func (w *world) remove() {
	_ = filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			_ = os.Chmod(p, 0o700)
		}
		return nil
	})
	must(os.RemoveAll(w.dir))
}

// leftovers lists what is in the temporary directory.
func (w *world) leftovers() []string {
	l, err := ioutil.ReadDir(w.tmp)
	must(err)
	var r []string
	for _, fi := range l {
		r = append(r, fi.Name())
	}
	return r
}

func (w *world) report() *report {
	bs, err := ioutil.ReadFile(w.spec.Report)
	if err != nil {
		return nil
	}
	var r report
	must(json.Unmarshal(bs, &r))
	return &r
}

// withEnv sets the environment of this process.
func withEnv(kv map[string]string, f func()) {
	old := map[string]*string{}
	for k, v := range kv {
		if o, ok := os.LookupEnv(k); ok {
			o := o
			old[k] = &o
		} else {
			old[k] = nil
		}
		if v == "\x00" {
			os.Unsetenv(k)
		} else {
			os.Setenv(k, v)
		}
	}
	defer func() {
		for k, v := range old {
			if v == nil {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, *v)
			}
		}
	}()
	f()
}

func self() string {
	s, err := os.Readlink("/proc/self/exe")
	must(err)
	return s
}

func (w *world) compile(extra []string, clamp time.Time, pp []string, files []srcFile, env map[string]string) (ret []fsutil.FileReference, err error) {
	e := map[string]string{"TMPDIR": w.tmp, "C25_SPEC": filepath.Join(w.dir, "spec")}
	for k, v := range env {
		e[k] = v
	}
	withEnv(e, func() {
		var comp python.Compiler
		comp, err = python.ExternalCompiler(append([]string{self()}, extra...)...)
		if err != nil {
			return
		}
		var in []fsutil.FileReference
		for _, f := range files {
			in = append(in, f)
		}
		ret, err = comp(quiet(), clamp, pp, in)
	})
	return ret, err
}

// checkSeen compares what the compiler was given with what it should have been given.
func checkSeen(c *mc.C, w *world, extra []string, clamp time.Time, pp []string, files []srcFile, env map[string]string) {
	r := w.report()
	if r == nil {
		c.Failf("the compiler was not run")
		return
	}
	want := append(append([]string{}, extra...), "-s", r.Root, "-p", "/", r.Root)
	if !reflect.DeepEqual(r.Args, want) {
		c.Failf("arguments %q, want %q", r.Args, want)
	}
	dirs := map[string]bool{}
	wantFiles := map[string]srcFile{}
	for _, f := range files {
		wantFiles[f.name] = f
		for d := filepath.Dir(f.name); d != "."; d = filepath.Dir(d) {
			dirs[d] = true
		}
	}
	for _, f := range r.Files {
		if f.Dir {
			if !dirs[f.Path] {
				c.Failf("the compiler was given a directory %q", f.Path)
			}
			continue
		}
		src, ok := wantFiles[f.Path]
		if !ok {
			c.Failf("the compiler was given a file %q", f.Path)
			continue
		}
		if f.Content != src.content {
			c.Failf("%q has content of %d bytes, want %d", f.Path, len(f.Content), len(src.content))
		}
		if f.Mtime != src.mtime.UnixNano() {
			c.Failf("%q has time %v, want %v", f.Path, time.Unix(0, f.Mtime), src.mtime)
		}
		delete(wantFiles, f.Path)
	}
	for n := range wantFiles {
		c.Failf("the compiler was not given %q", n)
	}
	get := func(k string) (string, bool) {
		v, n := "", 0
		for _, kv := range r.Env {
			if strings.HasPrefix(kv, k+"=") {
				v = kv[len(k)+1:]
				n++
			}
		}
		if n > 1 {
			c.Failf("%d settings of %s", n, k)
		}
		return v, n > 0
	}
	if v, _ := get("PYTHONHASHSEED"); v != "0" {
		c.Failf("PYTHONHASHSEED is %q, want \"0\"", v)
	}
	if !clamp.IsZero() {
		if v, _ := get("SOURCE_DATE_EPOCH"); v != fmt.Sprint(clamp.Unix()) {
			c.Failf("SOURCE_DATE_EPOCH is %q, want %d", v, clamp.Unix())
		}
	}
	if len(pp) > 0 {
		var l []string
		for _, p := range pp {
			l = append(l, filepath.Join(r.Root, p))
		}
		if o := env["PYTHONPATH"]; o != "" && o != "\x00" {
			l = append(l, o)
		}
		if v, _ := get("PYTHONPATH"); v != strings.Join(l, ":") {
			c.Failf("PYTHONPATH is %q, want %q", v, l)
		}
	} else if o := env["PYTHONPATH"]; o != "\x00" && o != "" {
		if v, _ := get("PYTHONPATH"); v != o {
			c.Failf("PYTHONPATH is %q, want %q", v, o)
		}
	}
	if v, _ := get("KEEP_ME"); v != env["KEEP_ME"] {
		c.Failf("KEEP_ME is %q, want %q", v, env["KEEP_ME"])
	}
	if !filepath.IsAbs(r.Root) {
		c.Failf("directory %q is not absolute", r.Root)
	}
}

// checkResult compares the result with what the compiler produced.
func checkResult(c *mc.C, got []fsutil.FileReference, mode string, files []srcFile) {
	want := map[string]string{}
	for _, f := range files {
		if !strings.HasSuffix(f.name, ".py") {
			continue
		}
		switch mode {
		case "ok", "clutter", "readonly", "removes":
			want[pycOf(f.name)] = pycContent(f.name, f.content)
		case "legacy":
			want[f.name+"c"] = pycContent(f.name, f.content)
		}
	}
	for _, ref := range got {
		w, ok := want[ref.FullName()]
		if !ok {
			c.Failf("the result has %q", ref.FullName())
			continue
		}
		delete(want, ref.FullName())
		for i := 0; i < 2; i++ {
			r, err := ref.Open()
			if err != nil {
				c.Failf("%q: %v", ref.FullName(), err)
				break
			}
			bs, err := ioutil.ReadAll(r)
			if err != nil || string(bs) != w {
				c.Failf("%q has content %q (%v), want %q", ref.FullName(), bs, err, w)
			}
			_ = r.Close()
		}
		if ref.Size() != int64(len(w)) || !ref.Mode().IsRegular() || ref.IsDir() || ref.Name() != filepath.Base(ref.FullName()) {
			c.Failf("%q: size %d, mode %v, name %q", ref.FullName(), ref.Size(), ref.Mode(), ref.Name())
		}
	}
	for n := range want {
		c.Failf("the result does not have %q", n)
	}
}

func runC25(t *mc.T) {
	t0 := time.Unix(1500000000, 123456789)
	big := strings.Repeat("print('x')\n", 10000)
	sets := map[string][]srcFile{
		"none":   {},
		"one":    {{name: "usr/lib/a.py", content: "a", mtime: t0}},
		"top":    {{name: "a.py", content: "a", mtime: t0}},
		"two":    {{name: "usr/lib/a.py", content: "a", mtime: t0}, {name: "usr/lib/b.py", content: "b", mtime: t0.Add(time.Hour)}},
		"nested": {{name: "p/__init__.py", content: "", mtime: t0}, {name: "p/q/__init__.py", content: "q", mtime: time.Unix(0, 0)}, {name: "p/q.py", content: "qq", mtime: time.Unix(1, 1)}, {name: "p.py", content: "p", mtime: t0}},
		"names":  {{name: "a b/c d.py", content: "1", mtime: t0}, {name: "é/ü.py", content: "2", mtime: t0}, {name: "-x/-y.py", content: "3", mtime: t0}, {name: "a'b/\"c\\.py", content: "4", mtime: t0}, {name: "..a/b...py", content: "5", mtime: t0}, {name: "n\n/l.py", content: "6", mtime: t0}},
		"big":    {{name: "big.py", content: big, mtime: t0}, {name: "small.py", content: "s", mtime: t0}},
		"other":  {{name: "d/data.txt", content: "data", mtime: t0}, {name: "d/a.py", content: "a", mtime: t0}},
		"times":  {{name: "a.py", content: "a", mtime: time.Unix(-1000, 0)}, {name: "b.py", content: "b", mtime: time.Unix(4000000000, 0)}, {name: "c.py", content: "c", mtime: time.Now().Add(100000 * time.Hour)}},
	}
	var setNames []string
	for k := range sets {
		setNames = append(setNames, k)
	}
	sort.Strings(setNames)
	modes := []string{"ok", "none", "clutter", "legacy", "readonly", "removes", "fail", "fail2", "failpartial", "failall", "killed", "terminated", "dangling", "rmroot"}
	fails := map[string]bool{"fail": true, "fail2": true, "failpartial": true, "failall": true, "killed": true, "terminated": true, "dangling": true, "rmroot": true}
	extras := [][]string{nil, {"-m", "compileall"}, {"-q", "a b", "--", "x"}}
	pps := [][]string{nil, {"usr/lib"}, {"a", "b/c", "."}}
	envs := []map[string]string{
		{"PYTHONPATH": "\x00", "KEEP_ME": "k"},
		{"PYTHONPATH": "/x:/y", "PYTHONHASHSEED": "random", "SOURCE_DATE_EPOCH": "5", "KEEP_ME": "a=b c"},
		{"PYTHONPATH": "", "PYTHONHASHSEED": "", "SOURCE_DATE_EPOCH": ""},
	}
	clamps := []time.Time{time.Unix(1600000000, 0), time.Unix(0, 0), time.Unix(1600000000, 999999999), {}, time.Unix(-7, 0)}

	t.Section("behaviours", fmt.Sprintf("%d behaviours of the compiler x %d sets of sources x %d command lines", len(modes), len(sets), len(extras)))
	for _, mode := range modes {
		for _, set := range setNames {
			for _, extra := range extras {
				mode, set, extra := mode, set, extra
				t.Case(func() string { return fmt.Sprintf("%s, sources %q, command %q", mode, set, extra) }, func(c *mc.C) {
					w := newWorld(mode)
					defer w.remove()
					files := sets[set]
					got, err := w.compile(extra, clamps[0], []string{"usr/lib"}, files, envs[0])
					checkSeen(c, w, extra, clamps[0], []string{"usr/lib"}, files, envs[0])
					if fails[mode] {
						if err == nil {
							c.Failf("no error")
						}
						if got != nil {
							c.Failf("a result of %d files together with the error %v", len(got), err)
						}
					} else if err != nil {
						c.Failf("%v", err)
					} else {
						checkResult(c, got, mode, files)
					}
					if l := w.leftovers(); l != nil {
						c.Failf("left behind: %q", l)
					}
					c.Outcome(fmt.Sprint(mode, set, extra))
				})
			}
		}
	}

	t.Section("environments", "all combinations of environments, clamp times, Python paths and command lines")
	for ei, env := range envs {
		for _, clamp := range clamps {
			for _, pp := range pps {
				for _, extra := range extras {
					ei, env, clamp, pp, extra := ei, env, clamp, pp, extra
					t.Case(func() string { return fmt.Sprintf("environment %d, clamp %v, path %q, command %q", ei, clamp, pp, extra) }, func(c *mc.C) {
						w := newWorld("ok")
						defer w.remove()
						files := sets["nested"]
						got, err := w.compile(extra, clamp, pp, files, env)
						if err != nil {
							c.Failf("%v", err)
						}
						checkSeen(c, w, extra, clamp, pp, files, env)
						checkResult(c, got, "ok", files)
						if l := w.leftovers(); l != nil {
							c.Failf("left behind: %q", l)
						}
						c.Outcome(fmt.Sprint(ei, clamp, pp, extra))
					})
				}
			}
		}
	}

	boom := errors.New("injected fault")
	t.Section("faults", "a fault of every source file at every step; temporary directories and compilers that are missing")
	for k := 0; k < 3; k++ {
		for _, f := range []string{"open", "read 0", "read 1", "read all", "close", "name", "conflict", "long", "unexpected EOF"} {
			k, f := k, f
			t.Case(func() string { return fmt.Sprintf("file %d: %s", k, f) }, func(c *mc.C) {
				w := newWorld("ok")
				defer w.remove()
				files := append([]srcFile(nil), sets["nested"][:3]...)
				files[k].content = "content"
				switch f {
				case "open":
					files[k].openErr = boom
				case "read 0":
					files[k].readErr = boom
				case "read 1":
					files[k].readErr, files[k].readAt = boom, 1
				case "read all":
					files[k].readErr, files[k].readAt = boom, 7
				case "unexpected EOF":
					files[k].readErr, files[k].readAt = io.ErrUnexpectedEOF, 3
				case "close":
					files[k].clsErr = boom
				case "name":
					files[k].name = "../escaped.py"
				case "conflict":
					files[k].name = "z"
					files = append(files, srcFile{name: "z/y.py"})
				case "long":
					files[k].name = "d/" + strings.Repeat("x", 300) + ".py"
				}
				got, err := w.compile(nil, clamps[0], nil, files, nil)
				if err == nil {
					c.Failf("no error")
				}
				if got != nil {
					c.Failf("a result of %d files", len(got))
				}
				if w.report() != nil {
					c.Failf("the compiler was run")
				}
				if l := w.leftovers(); l != nil {
					c.Failf("left behind: %q", l)
				}
				if _, err := os.Lstat(filepath.Join(w.tmp, "escaped.py")); err == nil {
					c.Failf("a file was written outside of the temporary directory")
				}
				c.Outcome(fmt.Sprint(k, f))
			})
		}
	}
	for _, f := range []string{"tmpdir absent", "tmpdir a file", "compiler absent", "compiler not executable", "compiler vanishes", "compiler is a directory", "compiler of unknown format", "cancelled", "relative compiler"} {
		f := f
		t.Case(func() string { return f }, func(c *mc.C) {
			w := newWorld("ok")
			defer w.remove()
			env := map[string]string{"TMPDIR": w.tmp, "C25_SPEC": filepath.Join(w.dir, "spec")}
			exe := self()
			switch f {
			case "tmpdir absent":
				env["TMPDIR"] = filepath.Join(w.dir, "absent")
			case "tmpdir a file":
				env["TMPDIR"] = filepath.Join(w.dir, "spec")
			case "compiler absent":
				exe = filepath.Join(w.dir, "absent")
			case "compiler not executable":
				exe = filepath.Join(w.dir, "spec")
			case "compiler is a directory":
				exe = w.dir
			case "compiler vanishes":
				exe = filepath.Join(w.dir, "comp")
				must(os.Symlink(self(), exe))
			case "compiler of unknown format":
				exe = filepath.Join(w.dir, "comp")
				must(ioutil.WriteFile(exe, []byte{1, 2, 3}, 0o755))
			case "relative compiler":
				must(os.Symlink(self(), filepath.Join(w.dir, "comp")))
				exe = "./comp"
			}
			withEnv(env, func() {
				old, err := os.Getwd()
				must(err)
				must(os.Chdir(w.dir))
				defer func() { must(os.Chdir(old)) }()
				comp, err := python.ExternalCompiler(exe)
				if err != nil {
					if !strings.HasPrefix(f, "compiler") || f == "compiler vanishes" {
						c.Failf("%v", err)
					}
					return
				}
				if f == "compiler vanishes" {
					must(os.Remove(exe))
				}
				must(os.Chdir("/"))
				ctx, cancel := context.WithCancel(quiet())
				defer cancel()
				if f == "cancelled" {
					cancel()
				}
				got, err := comp(ctx, clamps[0], nil, []fsutil.FileReference{sets["one"][0]})
				if f == "relative compiler" {
					if err != nil {
						c.Failf("%v", err)
					} else {
						checkResult(c, got, "ok", sets["one"])
					}
				} else if err == nil || got != nil {
					c.Failf("result of %d files, error %v", len(got), err)
				}
			})
			if l := w.leftovers(); l != nil {
				c.Failf("left behind: %q", l)
			}
			c.Outcome(f)
		})
	}

	// all interleavings of starts and ends
	n := t.Pick(2, 3)
	var orders [][]int // k: start of compilation k; -k-1: its end
	var rec func(o []int, started, ended int)
	rec = func(o []int, started, ended int) {
		if len(o) == 2*n {
			orders = append(orders, append([]int(nil), o...))
			return
		}
		for k := 0; k < n; k++ {
			if started>>uint(k)&1 == 0 {
				rec(append(o, k), started|1<<uint(k), ended)
			} else if ended>>uint(k)&1 == 0 {
				rec(append(o, -k-1), started, ended|1<<uint(k))
			}
		}
	}
	rec(nil, 0, 0)
	t.Section("concurrent", fmt.Sprintf("all %d interleavings of the starts and ends of %d compilations with the same compiler and names, each ending well, badly, or cancelled", len(orders), n))
	for _, o := range orders {
		for variant := 0; variant < 3; variant++ {
			o, variant := o, variant
			t.Case(func() string { return fmt.Sprintf("order %v, variant %d", o, variant) }, func(c *mc.C) {
				concurrent(c, o, variant, n)
				c.Outcome(fmt.Sprint(o, variant))
			})
		}
	}

	t.Section("compileall", "the real compiler, for every set of sources")
	for _, set := range setNames {
		set := set
		t.Case(func() string { return "sources " + set }, func(c *mc.C) {
			w := newWorld("ok")
			defer w.remove()
			py, err := exec.LookPath("python3")
			must(err)
			var in []fsutil.FileReference
			for _, f := range sets[set] {
				f.content = "X = " + fmt.Sprintf("%q\n", f.name)
				if strings.HasSuffix(f.name, ".py") {
					in = append(in, f)
				}
			}
			var got []fsutil.FileReference
			withEnv(map[string]string{"TMPDIR": w.tmp}, func() {
				comp, err2 := python.ExternalCompiler(py, "-m", "compileall", "-q")
				must(err2)
				got, err = comp(quiet(), clamps[0], nil, in)
			})
			if set == "times" { // a time that does not fit in a .pyc file is an error of compileall, or not
				if err != nil && got != nil {
					c.Failf("result together with error %v", err)
				}
			} else if err != nil {
				c.Failf("%v", err)
			} else if len(got) != len(in) {
				c.Failf("%d results for %d sources", len(got), len(in))
			}
			for _, ref := range got {
				r, err := ref.Open()
				must(err)
				bs, err := ioutil.ReadAll(r)
				must(err)
				ok := false
				for _, f := range in {
					if bytes.Contains(bs, []byte("/"+f.FullName())) {
						ok = true
					}
				}
				if !ok || bytes.Contains(bs, []byte(w.tmp)) {
					c.Failf("%q does not name its source file by the installed path", ref.FullName())
				}
			}
			if l := w.leftovers(); l != nil {
				c.Failf("left behind: %q", l)
			}
			c.Outcome(set)
		})
	}
}

func concurrent(c *mc.C, order []int, variant, n int) {
	w := newWorld("ok") // one temporary directory for all
	defer w.remove()
	type run struct {
		w      *world
		files  []srcFile
		cancel context.CancelFunc
		done   chan struct{}
		got    []fsutil.FileReference
		err    error
		mode   string
	}
	runs := make([]*run, n)
	for i := range runs {
		mode := "ok"
		if variant == 1 && i == 0 {
			mode = "failpartial"
		}
		r := &run{w: newWorld(mode), mode: mode, done: make(chan struct{})}
		defer r.w.remove()
		r.w.spec.Ready, r.w.spec.Go = filepath.Join(r.w.dir, "ready"), filepath.Join(r.w.dir, "go")
		must(syscall.Mkfifo(r.w.spec.Ready, 0o600))
		must(syscall.Mkfifo(r.w.spec.Go, 0o600))
		r.w.save()
		for _, name := range []string{"p/a.py", "p/b.py"} {
			r.files = append(r.files, srcFile{name: name, content: fmt.Sprintf("%s of %d", name, i), mtime: time.Unix(1500000000+int64(i), 0)})
		}
		if i == 1 {
			r.files = append(r.files, srcFile{name: "p/c.py", content: "c", mtime: time.Unix(1500000000, 0)})
		}
		runs[i] = r
	}
	// The specification is found through the environment, which is the same for all while they start.
	clamp := time.Unix(1600000000, 0)
	for _, ev := range order {
		if ev >= 0 {
			r := runs[ev]
			withEnv(map[string]string{"TMPDIR": w.tmp, "C25_SPEC": filepath.Join(r.w.dir, "spec")}, func() {
				comp, err := python.ExternalCompiler(self())
				must(err)
				ctx, cancel := context.WithCancel(quiet())
				r.cancel = cancel
				var in []fsutil.FileReference
				for _, f := range r.files {
					in = append(in, f)
				}
				go func() {
					defer close(r.done)
					r.got, r.err = comp(ctx, clamp, nil, in)
				}()
				// wait until its compiler runs
				ready := make(chan struct{})
				go func() {
					f, err := os.Open(r.w.spec.Ready)
					must(err)
					_, _ = ioutil.ReadAll(f)
					_ = f.Close()
					close(ready)
				}()
				select {
				case <-ready:
				case <-r.done:
					c.Failf("compilation %d ended early: %v", ev, r.err)
					c.Abort()
				}
			})
		} else {
			r := runs[-ev-1]
			if variant == 2 && ev == -1 {
				r.cancel()
				r.mode = "cancelled"
			} else {
				f, err := os.OpenFile(r.w.spec.Go, os.O_WRONLY, 0)
				must(err)
				must(f.Close())
			}
			<-r.done
		}
		c.Transitions(1)
	}
	for i, r := range runs {
		checkSeen(c, r.w, nil, clamp, nil, r.files, nil)
		if r.mode != "ok" {
			if r.err == nil || r.got != nil {
				c.Failf("compilation %d (%s): result of %d files, error %v", i, r.mode, len(r.got), r.err)
			}
			continue
		}
		if r.err != nil {
			c.Failf("compilation %d: %v", i, r.err)
			continue
		}
		checkResult(c, r.got, "ok", r.files)
	}
	if l := w.leftovers(); l != nil {
		c.Failf("left behind: %q", l)
	}
}
