package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c30 = mc.Suite{
	ID:    "C30",
	Level: "model_checking",
	Rule: "the real command runs a stand-in for the Go toolchain that records how it is called, puts files of every kind of a list in to its output directory, and ends in " +
		"every way of a list; the layer is compared with those files; non-trivial: every case",
	Assumptions: []string{
		"the toolchain is given its output directory with -o, and the packages after the flags",
		"times have a resolution of seconds; times of directories are only bounded by the clamp time",
	},
	Body:     c30body,
	Deadline: 10 * time.Minute,
}

type gobuild struct {
	dir, cwd, tmp, bin string
	spec               goSpec
	env                []string // additional
	args               []string
	noGo               bool
}

func newGobuild() *gobuild {
	dir, err := os.MkdirTemp("", "gobuild")
	must(err)
	g := &gobuild{dir: dir, cwd: dir + "/cwd", tmp: dir + "/tmp", bin: dir + "/bin", env: []string{"SOURCE_DATE_EPOCH=1600000000"}, args: []string{"./prog"}}
	for _, d := range []string{g.cwd, g.tmp, g.bin} {
		must(os.Mkdir(d, 0o755))
	}
	g.spec.Report = dir + "/report"
	return g
}

func (g *gobuild) close() { must(os.RemoveAll(g.dir)) }

func (g *gobuild) environ() []string {
	env := []string{"PATH=" + g.bin, "HOME=" + g.dir, "GO_SPEC=" + g.dir + "/spec"}
	for _, e := range g.env {
		if strings.HasPrefix(e, "TMPDIR=") {
			return append(env, g.env...)
		}
	}
	return append(append(env, "TMPDIR="+g.tmp), g.env...)
}

func (g *gobuild) run() outcome {
	if !g.noGo {
		self, err := os.Executable()
		must(err)
		_ = os.Symlink(self, g.bin+"/go")
	}
	bs, err := json.Marshal(g.spec)
	must(err)
	must(ioutil.WriteFile(g.dir+"/spec", bs, 0o644))
	return g.command(append([]string{"layer", "gobuild"}, g.args...))
}

func (g *gobuild) command(args []string) outcome {
	cmd := exec.Command(os.Getenv("OCIBUILD"), args...)
	cmd.Env = g.environ()
	cmd.Dir = g.cwd
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
	}
	return outcome{cmd.ProcessState.ExitCode(), out.String(), errb.String()}
}

func (g *gobuild) report() (r goReport, ok bool) {
	bs, err := ioutil.ReadFile(g.spec.Report)
	if err != nil {
		return r, false
	}
	must(json.Unmarshal(bs, &r))
	return r, true
}

func (g *gobuild) clean(c *mc.C) {
	fis, err := ioutil.ReadDir(g.tmp)
	must(err)
	if len(fis) != 0 {
		c.Failf("left %s in the temporary directory", fis[0].Name())
	}
	if r, ok := g.report(); ok && r.Out != "" {
		if _, err := os.Lstat(r.Out); err == nil {
			c.Failf("left %s", r.Out)
		}
	}
	fis, err = ioutil.ReadDir(g.cwd)
	must(err)
	for _, fi := range fis {
		c.Failf("made %s in the current directory", fi.Name())
	}
}

// check compares the layer with the files.  before and after bound the clamp time.
func (g *gobuild) check(c *mc.C, o outcome, before, after int64) {
	if o.rc != 0 {
		c.Failf("exit status %d: %s", o.rc, o.stderr)
		return
	}
	checkLayer(c, []byte(o.stdout), g.spec.Files, before, after)
}

func checkLayer(c *mc.C, bs []byte, files []goFile, before, after int64) {
	ents, err := ltar.Decode(gunzip(bs))
	if err != nil {
		c.Failf("not a layer: %v", err)
		return
	}
	want := map[string]*goFile{"usr": nil, "usr/local": nil, "usr/local/bin": nil}
	inode := map[string]string{}
	for i := range files {
		n := "usr/local/bin/" + files[i].Name
		want[n] = &files[i]
		inode[n] = n
		if files[i].Hard != "" {
			inode[n] = inode["usr/local/bin/"+files[i].Hard]
			for j := range files {
				if "usr/local/bin/"+files[j].Name == inode[n] {
					f := files[j]
					f.Name = files[i].Name
					want[n] = &f
				}
			}
		}
	}
	seen := map[string]*ltar.Ent{}
	for i := range ents {
		e := &ents[i]
		n := strings.TrimSuffix(e.Hdr.Name, "/")
		f, ok := want[n]
		switch {
		case seen[n] != nil:
			c.Failf("%s is there twice", n)
			continue
		case !ok:
			c.Failf("unexpected entry %q", e.Hdr.Name)
			continue
		case path.Dir(n) != "." && seen[path.Dir(n)] == nil:
			c.Failf("%s comes before its directory", n)
		}
		seen[n] = e
		if e.Hdr.Uid != 0 || e.Hdr.Gid != 0 || e.Hdr.Uname != "root" || e.Hdr.Gname != "root" {
			c.Failf("%s has the owner %d:%d %q:%q", n, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname)
		}
		if e.Hdr.ModTime.Unix() > after {
			c.Failf("%s has the time %d, later than %d", n, e.Hdr.ModTime.Unix(), after)
		}
		if f == nil || f.Dir {
			mode := int64(0o755)
			if f != nil {
				mode = int64(f.Mode)
			}
			if e.Hdr.Typeflag != tar.TypeDir || e.Hdr.Mode&0o7777 != mode {
				c.Failf("%s has type %c, mode %o", n, e.Hdr.Typeflag, e.Hdr.Mode)
			}
			continue
		}
		if f.Symlink != "" {
			if e.Hdr.Typeflag != tar.TypeSymlink || e.Hdr.Linkname != f.Symlink {
				c.Failf("%s has type %c, target %q", n, e.Hdr.Typeflag, e.Hdr.Linkname)
			}
			continue
		}
		body := e
		if e.Hdr.Typeflag == tar.TypeLink {
			t := strings.TrimSuffix(e.Hdr.Linkname, "/")
			if seen[t] == nil || inode[t] != inode[n] {
				c.Failf("%s is a link to %q", n, e.Hdr.Linkname)
				continue
			}
			body = seen[t]
		} else if e.Hdr.Typeflag != tar.TypeReg {
			c.Failf("%s has type %c", n, e.Hdr.Typeflag)
		}
		if e.Hdr.Mode&0o7777 != int64(f.Mode) {
			c.Failf("%s has mode %o, not %o", n, e.Hdr.Mode, f.Mode)
		}
		if string(body.Body) != f.body() {
			c.Failf("%s has another content (%d bytes)", n, len(body.Body))
		}
		got := e.Hdr.ModTime.Unix()
		switch {
		case f.Mtime == 0: // made during the build
			if got < before-1 && before < time.Now().Unix()-1000000 {
				c.Failf("%s has the time %d", n, got)
			}
		case f.Mtime <= before && got != f.Mtime && !(f.Nanos != 0 && got == f.Mtime+1):
			c.Failf("%s has the time %d, not %d", n, got, f.Mtime)
		case f.Mtime > after && (got < before || got > after):
			c.Failf("%s has the time %d, not %d", n, got, before)
		}
	}
	for n := range want {
		if seen[n] == nil {
			c.Failf("%s is missing", n)
		}
	}
}

func c30body(t *mc.T) {
	const epoch = 1600000000
	files := []goFile{
		{Name: "prog", Content: "\x7fELF", Mode: 0o755, Mtime: 1500000000},
		{Name: "a", Content: "", Mode: 0o755, Mtime: epoch},
		{Name: "new", Content: "x", Mode: 0o755, Mtime: epoch + 1},
		{Name: "big", Size: 70000, Mode: 0o755},
		{Name: "z.exe", Content: "MZ", Mode: 0o644, Mtime: 1, UID: 1000, GID: 1000},
		{Name: "Prog", Content: "other", Mode: 0o700, Mtime: 1500000000, Nanos: 5},
		{Name: "with space", Content: "y", Mode: 0o4755, Mtime: 2000000000},
		{Name: "sub", Dir: true, Mode: 0o750, Mtime: 1500000000},
		{Name: "ünï", Content: "u", Mode: 0o111, Mtime: 1500000000},
		{Name: ".hidden", Content: "h", Mode: 0o755, Mtime: 1500000000},
		{Name: ".wh.x", Content: "w", Mode: 0o755, Mtime: 1500000000},
		{Name: "link", Symlink: "prog"},
		{Name: "-o", Content: "dash", Mode: 0o755, Mtime: 1500000000},
		{Name: strings.Repeat("n", 120), Content: "long", Mode: 0o755, Mtime: 1500000000},
	}

	t.Section("files", fmt.Sprintf("all sets of up to %d of %d files in the output directory", t.Pick(3, 4), len(files)))
	var sets [][]goFile
	var rec func(i int, cur []goFile)
	rec = func(i int, cur []goFile) {
		sets = append(sets, append([]goFile(nil), cur...))
		if len(cur) == t.Pick(3, 4) {
			return
		}
		for j := i; j < len(files); j++ {
			rec(j+1, append(cur, files[j]))
		}
	}
	rec(0, nil)
	sets = append(sets, files,
		[]goFile{{Name: "p", Content: "x", Mode: 0o755, Mtime: 5}, {Name: "q", Hard: "p"}},
		[]goFile{{Name: "p", Content: "x", Mode: 0o755, Mtime: 5}, {Name: "a", Hard: "p"}, {Name: "z", Hard: "p"}},
		[]goFile{{Name: "sub", Dir: true, Mode: 0o755}, {Name: "sub/x", Content: "x", Mode: 0o755}, {Name: "sub/y", Dir: true, Mode: 0o700}, {Name: "sub/y/z", Content: "z", Mode: 0o600}})
	for _, s := range sets {
		s := s
		t.Case(func() string { return fmt.Sprintf("files %+v", nameList(s)) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			g.spec.Files = s
			g.check(c, g.run(), epoch, epoch)
			g.clean(c)
			c.Outcome(strings.Join(nameList(s), " "))
		})
	}

	c30words(t, epoch)
	t.Section("modes", "all permission bits; sizes around those of blocks and buffers; numbers of files")
	for m := 0; m < 4096; m += 16 {
		m := m
		t.Case(func() string { return fmt.Sprintf("modes from %o on", m) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			for k := m; k < m+16; k++ {
				g.spec.Files = append(g.spec.Files, goFile{Name: fmt.Sprintf("f%d", k), Content: "x", Mode: uint32(k), Mtime: 1500000000})
			}
			g.check(c, g.run(), epoch, epoch)
			g.clean(c)
			c.Outcome(fmt.Sprint(m))
		})
	}
	for _, n := range t.Sizes(1, 3<<20, []int64{1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, 3 << 20}, "pkg/gobuild", "pkg/dir", "pkg/fsutil") {
		n := int(n)
		t.Case(func() string { return fmt.Sprintf("size %d", n) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			g.spec.Files = []goFile{{Name: "f", Size: n, Mode: 0o755}, {Name: "g", Size: n, Mode: 0o755, Mtime: 5}}
			g.check(c, g.run(), epoch, epoch)
			g.clean(c)
			c.Outcome(fmt.Sprint(n))
		})
	}
	for _, n := range t.Sizes(1, 1100, []int64{1, 2, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025}, "pkg/gobuild", "pkg/dir") {
		n := int(n)
		t.Case(func() string { return fmt.Sprintf("%d files", n) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			for k := 0; k < n; k++ {
				g.spec.Files = append(g.spec.Files, goFile{Name: fmt.Sprintf("f%d", k), Content: fmt.Sprint(k), Mode: 0o755, Mtime: 1500000000})
			}
			g.check(c, g.run(), epoch, epoch)
			g.clean(c)
			c.Outcome(fmt.Sprint(n))
		})
	}

	t.Section("times", "times of files x values of SOURCE_DATE_EPOCH, which may be absent or malformed")
	for _, e := range []string{"-", "", "0", "1", "1234567890", "1600000000", "4000000000", "x", "1600000000x", " 5", "1.5", "-5", "99999999999999999999"} {
		for _, m := range []int64{1, 1234567889, 1234567890, 1234567891, 1600000000, 1600000001, 3000000000} {
			e, m := e, m
			t.Case(func() string { return fmt.Sprintf("SOURCE_DATE_EPOCH %q, file of %d", e, m) }, func(c *mc.C) {
				g := newGobuild()
				defer g.close()
				g.env = nil
				if e != "-" {
					g.env = append(g.env, "SOURCE_DATE_EPOCH="+e)
				}
				g.spec.Files = []goFile{{Name: "f", Content: "x", Mode: 0o755, Mtime: m}, {Name: "d", Dir: true, Mode: 0o755, Mtime: m}, {Name: "now", Content: "y", Mode: 0o755}}
				before := time.Now().Unix()
				o := g.run()
				after := time.Now().Unix() + 1
				var n int64
				switch {
				case e == "0" || e == "-5": // no way to tell clamped times from unclamped ones that are before
					_, _ = fmt.Sscan(e, &n)
					before, after = n, n
				case e == "1" || e == "1234567890" || e == "1600000000" || e == "4000000000":
					_, _ = fmt.Sscan(e, &n)
					before, after = n, n
				}
				if e == "x" || e == "1600000000x" || e == " 5" || e == "1.5" || e == "-5" || e == "99999999999999999999" {
					// malformed ones may be refused
					if o.rc != 0 {
						wantFailure(c, o)
						g.clean(c)
						c.Outcome("refused")
						return
					}
					before = 0
					if n := int64(1600000000); e == "1600000000x" && n < before {
						before = n
					}
					checkLayer(c, []byte(o.stdout), g.spec.Files, -1<<40, 1<<40)
				} else {
					g.check(c, o, before, after)
				}
				g.clean(c)
				c.Outcome(e)
			})
		}
	}

	t.Section("packages", "all lists of up to 3 packages, and lengths of lists: what the toolchain is called with")
	pkgs := []string{"./prog", ".", "example.com/x/...", "./with space", "x@v1.2.3", "$HOME", "*", "main.go", "ünï", "a=b", "''"}
	var lists [][]string
	for _, a := range pkgs {
		lists = append(lists, []string{a})
		for _, b := range pkgs {
			lists = append(lists, []string{a, b})
			if t.Thorough() {
				for _, d := range pkgs {
					lists = append(lists, []string{a, b, d})
				}
			}
		}
	}
	lists = append(lists, []string{"./a", "./a"}, []string{"c", "b", "a", "b"}, []string{"", "x"}, []string{"--", "-x"}, []string{"--", "./a", "-o", "x"}, []string{"--", "--help"}, []string{"--", "-ldflags=x", "y"}, []string{"./a", "--", "--"})
	for _, n := range []int{4, 8, 9, 10, 16, 17, 32, 33, 64, 100, 128, 129, 256, 257, 1000} {
		var l []string
		for k := 0; k < n; k++ {
			l = append(l, fmt.Sprintf("./p%d", k))
		}
		lists = append(lists, l)
	}
	for _, l := range lists {
		l := l
		t.Case(func() string { return fmt.Sprintf("packages %q", l) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			g.args = l
			g.spec.Files = files[:1]
			o := g.run()
			g.check(c, o, epoch, epoch)
			want := l
			for i, a := range l {
				if a == "--" {
					want = append(append([]string(nil), l[:i]...), l[i+1:]...)
					break
				}
			}
			r, ok := g.report()
			if !ok {
				c.Failf("the toolchain was not called")
				return
			}
			got := positional(c, r.Args)
			if !reflect.DeepEqual(got, want) {
				c.Failf("the toolchain was given %q, packages %q", r.Args, got)
			}
			if r.Cwd != g.cwd {
				c.Failf("the toolchain ran in %q", r.Cwd)
			}
			g.clean(c)
			c.Outcome(strings.Join(l, " "))
		})
	}

	t.Section("environment", "all combinations of target variables, and other variables of all kinds")
	var envs [][]string
	for _, a := range []string{"", "GOOS=windows", "GOOS=linux", "GOOS="} {
		for _, b := range []string{"", "GOARCH=arm64", "GOARCH=amd64", "GOARCH="} {
			for _, d := range []string{"", "GOFLAGS=-tags=x -ldflags=y", "CGO_ENABLED=0", "GOARM=7", "A=b=c", "EMPTY=", "ODD=a\nb", "GOOSX=1", "XGOOS=2", "GOHOSTOS=plan9", "goos=x", "ünï=ü", "GOROOT=/x", "PWD=/elsewhere", "LONG=" + strings.Repeat("x", 5000)} {
				for _, order := range []bool{false, true} {
					var l []string
					for _, s := range []string{a, b, d} {
						if s != "" {
							l = append(l, s)
						}
					}
					if order {
						for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
							l[i], l[j] = l[j], l[i]
						}
					}
					envs = append(envs, l)
				}
			}
		}
	}
	var many []string
	for k := 0; k < 300; k++ {
		many = append(many, fmt.Sprintf("VAR%d=%d", k, k))
	}
	envs = append(envs, many)
	for _, env := range envs {
		env := env
		t.Case(func() string { return fmt.Sprintf("environment %q", env) }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			g.env = append(g.env, env...)
			g.spec.Files = files[:1]
			g.check(c, g.run(), epoch, epoch)
			r, ok := g.report()
			if !ok {
				c.Failf("the toolchain was not called")
				return
			}
			got, want := envMap(r.Env), envMap(g.environ())
			want["GOOS"], want["GOARCH"] = "linux", "amd64"
			delete(got, "PWD")
			delete(want, "PWD")
			if !reflect.DeepEqual(got, want) {
				for k, v := range want {
					if gv, ok := got[k]; !ok || gv != v {
						c.Failf("%s is %q, not %q", k, gv, v)
					}
				}
				for k, v := range got {
					if _, ok := want[k]; !ok && !strings.HasPrefix(k, "GO") {
						c.Failf("%s=%q was added", k, v)
					}
				}
			}
			g.clean(c)
			c.Outcome(fmt.Sprint(len(env)))
		})
	}

	t.Section("output", "what the toolchain prints, with every way of ending, before or after it wrote files")
	texts := []string{"", "x", "# pkg\n./x.go:1: error\n", "\x00\x1f\x0b", strings.Repeat("line\n", 20000)}
	type end struct{ rc, sig int }
	for _, so := range texts {
		for _, se := range texts {
			for _, e := range []end{{0, 0}, {1, 0}, {2, 0}, {127, 0}, {255, 0}, {0, 9}, {0, 15}, {0, 2}, {0, 1}} {
				for n := 0; n < 3; n++ {
					for _, output := range []bool{false, true} {
						so, se, e, n, output := so, se, e, n, output
						t.Case(func() string {
							return fmt.Sprintf("stdout %d stderr %d bytes, ends %v, %d files, --output %v", len(so), len(se), e, n, output)
						}, func(c *mc.C) {
							g := newGobuild()
							defer g.close()
							g.spec.Files = files[:n]
							g.spec.Stdout, g.spec.Stderr, g.spec.RC, g.spec.Signal = so, se, e.rc, e.sig
							if output {
								g.args = append(g.args, "--output="+g.dir+"/out")
							}
							o := g.run()
							if e != (end{}) {
								wantFailure(c, o)
								if _, err := os.Lstat(g.dir + "/out"); err == nil {
									c.Failf("failed, but wrote the file")
								}
							} else if output {
								bs, err := ioutil.ReadFile(g.dir + "/out")
								if o.rc != 0 || err != nil {
									c.Failf("exit status %d: %s; %v", o.rc, o.stderr, err)
									return
								}
								if o.stdout != "" {
									c.Failf("printed %q", o.stdout)
								}
								checkLayer(c, bs, g.spec.Files, epoch, epoch)
							} else {
								g.check(c, o, epoch, epoch)
							}
							if !containsAll(o.stderr, so) || !containsAll(o.stderr, se) {
								c.Failf("what the toolchain printed is lost: %q", clip(o.stderr))
							}
							g.clean(c)
							c.Outcome(fmt.Sprint(e, len(so), len(se)))
						})
					}
				}
			}
		}
	}
	t.Case(func() string { return "no toolchain" }, func(c *mc.C) {
		g := newGobuild()
		defer g.close()
		g.noGo = true
		wantFailure(c, g.run())
		g.clean(c)
		c.Outcome("none")
	})
	for _, tmp := range []string{"missing", "file"} {
		tmp := tmp
		t.Case(func() string { return "temporary directory is " + tmp }, func(c *mc.C) {
			g := newGobuild()
			defer g.close()
			must(ioutil.WriteFile(g.dir+"/file", nil, 0o644))
			g.env = append(g.env, "TMPDIR="+g.dir+"/"+tmp)
			wantFailure(c, g.run())
			c.Outcome(tmp)
		})
	}

	t.Section("concurrent", "builds whose toolchains are all between writing their files and ending")
	for n := 2; n <= t.Pick(4, 8); n++ {
		for k := 0; k < n; k++ {
			n, k := n, k
			t.Case(func() string { return fmt.Sprintf("%d builds, %d of which fail", n, k) }, func(c *mc.C) {
				g := newGobuild()
				defer g.close()
				hold := g.dir + "/hold"
				must(ioutil.WriteFile(hold, nil, 0o644))
				self, err := os.Executable()
				must(err)
				must(os.Symlink(self, g.bin+"/go"))
				gs := make([]*gobuild, n)
				outs := make([]outcome, n)
				var wg sync.WaitGroup
				for i := range gs {
					g1 := *g
					gs[i] = &g1
					g1.env = append([]string(nil), g.env...)
					gs[i].spec = goSpec{Report: fmt.Sprintf("%s/report%d", g.dir, i), Hold: hold, Files: []goFile{{Name: "same", Content: fmt.Sprint(i), Mode: 0o755, Mtime: 5}, {Name: fmt.Sprintf("own%d", i), Content: "x", Mode: 0o755, Mtime: 5}}}
					if i < k {
						gs[i].spec.RC = 1
					}
					bs, _ := json.Marshal(gs[i].spec)
					must(ioutil.WriteFile(fmt.Sprintf("%s/spec%d", g.dir, i), bs, 0o644))
					gs[i].env = append(gs[i].env, fmt.Sprintf("GO_SPEC=%s/spec%d", g.dir, i))
					wg.Add(1)
					i := i
					go func() {
						defer wg.Done()
						outs[i] = gs[i].command([]string{"layer", "gobuild", "./x"})
					}()
				}
				for tries := 0; tries < 2500; tries++ {
					fns, _ := filepath.Glob(g.dir + "/report*")
					if len(fns) == n {
						break
					}
					time.Sleep(2 * time.Millisecond)
				}
				time.Sleep(20 * time.Millisecond)
				must(os.Remove(hold))
				wg.Wait()
				for i, o := range outs {
					if i < k {
						wantFailure(c, o)
					} else {
						gs[i].check(c, o, epoch, epoch)
					}
				}
				g.clean(c)
				c.Outcome(fmt.Sprint(n, k))
			})
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// containsAll tells whether all lines of a text are in another one, each as part of a line.
func containsAll(s, text string) bool {
	for _, l := range strings.Split(text, "\n") {
		if !strings.Contains(s, l) {
			return false
		}
	}
	return strings.Count(s, "\n") >= strings.Count(text, "\n")
}

// positional returns the packages of a call of the toolchain.
func positional(c *mc.C, args []string) []string {
	if len(args) == 0 || args[0] != "build" {
		c.Failf("the toolchain was called with %q", args)
		return nil
	}
	for i := 1; i < len(args); i++ {
		switch {
		case args[i] == "--":
			return args[i+1:]
		case args[i] == "-o":
			i++
		case !strings.HasPrefix(args[i], "-"):
			return args[i:]
		}
	}
	return nil
}

func envMap(env []string) map[string]string {
	ret := map[string]string{}
	for _, e := range env {
		if i := strings.Index(e, "="); i > 0 {
			ret[e[:i]] = e[i+1:]
		}
	}
	return ret
}

func nameList(fs []goFile) []string {
	ret := []string{}
	for _, f := range fs {
		ret = append(ret, f.Name)
	}
	sort.Strings(ret)
	return ret
}
