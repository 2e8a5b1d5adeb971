package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c22 = mc.Suite{
	ID:    "C22",
	Level: "model_checking",
	Rule: "every subcommand runs with a fixed input whose result is known; then every file system call of it fails in turn, stdout is a full device, a pipe that " +
		"breaks after a number of bytes, a file with a size limit or closed, or an input is missing or cut; a case is non-trivial if the fault happened",
	Assumptions: []string{
		"the Go toolchain, the byte-compiler and the inspected interpreter are stand-ins, the package index is a loopback server",
		"help screens are not results",
		"uncompressed layers cut between entries, and the content of uncompressed layers given to image build, cannot be recognised as damaged",
		"a process that is ended by a signal because of its output need not print a message",
	},
	Body:     c22body,
	Deadline: 10 * time.Minute,
}

// sub is one subcommand with an input.
type sub struct {
	name   string
	args   []string
	inputs []string // input files (relative) whose truncation must be noticed
	layers []string // input files that are uncompressed layers
}

func ent(typ byte, name string, mode int64, body string) ltar.Ent {
	return ltar.Ent{Hdr: tar.Header{Typeflag: typ, Name: name, Mode: mode}, Body: []byte(body)}
}

func sum(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:])
}

func wheelBytes() string {
	members := [][2]string{
		{"pkg/__init__.py", "x = 1\n"},
		{"pkg/mod.py", strings.Repeat("y = 2\n", 300)},
		{"pkg-1.0.dist-info/METADATA", "Metadata-Version: 2.1\nName: pkg\nVersion: 1.0\n"},
		{"pkg-1.0.dist-info/WHEEL", "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n"},
		{"pkg-1.0.dist-info/entry_points.txt", "[console_scripts]\nprog = pkg:main\n"},
	}
	record := ""
	for _, m := range members {
		h := sha256.Sum256([]byte(m[1]))
		record += fmt.Sprintf("%s,sha256=%s,%d\n", m[0], base64.RawURLEncoding.EncodeToString(h[:]), len(m[1]))
	}
	members = append(members, [2]string{"pkg-1.0.dist-info/RECORD", record + "pkg-1.0.dist-info/RECORD,,\n"})
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for i, m := range members {
		h := &zip.FileHeader{Name: m[0], Method: zip.Store, Modified: time.Unix(1500000000, 0), ExternalAttrs: 0o100644 << 16, CreatorVersion: 3 << 8}
		if i%2 == 1 {
			h.Method = zip.Deflate
		}
		fw, err := w.CreateHeader(h)
		must(err)
		_, _ = io.WriteString(fw, m[1])
	}
	must(w.Close())
	return buf.String()
}

// mkinputs creates the inputs below dir.
func mkinputs(dir, self string) {
	l1 := string(ltar.MustEncode([]ltar.Ent{ent(tar.TypeDir, "a/", 0o755, ""), ent(tar.TypeReg, "a/one", 0o644, strings.Repeat("one", 3000)), ent(tar.TypeReg, "a/two", 0o600, "2")}))
	l2 := string(ltar.MustEncode([]ltar.Ent{ent(tar.TypeReg, "a/.wh.two", 0o644, ""), ent(tar.TypeReg, "b", 0o755, strings.Repeat("bcd", 500))}))
	in := filepath.Join(dir, "in")
	must(os.Mkdir(in, 0o755))
	write(filepath.Join(in, "l1.tar"), l1)
	write(filepath.Join(in, "l2.tar.gz"), gzs(l2))
	d := filepath.Join(in, "d")
	must(os.MkdirAll(filepath.Join(d, "sub"), 0o755))
	write(filepath.Join(d, "file"), strings.Repeat("content", 1000))
	write(filepath.Join(d, "sub/x"), "x")
	must(os.Symlink("file", filepath.Join(d, "link")))
	must(os.Link(filepath.Join(d, "file"), filepath.Join(d, "sub/hard")))
	for _, p := range []string{"file", "sub/x", "sub", ""} {
		must(os.Chtimes(filepath.Join(d, p), time.Unix(1500000000, 0), time.Unix(1500000000, 0)))
	}
	write(filepath.Join(in, "pkg-1.0-py3-none-any.whl"), wheelBytes())
	write(filepath.Join(in, "plat.yml"), `ConsoleShebang: /usr/bin/python3
GraphicalShebang: /usr/bin/python3
Scheme:
  purelib: /usr/lib/python3/site-packages
  platlib: /usr/lib64/python3/site-packages
  headers: /usr/include/python3
  scripts: /usr/bin
  data: /usr
UID: 0
GID: 0
UName: root
GName: root
PyCompile: ["`+self+`", "pycompile"]
`)
	cfg := `{"architecture":"amd64","os":"linux","config":{"Env":["A=1"]},"rootfs":{"type":"layers","diff_ids":["sha256:` + sum(l2) + `"]}}`
	man, _ := json.Marshal([]map[string]interface{}{{"Config": "config.json", "RepoTags": []string{"x:y"}, "Layers": []string{"layer.tar.gz"}}})
	write(filepath.Join(in, "base.tar"), string(ltar.MustEncode([]ltar.Ent{
		ent(tar.TypeReg, "manifest.json", 0o644, string(man)), ent(tar.TypeReg, "config.json", 0o644, cfg), ent(tar.TypeReg, "layer.tar.gz", 0o644, gzs(l2))})))
	write(filepath.Join(in, "base2.tar"), string(ltar.MustEncode([]ltar.Ent{
		ent(tar.TypeReg, "layer.tar.gz", 0o644, l2), ent(tar.TypeReg, "config.json", 0o644, cfg), ent(tar.TypeReg, "manifest.json", 0o644, string(man))})))
}

func c22body(t *mc.T) {
	shared := mkshared()
	defer os.RemoveAll(shared)
	self, err := os.Executable()
	must(err)
	mkinputs(shared, self)

	// the package index
	whl := wheelBytes()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer ln.Close()
	go func() {
		_ = http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			switch r.URL.Path {
			case "/simple/pkg/":
				fmt.Fprintf(w, `<!DOCTYPE html><html><body><a href="/files/x#sha256=%s">pkg-1.0-py3-none-any.whl</a><a href="/files/x#sha256=%s">pkg-2.0-py3-none-any.whl</a><a href="/files/gone">pkg-3.0-py3-none-any.whl</a><a href="/files/cut">pkg-4.0-py3-none-any.whl</a></body></html>`, sum(whl), sum("other"))
			case "/files/x":
				_, _ = io.WriteString(w, whl)
			case "/files/cut":
				w.Header().Set("Content-Length", "100000")
				_, _ = io.WriteString(w, whl)
			default:
				w.WriteHeader(404)
				_, _ = io.WriteString(w, "error page")
			}
		}))
	}()
	index := "http://" + ln.Addr().String() + "/simple/"
	info, _ := json.Marshal(map[string]interface{}{
		"MagicNumberB64": base64.StdEncoding.EncodeToString([]byte{0x61, 0x0d, 0x0d, 0x0a}), "Tags": []string{"cp39-cp39-linux_x86_64", "py3-none-any"},
		"VersionInfo": map[string]interface{}{"major": 3, "minor": 9, "micro": 1, "releaselevel": "final", "serial": 0},
		"Scheme": map[string]string{"purelib": "/usr/lib", "platlib": "/usr/lib", "headers": "/usr/include", "scripts": "/usr/bin", "data": "/usr"},
	})
	write(filepath.Join(shared, "python.json"), string(info))

	subs := []sub{
		{"squash", []string{"layer", "squash", "in/l1.tar", "in/l2.tar.gz"}, []string{"in/l2.tar.gz"}, []string{"in/l1.tar"}},
		{"dir", []string{"layer", "dir", "--prefix=opt/x", "in/d"}, nil, nil},
		{"wheel", []string{"layer", "wheel", "--platform-file=in/plat.yml", "in/pkg-1.0-py3-none-any.whl"}, []string{"in/pkg-1.0-py3-none-any.whl"}, nil},
		{"gobuild", []string{"layer", "gobuild", "./prog", "./tool"}, nil, nil},
		{"image", []string{"image", "build", "--base=in/base.tar", "--config.Cmd=x", "--tag=repo:tag", "in/l1.tar"}, []string{"in/base.tar"}, nil},
		{"image2", []string{"image", "build", "--base=in/base2.tar", "in/l1.tar", "in/l1.tar"}, []string{"in/base2.tar"}, nil},
		{"image3", []string{"image", "build", "in/l2.tar.gz"}, []string{"in/l2.tar.gz"}, nil},
		{"getwheel", []string{"python", "getwheel", "--index-server=" + index, "pkg-1.0-py3-none-any.whl"}, nil, nil},
		{"inspect", []string{"python", "inspect", "--interpreter=" + filepath.Join(shared, "bin/python3")}, nil, nil},
	}

	newCase := func() (string, []string) {
		dir, err := os.MkdirTemp("", "case")
		must(err)
		must(os.Mkdir(filepath.Join(dir, "tmp"), 0o755))
		return dir, environ(shared, filepath.Join(dir, "tmp"))
	}
	// inputs are linked in to the case's directory, so that only what a case changes is its own
	link := func(dir string) {
		must(os.Mkdir(filepath.Join(dir, "in"), 0o755))
		fis, err := os.ReadDir(filepath.Join(shared, "in"))
		must(err)
		for _, fi := range fis {
			src, dst := filepath.Join(shared, "in", fi.Name()), filepath.Join(dir, "in", fi.Name())
			if !fi.IsDir() {
				must(os.Link(src, dst))
				continue
			}
			must(os.Mkdir(dst, 0o755))
			must(os.Mkdir(filepath.Join(dst, "sub"), 0o755))
			must(os.Link(filepath.Join(src, "file"), filepath.Join(dst, "file")))
			must(os.Link(filepath.Join(src, "sub/hard"), filepath.Join(dst, "sub/hard")))
			must(os.Link(filepath.Join(src, "sub/x"), filepath.Join(dst, "sub/x")))
			must(os.Symlink("file", filepath.Join(dst, "link")))
			for _, p := range []string{"sub", ""} {
				must(os.Chtimes(filepath.Join(dst, p), time.Unix(1500000000, 0), time.Unix(1500000000, 0)))
			}
		}
	}

	t.Section("reference", "every subcommand without faults, twice: success, the same bytes, nothing left behind")
	ref := make([]string, len(subs))
	events := make([][]event, len(subs))
	broken := false
	for i, s := range subs {
		var res result
		dir, env := newCase()
		link(dir)
		res = traced(dir, filepath.Join(dir, "stdout"), env, nil, s.args)
		ref[i], events[i] = read(filepath.Join(dir, "stdout")), agreed("22-"+s.name, func() []event { return res.events })
		rest := ls(filepath.Join(dir, "tmp"))
		res2 := traced(dir, filepath.Join(dir, "stdout"), env, nil, s.args)
		same := read(filepath.Join(dir, "stdout")) == ref[i]
		os.RemoveAll(dir)
		t.Case(func() string { return s.name }, func(c *mc.C) {
			c.Outcome(s.name)
			if res.rc != 0 || res2.rc != 0 || len(ref[i]) == 0 {
				c.Failf("exit status %d, %d bytes: %s", res.rc, len(ref[i]), res.stderr)
			}
			if !same {
				c.Failf("the second run prints something else")
			}
			if len(rest) > 0 {
				c.Failf("left behind: %q", rest)
			}
		})
		broken = broken || res.rc != 0
	}
	if broken {
		return
	}

	// verdict checks the outcome of a run against the reference.
	verdict := func(c *mc.C, i int, rc int, stdout, stderr string, inputFault bool) {
		switch {
		case rc == 0 && stdout != ref[i]:
			c.Failf("exit status 0, but the output is incomplete or wrong (%d bytes, want %d)", len(stdout), len(ref[i]))
		case rc != 0 && rc < 128 && len(stderr) == 0:
			c.Failf("exit status %d without a message", rc)
		case rc == 2 && strings.Contains(stderr, "goroutine ") && !strings.Contains(stderr, "SIGXFSZ"):
			c.Failf("crashed: %.200s", stderr)
		case rc != 0 && inputFault && stdout != "":
			c.Failf("exit status %d, but %d bytes on stdout", rc, len(stdout))
		}
	}

	t.Section("faults", "every file system call of every subcommand fails (I/O error; calls that open: also no permission; that open or look: also no such file; that write: also no space, short, interrupted)")
	for i, s := range subs {
		for _, e := range events[i] {
			acts := []act{{"fail", e.idx, eio}}
			if strings.HasPrefix(e.name, "open") {
				acts = append(acts, act{"fail", e.idx, eacces})
			}
			if strings.HasPrefix(e.name, "open") || strings.Contains(e.name, "stat") || strings.HasPrefix(e.name, "readlink") || e.name == "getdents64" {
				acts = append(acts, act{"fail", e.idx, enoent})
			}
			if e.name == "read" || e.name == "write" {
				acts = append(acts, act{"fail", e.idx, eintr})
			}
			if e.sized() {
				acts = append(acts, act{"fail", e.idx, enospc}, act{"short", e.idx, 1}, act{"short", e.idx, -1})
			}
			for _, a := range acts {
				i, s, e, a := i, s, e, a
				t.Case(func() string { return fmt.Sprintf("%s: %v (%v)", s.name, a, e) }, func(c *mc.C) {
					dir, env := newCase()
					defer os.RemoveAll(dir)
					link(dir)
					out := filepath.Join(dir, "stdout")
					res := traced(dir, out, env, []act{a}, s.args)
					c.Outcome(fmt.Sprintf("%s %s %s rc%d", s.name, e.name, a.mode, res.rc))
					c.Transitions(len(res.events))
					c.State(fmt.Sprintf("%s %v", s.name, a))
					// the inputs may be read again while the output is written: only what comes before it
					// is known not to have caused any output
					// (what has the fault's number may differ from run to run, where goroutines do input and output)
					before, output := true, false
					for _, ev := range res.events {
						if ev.idx == a.n {
							output = ev.path == "stdout" && ev.sized()
						}
						before = before && (ev.path != "stdout" || !ev.sized() || ev.idx > a.n)
					}
					verdict(c, i, res.rc, read(out), res.stderr, before && !output)
					if output && a.mode == "fail" && a.arg != eintr && res.rc == 0 {
						c.Failf("exit status 0 although writing failed")
					}
				})
			}
		}
	}

	t.Section("stdout", "stdout is a full device, closed, a pipe that breaks after k bytes, or a file that may not grow beyond k bytes")
	for i, s := range subs {
		i, s := i, s
		t.Case(func() string { return s.name + " >/dev/full" }, func(c *mc.C) {
			dir, env := newCase()
			defer os.RemoveAll(dir)
			link(dir)
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			defer f.Close()
			rc, stderr := plain(dir, env, f, s.args)
			c.Outcome(fmt.Sprint(rc))
			if rc == 0 || len(stderr) == 0 {
				c.Failf("exit status %d, message %q", rc, stderr)
			}
		})
		t.Case(func() string { return s.name + " with stdout opened for reading" }, func(c *mc.C) {
			dir, env := newCase()
			defer os.RemoveAll(dir)
			link(dir)
			f, err := os.Open("/dev/null")
			must(err)
			defer f.Close()
			rc, stderr := plain(dir, env, f, s.args)
			c.Outcome(fmt.Sprint(rc))
			if rc == 0 || len(stderr) == 0 {
				c.Failf("exit status %d, message %q", rc, stderr)
			}
		})
		n := len(ref[i])
		cuts := []int{0, 1, 2, 511, 512, 513, n / 2, n - 1025, n - 1024, n - 513, n - 512, n - 511, n - 2, n - 1}
		for k := 1024; k < n; k += t.Pick(n/8+1, n/256+1) {
			cuts = append(cuts, k)
		}
		for _, k := range cuts {
			if k < 0 || k >= n {
				continue
			}
			k := k
			t.Case(func() string { return fmt.Sprintf("%s | head -c %d (of %d)", s.name, k, n) }, func(c *mc.C) {
				dir, env := newCase()
				defer os.RemoveAll(dir)
				link(dir)
				r, w, err := os.Pipe()
				must(err)
				// a small pipe, so that the output does not fit
				_, _, _ = syscall.Syscall(syscall.SYS_FCNTL, w.Fd(), 1031, 4096)
				done := make(chan string)
				go func() {
					bs := make([]byte, k)
					_, _ = io.ReadFull(r, bs)
					r.Close()
					done <- string(bs)
				}()
				rc, _ := plain(dir, env, w, s.args)
				w.Close()
				got := <-done
				c.Outcome(fmt.Sprint(rc))
				// what fits in to the pipe is written; more than that must have been noticed
				if rc == 0 && n-k > 4096 {
					c.Failf("exit status 0 although only %d of %d bytes were read before the pipe was closed", k, n)
				}
				if !strings.HasPrefix(ref[i], got) {
					c.Failf("the output is not a prefix of the right one")
				}
			})
			t.Case(func() string { return fmt.Sprintf("%s with a file size limit of %d (of %d)", s.name, k, n) }, func(c *mc.C) {
				dir, env := newCase()
				defer os.RemoveAll(dir)
				link(dir)
				out := filepath.Join(dir, "stdout")
				f, err := os.Create(out)
				must(err)
				defer f.Close()
				// the limit is only for the output: it is started at an offset of a sparse file
				const big = 1 << 30
				must(f.Truncate(big - int64(k)))
				_, err = f.Seek(0, io.SeekEnd)
				must(err)
				rc, stderr := limited(dir, env, f, s.args, big)
				c.Outcome(fmt.Sprint(rc))
				if rc == 0 {
					c.Failf("exit status 0 although the output cannot have been written")
				}
				if len(stderr) == 0 && rc < 128 {
					c.Failf("exit status %d without a message", rc)
				}
			})
		}
	}

	t.Section("damaged", "every truncation of the inputs, missing inputs, directories instead of files")
	for i, s := range subs {
		for _, in := range s.inputs {
			content := read(filepath.Join(shared, in))
			step := 1
			if !t.Thorough() {
				step = len(content)/300 + 1
			}
			for k := 0; k < len(content); k += step {
				i, s, in, k := i, s, in, k
				t.Case(func() string { return fmt.Sprintf("%s: %s cut to %d of %d bytes", s.name, in, k, len(content)) }, func(c *mc.C) {
					dir, env := newCase()
					defer os.RemoveAll(dir)
					link(dir)
					p := filepath.Join(dir, in)
					must(os.Remove(p))
					write(p, content[:k])
					out := filepath.Join(dir, "stdout")
					f, err := os.Create(out)
					must(err)
					rc, stderr := plain(dir, env, f, s.args)
					f.Close()
					c.Outcome(fmt.Sprint(rc))
					if k == 0 && rc == 0 && !strings.HasPrefix(in, "in/base") && !strings.HasSuffix(in, ".whl") {
						return // no bytes at all: an empty uncompressed layer
					}
					if k == 1 && rc == 0 && strings.HasSuffix(in, ".gz") && s.name == "image3" {
						return // not recognisable as compressed
					}
					verdict(c, i, rc, read(out), stderr, true)
				})
			}
		}
		for _, in := range s.layers {
			content := read(filepath.Join(shared, in))
			for k := 1; k < len(content); k += t.Pick(97, 1) {
				if k%512 == 0 {
					continue // may be between two entries
				}
				i, s, in, k := i, s, in, k
				t.Case(func() string { return fmt.Sprintf("%s: %s cut to %d of %d bytes", s.name, in, k, len(content)) }, func(c *mc.C) {
					dir, env := newCase()
					defer os.RemoveAll(dir)
					link(dir)
					p := filepath.Join(dir, in)
					must(os.Remove(p))
					write(p, content[:k])
					out := filepath.Join(dir, "stdout")
					f, err := os.Create(out)
					must(err)
					rc, stderr := plain(dir, env, f, s.args)
					f.Close()
					c.Outcome(fmt.Sprint(rc))
					verdict(c, i, rc, read(out), stderr, true)
				})
			}
		}
		for _, in := range append(append([]string{"in/plat.yml", "in/d"}, s.inputs...), s.layers...) {
			used := false
			for _, a := range s.args {
				used = used || a == in || strings.HasSuffix(a, "="+in)
			}
			if !used {
				continue
			}
			for _, how := range []string{"missing", "directory", "file", "loop"} {
				i, s, in, how := i, s, in, how
				if in == "in/d" && how == "directory" || how == "file" && s.name == "image3" {
					continue
				}
				t.Case(func() string { return fmt.Sprintf("%s: %s is %s", s.name, in, how) }, func(c *mc.C) {
					dir, env := newCase()
					defer os.RemoveAll(dir)
					link(dir)
					p := filepath.Join(dir, in)
					must(os.RemoveAll(p))
					switch how {
					case "directory":
						must(os.Mkdir(p, 0o755))
					case "file":
						write(p, "{this is neither: [of the formats")
					case "loop":
						must(os.Symlink(filepath.Base(p), p))
					}
					out := filepath.Join(dir, "stdout")
					f, err := os.Create(out)
					must(err)
					rc, stderr := plain(dir, env, f, s.args)
					f.Close()
					c.Outcome(fmt.Sprint(rc))
					verdict(c, i, rc, read(out), stderr, true)
					if rc == 0 {
						c.Failf("exit status 0")
					}
				})
			}
		}
	}
	t.Section("index", "wheels that the index does not have, or whose content is not what it says")
	for _, v := range []string{"pkg-2.0-py3-none-any.whl", "pkg-3.0-py3-none-any.whl", "pkg-4.0-py3-none-any.whl", "pkg-5.0-py3-none-any.whl", "other-1.0-py3-none-any.whl", "notawheel", "pkg-1.0.tar.gz"} {
		v := v
		t.Case(func() string { return "getwheel " + v }, func(c *mc.C) {
			dir, env := newCase()
			defer os.RemoveAll(dir)
			out := filepath.Join(dir, "stdout")
			f, err := os.Create(out)
			must(err)
			rc, stderr := plain(dir, env, f, []string{"python", "getwheel", "--index-server=" + index, v})
			f.Close()
			c.Outcome(fmt.Sprint(rc))
			if rc == 0 || stderr == "" || read(out) != "" {
				c.Failf("exit status %d, %d bytes on stdout, message %q", rc, len(read(out)), stderr)
			}
		})
	}
	t.Section("standins", "the byte-compiler, the toolchain, or the interpreter fails, is missing, or prints nonsense")
	type si struct {
		name string
		s    int
		do   func(dir string, env []string) []string
		args []string
	}
	for _, x := range []si{
		{"compiler fails", 2, func(dir string, env []string) []string {
			p := filepath.Join(dir, "in/plat.yml")
			bs := strings.Replace(read(p), `"`+self+`", "pycompile"`, `"/bin/false"`, 1)
			must(os.Remove(p))
			write(p, bs)
			return env
		}, nil},
		{"compiler missing", 2, func(dir string, env []string) []string {
			p := filepath.Join(dir, "in/plat.yml")
			bs := strings.Replace(read(p), `"`+self+`", "pycompile"`, `"/nonexistent/python"`, 1)
			must(os.Remove(p))
			write(p, bs)
			return env
		}, nil},
		{"unknown platform field", 2, func(dir string, env []string) []string {
			p := filepath.Join(dir, "in/plat.yml")
			bs := read(p) + "Bogus: 1\n"
			must(os.Remove(p))
			write(p, bs)
			return env
		}, nil},
		{"toolchain fails", 3, func(dir string, env []string) []string { return env }, []string{"layer", "gobuild", "fail"}},
		{"toolchain missing", 3, func(dir string, env []string) []string { env[0] = "PATH=/nonexistent"; return env }, nil},
		{"interpreter prints nonsense", 8, func(dir string, env []string) []string {
			write(filepath.Join(dir, "nonsense"), "Traceback\n")
			return append(env, "FAKEPYTHON_INFO="+filepath.Join(dir, "nonsense"))
		}, nil},
		{"interpreter prints nothing", 8, func(dir string, env []string) []string {
			write(filepath.Join(dir, "nonsense"), "")
			return append(env, "FAKEPYTHON_INFO="+filepath.Join(dir, "nonsense"))
		}, nil},
		{"interpreter fails", 8, func(dir string, env []string) []string { return append(env, "FAKEPYTHON_INFO=/nonexistent") }, nil},
		{"interpreter missing", 8, func(dir string, env []string) []string { return env }, []string{"python", "inspect", "--interpreter=/nonexistent/python3"}},
	} {
		x := x
		t.Case(func() string { return x.name }, func(c *mc.C) {
			dir, env := newCase()
			defer os.RemoveAll(dir)
			link(dir)
			env = x.do(dir, env)
			args := x.args
			if args == nil {
				args = subs[x.s].args
			}
			out := filepath.Join(dir, "stdout")
			f, err := os.Create(out)
			must(err)
			rc, stderr := plain(dir, env, f, args)
			f.Close()
			c.Outcome(fmt.Sprint(rc))
			if rc == 0 || stderr == "" || read(out) != "" {
				c.Failf("exit status %d, %d bytes on stdout, message %q", rc, len(read(out)), stderr)
			}
			if l := ls(filepath.Join(dir, "tmp")); len(l) > 0 {
				c.Failf("left behind: %q", l)
			}
		})
	}

	t.Section("usage", "wrong numbers of arguments, unknown and malformed flags, and unknown subcommands at every place: exit status 2, a message, and nothing on stdout")
	usage := func(args ...string) {
		t.Case(func() string { return strings.Join(args, " ") }, func(c *mc.C) {
			dir, env := newCase()
			defer os.RemoveAll(dir)
			link(dir)
			out := filepath.Join(dir, "stdout")
			f, err := os.Create(out)
			must(err)
			rc, stderr := plain(dir, env, f, args)
			f.Close()
			c.Outcome(fmt.Sprint(rc))
			if rc != 2 || stderr == "" || strings.Contains(stderr, "goroutine ") || read(out) != "" {
				c.Failf("exit status %d (want 2), %d bytes on stdout, message %q", rc, len(read(out)), stderr)
			}
			if l := ls(dir); len(l) < 8 {
				c.Failf("files are gone: %q", l)
			}
		})
	}
	usage()
	for _, g := range []string{"image", "layer", "python"} {
		usage(g)
		usage(g, "bogus")
		usage(g, "bogus", "x")
		usage(g, "--bogus")
		usage(g, "-z")
	}
	for _, b := range []string{"bogus", "--bogus", "-z", "imag", "Layer", "--version", "-"} {
		usage(b)
	}
	for _, s := range subs {
		pre := s.args[:2]
		for _, bad := range []string{"--bogus", "--bogus=x", "-z", "-="} {
			// at every place of the command line
			for k := 2; k <= len(s.args); k++ {
				a := append([]string(nil), s.args[:k]...)
				a = append(a, bad)
				usage(append(a, s.args[k:]...)...)
			}
		}
		usage(append([]string{"--bogus"}, s.args...)...)
		if s.name != "inspect" {
			usage(pre...)
			usage(append(append([]string(nil), pre...), "--")...)
		}
	}
	for _, a := range []string{
		"layer squash in/l1.tar", "layer dir in/d in/d", "layer dir --chown-uid=x in/d", "layer dir --chown-gid= in/d", "layer dir --prefix-uid=1.5 in/d", "layer dir --prefix", "layer dir --prefix-gid=99999999999999999999 in/d",
		"layer wheel in/pkg-1.0-py3-none-any.whl", "layer wheel --platform-file", "layer wheel --platform-file=in/plat.yml", "layer wheel --platform-file=in/plat.yml a b", "image build --config.Env.clear=maybe in/l1.tar",
		"image build --base", "image build -e", "image build -w", "python getwheel a b", "python inspect x", "python inspect --interpreter", "layer gobuild -o", "layer squash --output=x in/l1.tar in/l1.tar",
	} {
		usage(strings.Fields(a)...)
	}
}

// limited runs the command with a limit on the size of files.
func limited(dir string, env []string, stdout *os.File, args []string, limit int) (int, string) {
	return plainCmd(dir, env, stdout, append([]string{"/bin/sh", "-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, limit/512), "sh", os.Getenv("OCIBUILD")}, args...))
}
