package main

import (
	"archive/tar"
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c11 = mc.Suite{
	ID:    "C11",
	Level: "model_checking",
	Rule: "every member name of up to 4 (5) components of a hostile alphabet, in the library root and below each data category, x member " +
		"type x install schemes; every hostile entry point name; every hostile name of the metadata directory; every hostile source " +
		"name given to the external compiler; non-trivial: always (either the installation must fail, or the layer must be exactly the expected one)",
	Assumptions: []string{
		"the external compiler runs as an unprivileged user in a scratch tree deep enough that no explored name leaves it; installation itself writes nothing but the returned layer",
	},
	Body: runC11,
}

// contained checks a wheel with the given hostile member.
func contained(c *mc.C, m mem, plat python.Platform, purelib, recName string) {
	comps, ok := split(m.name)
	base := []mem{file("p/a.py", "x"), file(data+"/scripts/ok", "#!python\n")}
	w := append(base, m, file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta(purelib)))
	rows := records(w, "sha256")
	for i := range rows {
		if rows[i].name == m.name {
			rows[i].name = recName
		}
	}
	w = append(w, file(info+"/RECORD", recordText(rows)))
	c.Transitions(1)
	fc := &fakeCompiler{}
	got, err := installReal(zipBytes(w), plat, options{}, fc, nil)
	for _, n := range fc.got {
		if n != path.Clean(n) || strings.HasPrefix(n, "/") || n == ".." || strings.HasPrefix(n, "../") {
			c.Failf("the compiler was given %q", n)
		}
	}
	if !ok || (len(comps) == 0 && !m.isDir()) {
		if err == nil {
			c.Failf("installed a wheel with a member named %q", m.name)
		}
		c.Outcome("outside")
		return
	}
	if err != nil {
		c.Outcome("refused")
		return
	}
	// accepted: the layer must be exactly what the clean name means
	clean := m
	clean.name = strings.Join(comps, "/")
	if m.isDir() {
		clean.name += "/"
	}
	cw := append(base[:2:2], clean, w[3], w[4])
	if clean.name == "/" {
		cw = append(base[:2:2], w[3], w[4])
	}
	want, werr := install(withRecord(cw), plat, options{compile: true})
	if werr == nil {
		werr = parents(want)
	}
	if werr != nil {
		if _, u := werr.(unspecified); !u {
			c.Failf("installed, although: %v", werr)
		}
		return
	}
	compare(c, want, got, plat, clampOf(w, options{}), false)
	c.Outcome("inside")
}

func hostileNames(comps []string, depth int, f func(name string)) {
	var rec func(parts []string)
	rec = func(parts []string) {
		if len(parts) > 0 {
			f(strings.Join(parts, "/"))
		}
		if len(parts) == depth {
			return
		}
		for _, s := range comps {
			rec(append(parts[:len(parts):len(parts)], s))
		}
	}
	rec(nil)
}

func runC11(t *mc.T) {
	comps := []string{"..", ".", "", "a", "a.py", info, data, "scripts", "purelib"}
	depth := t.Pick(4, 5)
	t.Section("members", fmt.Sprintf("all member names of up to %d of %d components x 2 record spellings x schemes", depth, len(comps)))
	i := 0
	hostileNames(comps, depth, func(name string) {
		if name == "" {
			return
		}
		i++
		for _, clean := range []bool{false, true} {
			if !t.Mine() {
				continue
			}
			name, clean, pi := name, clean, i%4
			t.Run(func() string { return fmt.Sprintf("%q scheme=%d cleanRECORD=%v", name, pi, clean) }, func(c *mc.C) {
				rn := name
				if clean {
					rn = path.Clean(name)
				}
				contained(c, file(name, "evil"), plats[pi], []string{"true", "false"}[i%2], rn)
			})
		}
	})
	cats := []string{"purelib", "platlib", "headers", "scripts", "data", "other", ".."}
	dcomps := []string{"..", ".", "", "x", "usr", "..x", "..."}
	t.Section("data", fmt.Sprintf("all names of up to %d of %d components below each of %d data categories", depth, len(dcomps), len(cats)))
	for _, cat := range cats {
		hostileNames(dcomps, depth, func(name string) {
			if !t.Mine() {
				return
			}
			i++
			full, pi := data+"/"+cat+"/"+name, i%4
			t.Run(func() string { return fmt.Sprintf("%q scheme=%d", full, pi) }, func(c *mc.C) {
				contained(c, exe(full, "#!python\nevil"), plats[pi], "true", path.Clean(full))
			})
		})
	}
	odd := []string{"\\..\\x", "C:\\x", "c:/x", "..\\x", "a\x00/../../x", "a\x00b", "\x00", " ../x", "../ x", "~/x", "$HOME/x", "%2e%2e/x", "..%2fx", "．．/x", "a/\n../x", "..;/x", "/", "//", "///a", "/..", "//../x", "./../x", "a/../../x", "a/./../../x", "../" + info + "/x", "/" + info + "/x", info + "/../../x", "/usr/lib/python3.9/site-packages/x", "../site-packages/x", "../../site-packages/p", strings.Repeat("../", 40) + "etc/x", strings.Repeat("a/../", 20) + "x", strings.Repeat("a/", 20) + strings.Repeat("../", 21) + "x"}
	t.Section("odd", fmt.Sprintf("%d odd names x member mode bits x schemes", len(odd)))
	for _, n := range odd {
		for _, attrs := range []uint32{ifreg | 0o644<<16, ifdir | 0o755<<16 | 0x10, iflnk | 0o777<<16, 0} {
			for pi := range plats {
				n, attrs, pi := n, attrs, pi
				t.Case(func() string { return fmt.Sprintf("%q attrs=%#x scheme=%d", n, attrs, pi) }, func(c *mc.C) {
					contained(c, mem{name: n, data: "../../evil", attrs: attrs, creator: 3}, plats[pi], "true", n)
				})
			}
		}
	}
	c11dist(t)
	c11lengths(t)
	c11keys(t)
	c11compile(t)
}

// c11dist: hostile names of the distribution itself.
func c11dist(t *mc.T) {
	dists := []string{"", ".", "..", "...", " ", "x", "~", "a..", "..a", "\\", "x.data", "x.dist-info", "-", "é"}
	t.Section("dist", fmt.Sprintf("%d names of the .dist-info directory x 6 data members x schemes", len(dists)))
	for _, d := range dists {
		for _, rest := range []string{"scripts/s", "data/d", "purelib/u.py", "../x", "headers/../../x", "scripts/../s"} {
			for pi := range plats {
				d, rest, pi := d, rest, pi
				t.Case(func() string { return fmt.Sprintf("%q %q scheme=%d", d, rest, pi) }, func(c *mc.C) {
					oi, od := info, data
					info, data = d+".dist-info", d+".data"
					defer func() { info, data = oi, od }()
					n := data + "/" + rest
					contained(c, exe(n, "#!python\n"), plats[pi], "true", n)
				})
			}
		}
	}
}

func plainName(key string) bool {
	return key != "" && key != "." && key != ".." && !strings.ContainsAny(key, "/\x00")
}

// c11keys: hostile entry point names.
func c11keys(t *mc.T) {
	comps := []string{"..", ".", "", "a", "usr", "..."}
	var keys []string
	hostileNames(comps, 4, func(n string) { keys = append(keys, n) })
	keys = append(keys, "a\x00b", "a\x00/../b", "\\..\\a", "a b", "~a", "-a", "a:b", "/abs", strings.Repeat("../", 30)+"x", "é", "..é", "$x", ".a", "a.", "..a")
	t.Section("keys", fmt.Sprintf("%d entry point names x 2 sections x schemes", len(keys)))
	for _, key := range keys {
		for _, sec := range []string{"console_scripts", "gui_scripts"} {
			for pi := range plats {
				if !t.Mine() {
					continue
				}
				key, sec, pi := key, sec, pi
				t.Run(func() string { return fmt.Sprintf("%q in %s scheme=%d", key, sec, pi) }, func(c *mc.C) {
					ms := full([]mem{file("p/a.py", "x"), file(info+"/entry_points.txt", "["+sec+"]\nok = m:f\n"+key+" = m:f\n")}, "true")
					plat := plats[pi]
					got, err := installReal(zipBytes(ms), plat, options{}, nil, entry_points.CreateScripts(plat))
					c.Transitions(1)
					k := strings.TrimSpace(key)
					if !plainName(k) {
						if err == nil {
							c.Failf("installed a script named %q", k)
						}
						c.Outcome("refused")
						return
					}
					if err != nil {
						c.Failf("refused: %v", err)
						return
					}
					allowed := map[string]bool{}
					sdir := cleanDir(plat.Scheme.Scripts)
					for _, n := range []string{join(sdir, k), join(sdir, "ok"), join(cleanDir(plat.Scheme.PureLib), "p/a.py"),
						join(cleanDir(plat.Scheme.PureLib), info+"/METADATA"), join(cleanDir(plat.Scheme.PureLib), info+"/WHEEL"),
						join(cleanDir(plat.Scheme.PureLib), info+"/entry_points.txt")} {
						allowed[n] = true
					}
					n := 0
					for _, e := range got {
						if e.Hdr.Typeflag == tar.TypeDir {
							continue
						}
						if !allowed[e.Hdr.Name] {
							c.Failf("unexpected file %q", e.Hdr.Name)
						}
						n++
					}
					if n != len(allowed) {
						c.Failf("%d files, want %d", n, len(allowed))
					}
					c.Outcome("script")
				})
			}
		}
	}
}

// The external compiler, run by an unprivileged helper.

type helperReq struct{ Names []string }
type helperResp struct {
	Err   string
	Files []string // everything in the scratch tree afterwards, and sentinels found
}

const helperDepth = 12

func compileHelper() {
	root := os.Getenv("WHEEL_HELPER")
	tmp := root + strings.Repeat("/d", helperDepth)
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		panic(err)
	}
	os.Setenv("TMPDIR", tmp)
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<20)
	enc := json.NewEncoder(os.Stdout)
	comp, err := python.ExternalCompiler("/bin/sh", "-c", `[ -z "$SNAPSHOT" ] || cd "$SNAPSHOT" && find . ! -type d > "$SNAPSHOT.list"`, "sh")
	if err != nil {
		panic(err)
	}
	os.Setenv("SNAPSHOT", root)
	for in.Scan() {
		var req helperReq
		if err := json.Unmarshal(in.Bytes(), &req); err != nil {
			panic(err)
		}
		_ = os.Remove(root + ".list")
		var refs []fsutil.FileReference
		for _, n := range req.Names {
			h := &tar.Header{Typeflag: tar.TypeReg, Name: path.Base(n), Mode: 0o644, Size: 1, ModTime: time.Unix(1000000000, 0)}
			refs = append(refs, &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: n, MContent: []byte("x")})
		}
		var resp helperResp
		if _, err := comp(ctx, time.Unix(1000000000, 0), nil, refs); err != nil {
			resp.Err = err.Error()
		}
		// what the compiler saw, and what is left
		bs, _ := os.ReadFile(root + ".list")
		for _, l := range strings.Split(string(bs), "\n") {
			if l != "" {
				resp.Files = append(resp.Files, "during:"+l)
			}
		}
		_ = filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
			if err == nil && (!st.IsDir() || len(p) > len(tmp)) {
				resp.Files = append(resp.Files, "after:"+strings.TrimPrefix(p, root))
				if !st.IsDir() {
					_ = os.Remove(p)
				}
			}
			return nil
		})
		_ = enc.Encode(resp)
	}
}

type helper struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	out  *json.Decoder
	root string
}

func startHelper() *helper {
	root, err := os.MkdirTemp("", "helper.")
	if err != nil {
		panic(err)
	}
	for d := root; len(d) > len(os.Getenv("WORK")); d = filepath.Dir(d) {
		_ = os.Chmod(d, 0o755)
	}
	_ = os.Chmod(os.Getenv("WORK"), 0o755)
	sub := root + "/s"
	if err := os.Mkdir(sub, 0o700); err != nil {
		panic(err)
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "WHEEL_HELPER="+sub+"/r", "HOME=/nonexistent")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if os.Getuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}
		if err := os.Chown(sub, 65534, 65534); err != nil {
			panic(err)
		}
	}
	cmd.Stderr = os.Stderr
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &helper{cmd: cmd, in: json.NewEncoder(w), out: json.NewDecoder(r), root: sub}
}

func c11compile(t *mc.T) {
	comps := []string{"..", ".", "", "a", "b.py"}
	t.Section("compiler", "all source names of up to 4 of 5 components given directly to the external compiler (run as an unprivileged user)")
	var h *helper
	hostileNames(comps, 4, func(name string) {
		if name == "" || strings.HasSuffix(name, "/") || path.Clean(name) == "." {
			return
		}
		if !t.Mine() {
			return
		}
		t.Run(func() string { return fmt.Sprintf("%q", name) }, func(c *mc.C) {
			if h == nil {
				h = startHelper()
			}
			if err := h.in.Encode(helperReq{Names: []string{"ok.py", name}}); err != nil {
				panic(err)
			}
			var resp helperResp
			if err := h.out.Decode(&resp); err != nil {
				panic("helper died: " + err.Error())
			}
			c.Transitions(1)
			comps, ok := split(name)
			outside := !ok && !strings.HasPrefix(name, "/") || len(comps) == 0
			var during []string
			for _, f := range resp.Files {
				switch {
				case strings.HasPrefix(f, "after:"):
					c.Failf("left behind (relative to the top of the scratch tree): %s", f[6:])
				case strings.HasPrefix(f, "during:"):
					p := strings.TrimPrefix(f, "during:./")
					pre := strings.Repeat("d/", helperDepth)
					if !strings.HasPrefix(p, pre) || !strings.Contains(p[len(pre):], "/") {
						c.Failf("written outside of the temporary directory: %s", p)
						continue
					}
					p = p[len(pre):]
					during = append(during, p[strings.Index(p, "/")+1:])
				}
			}
			if outside && resp.Err == "" {
				c.Failf("source %q was accepted", name)
			}
			if ok && resp.Err == "" {
				want := []string{strings.Join(comps, "/"), "ok.py"}
				sort.Strings(want)
				sort.Strings(during)
				if strings.Join(want, "\n") != strings.Join(during, "\n") && want[0] != want[1] {
					c.Failf("the compiler saw %q, want %q", during, want)
				}
			}
			c.Outcome(fmt.Sprint(outside, resp.Err == ""))
		})
	})
	if h != nil {
		_ = h.cmd.Process.Kill()
		_ = h.cmd.Wait()
	}
}
