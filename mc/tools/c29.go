package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
	"sigs.k8s.io/yaml"

	"github.com/datawire/dlib/dlog"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c29 = mc.Suite{
	ID:    "C29",
	Level: "model_checking",
	Rule: "the real command inspects stand-in interpreters (a real Python that runs the code it is given, with every fact about the interpreter replaced) on the host and, " +
		"through a stand-in for docker that keeps a set of images, in images; the description it prints is read as `layer wheel` reads it and compared with the facts; " +
		"every behaviour of interpreters and docker of a list, at every step; non-trivial: every case",
	Assumptions: []string{
		"the docker stand-in implements 'load', 'run' and 'rm' over a set of tagged images",
		"the interpreter is given as a plain name or an absolute path; scheme directories are absolute; owners on the host have names",
		"what the inspected Python prints is what the inspecting code given to it makes it print, possibly cut short or replaced",
	},
	Body:     c29body,
	Deadline: 10 * time.Minute,
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var keys = []string{"purelib", "platlib", "headers", "scripts", "data"}

// world is the surroundings of one run of the command.
type world struct {
	dir, bin, root, state, log, self string
	mode                             dockerMode
}

func newWorld() *world {
	dir, err := os.MkdirTemp("", "world")
	must(err)
	self, err := os.Executable()
	must(err)
	w := &world{dir: dir, bin: filepath.Join(dir, "bin"), root: filepath.Join(dir, "root"), state: filepath.Join(dir, "docker"), log: filepath.Join(dir, "log", "python"), self: self}
	for _, d := range []string{w.bin, w.root, filepath.Join(w.state, "images"), filepath.Join(w.state, "interp"), filepath.Dir(w.log), filepath.Join(dir, "tmp")} {
		must(os.MkdirAll(d, 0o755))
	}
	must(os.Symlink(self, filepath.Join(w.bin, "docker")))
	return w
}

func (w *world) close() { must(os.RemoveAll(w.dir)) }

// info is an ordinary interpreter.
func (w *world) info(name string) pyinfo {
	return pyinfo{Name: name, Log: w.log, Self: w.self,
		Scheme: map[string]string{"purelib": w.root + "/lib/python3.9/site-packages", "platlib": w.root + "/lib64/python3.9/site-packages",
			"headers": w.root + "/include/python3.9", "scripts": w.root + "/bin", "data": w.root},
		Tags:    []string{"cp39-cp39-linux_x86_64", "cp39-abi3-linux_x86_64", "py3-none-any"},
		Version: version{3, 9, 1, "final", 0}, Magic: []byte{0x61, 0x0d, 0x0d, 0x0a}}
}

func (w *world) python(p string, info pyinfo) { installPython(p, info) }

func (w *world) inImage(p string, info pyinfo) {
	installPython(filepath.Join(w.state, "interp", hex.EncodeToString([]byte(p))), info)
}

func (w *world) env() []string {
	return []string{"PATH=" + w.bin, "TMPDIR=" + filepath.Join(w.dir, "tmp"), "HOME=" + w.dir, "DOCKER_STATE=" + w.state, "SOURCE_DATE_EPOCH=1600000000", "GOMAXPROCS=2", "PYTHONDONTWRITEBYTECODE=1"}
}

type outcome struct {
	rc             int
	stdout, stderr string
}

func (w *world) run(args ...string) outcome {
	bs, err := json.Marshal(w.mode)
	must(err)
	must(ioutil.WriteFile(filepath.Join(w.state, "mode.json"), bs, 0o644))
	return w.command(args...)
}

func (w *world) command(args ...string) outcome { return w.exec(os.Getenv("OCIBUILD"), args...) }

// selfRun runs this program itself with a docker that does not fail.
func (w *world) selfRun(args ...string) outcome {
	must(ioutil.WriteFile(filepath.Join(w.state, "mode.json"), []byte("{}"), 0o644))
	return w.exec(w.self, args...)
}

func (w *world) exec(exe string, args ...string) outcome {
	cmd := exec.Command(exe, args...)
	cmd.Env = w.env()
	cmd.Dir = w.dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
	}
	return outcome{cmd.ProcessState.ExitCode(), out.String(), errb.String()}
}

// images lists the tags of the stand-in docker's images.
func (w *world) images() []string {
	fis, err := ioutil.ReadDir(filepath.Join(w.state, "images"))
	must(err)
	ret := []string{}
	for _, fi := range fis {
		bs, err := hex.DecodeString(fi.Name())
		must(err)
		ret = append(ret, string(bs))
	}
	sort.Strings(ret)
	return ret
}

func (w *world) putImage(tag string) {
	must(ioutil.WriteFile(filepath.Join(w.state, "images", hex.EncodeToString([]byte(tag))), []byte("something else"), 0o644))
}

func (w *world) calls() [][]string {
	bs, _ := ioutil.ReadFile(filepath.Join(w.state, "log"))
	var ret [][]string
	for _, l := range strings.Split(strings.TrimSpace(string(bs)), "\n") {
		var c []string
		if json.Unmarshal([]byte(l), &c) == nil && len(c) > 0 {
			ret = append(ret, c)
		}
	}
	return ret
}

// description is the platform file as `layer wheel` reads it.
type description struct {
	python.Platform
	PyCompile []string
}

func (d description) String() string {
	v := "nil"
	if d.VersionInfo != nil {
		v = fmt.Sprintf("%+v", *d.VersionInfo)
	}
	return fmt.Sprintf("console=%q graphical=%q scheme=%+q owner=%d:%d %q:%q version=%s magic=%x tags=%q compile=%q", d.ConsoleShebang, d.GraphicalShebang, d.Scheme, d.UID, d.GID, d.UName, d.GName, v, d.MagicNumber, d.Tags, d.PyCompile)
}

func expected(info pyinfo, console, graphical string, uid, gid int, uname, gname string, compile []string) description {
	var d description
	d.ConsoleShebang, d.GraphicalShebang = console, graphical
	d.Scheme = python.Scheme{PureLib: info.Scheme["purelib"], PlatLib: info.Scheme["platlib"], Headers: info.Scheme["headers"], Scripts: info.Scheme["scripts"], Data: info.Scheme["data"]}
	d.UID, d.GID, d.UName, d.GName = uid, gid, uname, gname
	v := python.VersionInfo(info.Version)
	d.VersionInfo = &v
	d.MagicNumber = info.Magic
	for _, t := range info.Tags {
		p := strings.Split(t, "-")
		d.Tags = append(d.Tags, pep425.Tag{Python: p[0], ABI: p[1], Platform: p[2]})
	}
	d.PyCompile = compile
	return d
}

func wantDescription(c *mc.C, o outcome, want description) {
	if o.rc != 0 {
		c.Failf("exit status %d: %s", o.rc, o.stderr)
		return
	}
	var got description
	if err := yaml.Unmarshal([]byte(o.stdout), &got, yaml.DisallowUnknownFields); err != nil {
		c.Failf("the description cannot be read: %v\n%s", err, o.stdout)
		return
	}
	if len(got.Tags) == 0 {
		got.Tags = want.Tags[:0]
	}
	if len(want.MagicNumber) == 0 && len(got.MagicNumber) == 0 {
		got.MagicNumber = want.MagicNumber
	}
	if !reflect.DeepEqual(got, want) {
		c.Failf("description differs\n got %s\nwant %s", got, want)
	}
}

func wantFailure(c *mc.C, o outcome) {
	if o.rc == 0 {
		c.Failf("exit status 0, output %q", o.stdout)
		return
	}
	if o.stdout != "" {
		c.Failf("failed, but printed %q", o.stdout)
	}
	if strings.TrimSpace(o.stderr) == "" {
		c.Failf("failed without a message")
	}
	if strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "goroutine ") {
		c.Failf("crashed: %s", o.stderr)
	}
}

func (w *world) clean(c *mc.C) {
	fis, err := ioutil.ReadDir(filepath.Join(w.dir, "tmp"))
	must(err)
	if len(fis) != 0 {
		c.Failf("left %s in the temporary directory", fis[0].Name())
	}
	if cs, _ := filepath.Glob(filepath.Join(w.state, "container-*")); len(cs) != 0 {
		c.Failf("left %d containers", len(cs))
	}
}

// hostMagic is a pyinfo that differs from the one that it is made from only in its magic number.
func hostMagic(info pyinfo, name string, magic ...byte) pyinfo {
	info.Name, info.Magic = name, magic
	return info
}

var nasty = []string{"a", " ", ":", ": ", " #", "#", "'", "\"", "\\", "\t", "\n", "-", "- ", "? ", "é", "\u2028", "\u0085", "\ufeff", "😀", "\x7f", "\x01", "%", "{", "}", "[", "]", ",", "&", "*", "!", "|", ">", "@", "`", "~", "=", "<<", "\\n", "\u00a0", "\r"}

var names = []string{"", "root", "yes", "no", "on", "off", "y", "n", "true", "FALSE", "null", "Null", "~", "1000", "-1", "+1", "0", "007", "0x1F", "0o7", "0b11", "1_000", "1e3", "1.5", ".5", ".inf", "-.INF", ".nan", "NaN",
	"1:30", "01:30:00", "2001-01-01", "2001-12-14t21:59:43.10-05:00", "=", "<<", "!x", "!!str", "&a", "*a", "|", ">", "'", "\"", "-", "- x", "?", "? x", ":", ": x", "x:", "x: y", "#x", "x #y", "@x", "`x", "%x", "{}", "{a: b}", "[]", "[a", "a,b", " lead", "trail ", "a  b",
	"é", "日本", "www-data", "DOMAIN\\user", "a/b", "---", "...", "a\nb", "\t", "x\ty", "\u2028", "😀", strings.Repeat("long ", 40), strings.Repeat("x", 200)}

func c29body(t *mc.T) {
	// owners on the host
	owners := hostOwners()
	mk := func(p string, o int) {
		must(os.MkdirAll(p, 0o755))
		must(os.Chown(p, owners[o].uid, owners[o].gid))
	}
	native := func(info pyinfo, console string, o int) description {
		return expected(info, console, console, owners[o].uid, owners[o].gid, owners[o].uname, owners[o].gname, []string{console, "-m", "compileall"})
	}

	t.Section("paths", fmt.Sprintf("scheme directories with all names of up to %d of %d characters and words, each in every field", t.Pick(2, 2), len(nasty)))
	var strs []string
	for _, a := range nasty {
		strs = append(strs, a)
	}
	for _, a := range nasty {
		for _, b := range nasty {
			strs = append(strs, a+b, a+"x"+b)
		}
	}
	if !t.Thorough() { // the pairs in one spelling
		strs = strs[:len(nasty)]
		for i, a := range nasty {
			for j, b := range nasty {
				s := a + b
				if (i+j)%2 == 1 {
					s = a + "x" + b
				}
				strs = append(strs, s)
			}
		}
	}
	for _, l := range t.Sizes(1, 250, []int64{60, 70, 75, 76, 77, 78, 79, 80, 81, 82, 85, 90, 100, 120, 160, 200, 250}, "pkg/python/pyinspect") {
		n := int(l)
		strs = append(strs, strings.Repeat("x", n), strings.Repeat("ab ", n/3)+"x", strings.Repeat("é", n/2), strings.Repeat("- ", n/2)+".")
	}
	for k := 0; k < len(strs); k += 5 {
		k := k
		field := func(i, rot int) string { return strs[(k+(i+rot)%5)%len(strs)] }
		for rot := 0; rot < t.Pick(1, 5); rot++ {
			rot := rot + k/5
			t.Case(func() string { return fmt.Sprintf("names from %q on, field %d", strs[k], rot%5) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("python3")
				for i, key := range keys {
					info.Scheme[key] = w.root + "/" + key + "/" + field(i, rot)
				}
				mk(info.Scheme[keys[rot%5]], 1)
				w.python(w.bin+"/python3", info)
				wantDescription(c, w.run("python", "inspect"), native(info, w.bin+"/python3", 1))
				w.clean(c)
				c.Outcome(fmt.Sprintf("%q", field(0, rot)))
			})
		}
	}

	t.Section("facts", "versions, all values of every byte of magic numbers, lengths of them, tag lists")
	var facts []func(*pyinfo)
	for _, lv := range []string{"alpha", "beta", "candidate", "final"} {
		for _, mi := range []int{0, 9, 10, 99} {
			for _, se := range []int{0, 1, 15} {
				lv, mi, se := lv, mi, se
				facts = append(facts, func(i *pyinfo) { i.Version = version{3, mi, mi / 2, lv, se} })
			}
		}
	}
	facts = append(facts, func(i *pyinfo) { i.Version = version{2, 7, 18, "final", 0} }, func(i *pyinfo) { i.Version = version{4, 0, 0, "alpha", 0} })
	for b := 0; b < 256; b += t.Pick(2, 1) {
		b := b
		facts = append(facts, func(i *pyinfo) { i.Magic = []byte{byte(b), byte(b + 1), byte(255 - b), byte(b * 7)} })
	}
	for n := 0; n <= 12; n++ {
		n := n
		facts = append(facts, func(i *pyinfo) { i.Magic = bytes.Repeat([]byte{0xf8}, n) })
	}
	for _, n := range []int{0, 1, 2, 3, 10, 100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1500, 3000} {
		n := n
		facts = append(facts, func(i *pyinfo) {
			i.Tags = nil
			for k := 0; k < n; k++ {
				i.Tags = append(i.Tags, fmt.Sprintf("cp%d-abi%d-manylinux_2_%d_x86_64", k%5, k%7, k))
			}
		})
	}
	for _, n := range names {
		if n == "" || strings.ContainsAny(n, "-.") {
			continue
		}
		n := n
		facts = append(facts, func(i *pyinfo) { i.Tags = []string{n + "-none-any", "py3-" + n + "-any", "py3-none-" + n} })
	}
	facts = append(facts, func(i *pyinfo) { i.Tags = []string{"py3-none-any", "py3-none-any"} }, func(i *pyinfo) { i.Tags = []string{"py2.py3-none-any"} },
		func(i *pyinfo) { i.Tags = []string{"PY3-None-ANY"} }, func(i *pyinfo) { i.Tags = []string{"b-b-b", "a-a-a", "c-c-c"} })
	for k, f := range facts {
		k, f := k, f
		t.Case(func() string { return fmt.Sprintf("facts %d", k) }, func(c *mc.C) {
			w := newWorld()
			defer w.close()
			info := w.info("python3")
			f(&info)
			mk(info.Scheme["data"], 0)
			w.python(w.bin+"/python3", info)
			wantDescription(c, w.run("python", "inspect"), native(info, w.bin+"/python3", 0))
			c.Outcome(fmt.Sprint(info.Version, info.Magic, len(info.Tags)))
		})
	}

	t.Section("owners", "all subsets of the scheme directories present, directly or through symlinks, with different owners")
	for set := 0; set < 32; set++ {
		for kind := 0; kind < 3; kind++ {
			set, kind := set, kind
			t.Case(func() string { return fmt.Sprintf("directories %05b kind %d", set, kind) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("python3")
				first := -1
				for i, key := range keys {
					info.Scheme[key] = w.root + "/" + key
					if set>>uint(i)&1 == 0 {
						if kind == 2 {
							must(os.Symlink(w.root+"/nowhere", info.Scheme[key]))
						}
						continue
					}
					if first < 0 {
						first = i
					}
					if kind == 0 {
						mk(info.Scheme[key], i)
					} else {
						mk(w.root+"/target-"+key, i)
						must(os.Symlink("target-"+key, info.Scheme[key]))
						must(os.Lchown(info.Scheme[key], owners[5].uid, owners[5].gid))
					}
				}
				w.python(w.bin+"/python3", info)
				o := w.run("python", "inspect")
				if first < 0 {
					wantFailure(c, o)
				} else {
					wantDescription(c, o, native(info, w.bin+"/python3", first))
				}
				c.Outcome(fmt.Sprint(first))
			})
		}
	}

	t.Section("interpreters", "names of interpreters x states of their siblings, plain and absolute")
	states := []string{"absent", "file", "noexec", "dir", "dangling", "symlink"}
	for _, name := range []string{"python", "pythonw", "python3", "pythonw3", "python3.9", "pythonw3.9", "pypy3", "mypython", "python-w", "pythonww", "Python3"} {
		for _, st := range states {
			for _, abs := range []bool{false, true} {
				for _, self := range []string{"file", "symlink", "absent", "noexec"} {
					name, st, abs, self := name, st, abs, self
					t.Case(func() string { return fmt.Sprintf("%s is %s, sibling %s, absolute %v", name, self, st, abs) }, func(c *mc.C) {
						w := newWorld()
						defer w.close()
						put := func(name, st string, magic byte) pyinfo {
							p := w.bin + "/" + name
							info := w.info(name)
							info.Magic[0] = magic
							switch st {
							case "file":
								w.python(p, info)
							case "symlink":
								w.python(w.root+"/real/"+name, info)
								must(os.Symlink(w.root+"/real/"+name, p))
							case "noexec":
								w.python(p, info)
								must(os.Chmod(p, 0o644))
							case "dir":
								must(os.Mkdir(p, 0o755))
							case "dangling":
								must(os.Symlink("nowhere", p))
							}
							return info
						}
						mk(w.root+"/lib64/python3.9/site-packages", 2)
						info := put(name, self, 1)
						console, graphical := name, name
						ok := self == "file" || self == "symlink"
						switch {
						case strings.HasPrefix(name, "pythonw"):
							sib := "python" + name[len("pythonw"):]
							i2 := put(sib, st, 2)
							if st == "file" || st == "symlink" {
								console, info = sib, i2
							}
						case strings.HasPrefix(name, "python"):
							sib := "pythonw" + name[len("python"):]
							put(sib, st, 2)
							if st == "file" || st == "symlink" {
								graphical = sib
							}
						default:
							put(strings.Replace(name, "python", "pythonw", 1)+"w", st, 2)
						}
						arg := name
						if abs {
							arg = w.bin + "/" + name
						}
						o := w.run("python", "inspect", "--interpreter="+arg)
						if !ok {
							wantFailure(c, o)
							c.Outcome("no interpreter")
							return
						}
						want := native(info, w.bin+"/"+console, 2)
						want.GraphicalShebang = w.bin + "/" + graphical
						wantDescription(c, o, want)
						c.Outcome(console + " " + graphical)
					})
				}
			}
		}
	}

	t.Section("failures", "the interpreter's answer cut at every length, replaced, or with a failing exit status")
	type failure struct {
		mode string
		n    int
		text string
		ok   bool
	}
	var fails []failure
	for n := 0; n < 400; n += t.Pick(3, 1) {
		fails = append(fails, failure{"cut", n, "", false})
	}
	fails = append(fails, failure{"cut", -1, "", false}, failure{"cut", -2, "", false})
	for _, s := range []string{"", " ", "null{", "[]", "[1]", "1", "\"x\"", "Python 3.9\n", "{\"MagicNumberB64\": 1}", "\x00", "{}{}", "<html>"} {
		fails = append(fails, failure{"text", 0, s, false})
	}
	for _, n := range []int{1, 2, 3, 100, 127, 255} {
		fails = append(fails, failure{"exit", n, "", false})
	}
	for _, n := range []int{1, 2, 6, 9, 11, 15} {
		fails = append(fails, failure{"signal", n, "", false})
	}
	fails = append(fails, failure{"append", 0, "\n", true}, failure{"append", 0, " \t\r\n", true}, failure{"append", 0, "x", false}, failure{"append", 0, "{}", false}, failure{"stderr", 0, "", true})
	small := func(info *pyinfo) {
		info.Tags = info.Tags[2:]
	}
	for _, f := range fails {
		for image := 0; image < 2; image++ {
			f, image := f, image
			if image == 1 && f.mode == "cut" && f.n%10 != 0 && !t.Thorough() {
				continue
			}
			t.Case(func() string { return fmt.Sprintf("%s %d %q image %d", f.mode, f.n, f.text, image) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("python3")
				small(&info)
				host := info
				info.Mode, info.N, info.Text = f.mode, f.n, f.text
				args := []string{"python", "inspect"}
				var want description
				if image == 0 {
					mk(info.Scheme["data"], 3)
					w.python(w.bin+"/python3", info)
					want = native(info, w.bin+"/python3", 3)
				} else {
					info.Scheme = imageScheme
					w.inImage("/usr/bin/python3", info)
					w.python(w.bin+"/python3", host)
					w.image("img.tar", imageLayers(1, 2, "u", "g"), `{"Env":["PATH=/usr/bin"]}`)
					args = append(args, "--imagefile=img.tar")
					want = expected(info, "/usr/bin/python3", "/usr/bin/python3", 1, 2, "u", "g", []string{w.bin + "/python3", "-m", "compileall"})
				}
				o := w.run(args...)
				if f.mode == "cut" && f.n > 0 {
					// how long the answer is, is the business of the code
					full := info
					full.Mode = "len"
					if n := answerLen(w, full); f.n >= n {
						wantDescription(c, o, want)
						c.Trivial()
						return
					}
				}
				if f.ok {
					wantDescription(c, o, want)
				} else {
					wantFailure(c, o)
				}
				if im := w.images(); len(im) != 0 {
					c.Failf("left images %q", im)
				}
				w.clean(c)
				c.Outcome(f.mode + f.text)
			})
		}
	}

	t.Section("image owners", "owners of all kinds in an image")
	ids := []int{0, 1, 1000, 65534, 65536, 2097151, 2097152, 1<<31 - 1}
	for i, n := range names {
		for g := 0; g < t.Pick(1, 3); g++ {
			i, n, gn := i, n, names[(i*7+g*31+3)%len(names)]
			if strings.Contains(n+gn, "\n") {
				gn = ""
			}
			uid, gid := ids[i%len(ids)], ids[(i/3+1)%len(ids)]
			t.Case(func() string { return fmt.Sprintf("owner %q group %q", n, gn) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("python3")
				host := info
				info.Scheme = imageScheme
				w.inImage("/usr/bin/python3", info)
				w.python(w.bin+"/python3", host)
				w.image("img.tar", imageLayers(uid, gid, n, gn), `{"Env":["PATH=/usr/bin"]}`)
				wantDescription(c, w.run("python", "inspect", "--imagefile=img.tar"), expected(info, "/usr/bin/python3", "/usr/bin/python3", uid, gid, n, gn, []string{w.bin + "/python3", "-m", "compileall"}))
				c.Outcome(n)
			})
		}
	}

	t.Section("compilers", "all combinations of host interpreters pythonX.Y, pythonX and python that are absent, match, differ or fail")
	kinds := []string{"absent", "match", "differ", "fail", "garbage", "noexec", "othermatch"}
	for _, ver := range []version{{3, 9, 1, "final", 0}, {3, 10, 0, "beta", 2}, {2, 7, 18, "final", 0}} {
		for n := 0; n < 7*7*7; n++ {
			ver, n := ver, n
			if ver.Minor != 9 && !t.Thorough() && n%7 > 2 {
				continue
			}
			ks := []string{kinds[n%7], kinds[n/7%7], kinds[n/49]}
			t.Case(func() string { return fmt.Sprintf("image %v, host %v", ver, ks) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("image")
				info.Version = ver
				host := info
				info.Scheme = imageScheme
				w.inImage("/usr/bin/python3", info)
				cands := []string{fmt.Sprintf("python%d.%d", ver.Major, ver.Minor), fmt.Sprintf("python%d", ver.Major), "python"}
				best := ""
				for i, cand := range cands {
					p := w.bin + "/" + cand
					h := hostMagic(host, cand, info.Magic...)
					switch ks[i] {
					case "absent":
						continue
					case "differ":
						h.Magic = []byte{0x61, 0x0d, 0x0d, 0x0b}
					case "fail":
						h.Mode, h.N = "exit", 1
					case "garbage":
						h.Mode, h.Text = "text", "garbage"
					case "othermatch": // another version with the same magic number
						h.Version = version{3, 8, 0, "alpha", 1}
					}
					w.python(p, h)
					if ks[i] == "noexec" {
						must(os.Chmod(p, 0o644))
					}
					if best == "" && (ks[i] == "match" || ks[i] == "othermatch") {
						best = p
					}
				}
				w.image("img.tar", imageLayers(5, 6, "u", "g"), `{"Env":["PATH=/usr/bin"]}`)
				o := w.run("python", "inspect", "--imagefile=img.tar")
				if best == "" {
					wantFailure(c, o)
				} else {
					wantDescription(c, o, expected(info, "/usr/bin/python3", "/usr/bin/python3", 5, 6, "u", "g", []string{best, "-m", "compileall"}))
				}
				if im := w.images(); len(im) != 0 {
					c.Failf("left images %q", im)
				}
				c.Outcome(filepath.Base(best))
			})
		}
	}

	t.Section("docker", "all behaviours of docker's load, run and rm, singly and in pairs; other images are there before")
	loads := []string{"", "refuse", "some", "nospace", "late", "signal", "noise"}
	runs := []string{"", "refuse", "gone"}
	rms := []string{"", "refuse", "late"}
	for _, l := range loads {
		for _, r := range runs {
			for _, rm := range rms {
				for _, n := range []int{1, 511, 512, 1024, 1536, 5000, 100000} {
					for _, big := range []bool{false, true} {
						l, r, rm, n, big := l, r, rm, n, big
						if l != "some" && n != 1 {
							continue
						}
						t.Case(func() string { return fmt.Sprintf("load %q (%d) run %q rm %q big %v", l, n, r, rm, big) }, func(c *mc.C) {
							w := newWorld()
							defer w.close()
							info := w.info("python3")
							host := info
							info.Scheme = imageScheme
							if r != "gone" {
								w.inImage("/usr/bin/python3", info)
							}
							w.python(w.bin+"/python3", host)
							layers := imageLayers(1, 2, "u", "g")
							if big {
								layers[0] = append(layers[0], ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "big", Mode: 0o644}, Body: noise(400000)})
							}
							w.image("img.tar", layers, `{"Env":["PATH=/usr/bin"]}`)
							others := []string{"ocibuild.local/python-inspect:latest", "python:3"}
							for _, o := range others {
								w.putImage(o)
							}
							w.mode = dockerMode{l, r, rm, n}
							o := w.run("python", "inspect", "--imagefile=img.tar")
							if (l == "" || l == "noise") && r == "" && rm == "" {
								wantDescription(c, o, expected(info, "/usr/bin/python3", "/usr/bin/python3", 1, 2, "u", "g", []string{w.bin + "/python3", "-m", "compileall"}))
							} else {
								wantFailure(c, o)
							}
							if im := w.images(); rm != "refuse" && !reflect.DeepEqual(im, others) {
								c.Failf("images afterwards: %q", im)
							}
							tried := false
							for _, call := range w.calls() {
								tried = tried || call[0] == "rm"
							}
							for _, call := range w.calls() {
								if call[0] == "loaded" && !tried {
									c.Failf("the image was not removed")
								}
							}
							w.clean(c)
							c.Outcome(l + r + rm)
						})
					}
				}
			}
		}
	}
	t.Case(func() string { return "no docker" }, func(c *mc.C) {
		w := newWorld()
		defer w.close()
		must(os.Remove(w.bin + "/docker"))
		w.python(w.bin+"/python3", w.info("python3"))
		w.image("img.tar", imageLayers(1, 2, "u", "g"), `{"Env":["PATH=/usr/bin"]}`)
		wantFailure(c, w.run("python", "inspect", "--imagefile=img.tar"))
		c.Outcome("none")
	})

	t.Section("images", "layers x configurations: the image that docker is given, what it runs, and the owner found in the merged layers")
	ls := imageLayers(7, 8, "u7", "g7")
	del := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "usr/lib/py/.wh.site", Mode: 0o644}}}
	other := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: "usr/lib/py/site", Mode: 0o755, Uid: 9, Gid: 10, Uname: "u9", Gname: "g9"}}}
	scripts := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: "usr/bin", Mode: 0o755, Uid: 11, Gid: 12, Uname: "u11", Gname: "g11"}}}
	moved := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeSymlink, Name: "usr/lib/py/site", Linkname: "/usr/real", Mode: 0o777, Uid: 1, Gid: 1}},
		{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: "usr/real", Mode: 0o755, Uid: 13, Gid: 14, Uname: "u13", Gname: "g13"}}}
	pyw := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "usr/bin/pythonw3", Mode: 0o755}}}
	alphabet := [][]ltar.Ent{del, other, scripts, moved, pyw}
	var stacks [][]int
	for a := -1; a < 5; a++ {
		for b := -1; b < 5; b++ {
			for d := -1; d < 5; d++ {
				if (a == -1 && b != -1) || (b == -1 && d != -1) || (d != -1 && !t.Thorough() && d != 1) {
					continue
				}
				var s []int
				for _, x := range []int{a, b, d} {
					if x >= 0 {
						s = append(s, x)
					}
				}
				stacks = append(stacks, s)
			}
		}
	}
	cfgs := []struct{ cfg, interp string }{
		{`{"Env":["PATH=/usr/bin"]}`, "python3"}, {`{"Env":["A=b","PATH=/bin:/usr/bin:/sbin"],"Entrypoint":["/x"],"Cmd":["y"]}`, "python3"},
		{`{"Env":["PATH=/bin"],"WorkingDir":"/usr"}`, "bin/python3"}, {`{"Env":["PATH=bin"],"WorkingDir":"/usr"}`, "python3"}, {`{"Env":["PATH=/bin"]}`, "/usr/bin/python3"}, {`{"Env":["PATH=/bin"]}`, "python3"},
	}
	for _, st := range stacks {
		for _, cf := range cfgs {
			st, cf := st, cf
			t.Case(func() string { return fmt.Sprintf("layers %v config %s interpreter %s", st, cf.cfg, cf.interp) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				stack := [][]ltar.Ent{ls[0]}
				for _, s := range st {
					stack = append(stack, alphabet[s])
				}
				fs := ltar.NewFS()
				for _, l := range stack {
					must(fs.Apply(l, false))
				}
				info := w.info("python3")
				host := info
				info.Scheme = imageScheme
				w.inImage("/usr/bin/python3", info)
				w.python(w.bin+"/python3", host)
				given := w.image("img.tar", stack, cf.cfg)
				o := w.run("python", "inspect", "--imagefile=img.tar", "--interpreter="+cf.interp)
				if cf.cfg == `{"Env":["PATH=/bin"]}` && cf.interp == "python3" {
					wantFailure(c, o)
					c.Outcome("not found")
					return
				}
				graphical := "/usr/bin/python3"
				if _, err := fs.Lookup("usr/bin/pythonw3", true); err == nil {
					graphical = "/usr/bin/pythonw3"
				}
				var h *tar.Header
				for _, key := range keys {
					n, err := fs.Lookup(strings.TrimPrefix(imageScheme[key], "/"), true)
					if err == nil && n.Implicit {
						c.Trivial()
						return
					}
					if err == nil {
						h = n.Hdr
						break
					}
				}
				wantDescription(c, o, expected(info, "/usr/bin/python3", graphical, h.Uid, h.Gid, h.Uname, h.Gname, []string{w.bin + "/python3", "-m", "compileall"}))
				// what docker was given
				tag, loaded, ran := "", 0, 0
				for _, call := range w.calls() {
					switch call[0] {
					case "loaded":
						loaded++
						tag = call[1]
					case "run":
						ran++
						if call[1] != tag || call[2] != "/usr/bin/python3" {
							c.Failf("ran %q, image is %q", call, tag)
						}
					}
				}
				if loaded != 1 || ran != 1 {
					c.Failf("docker calls: %q", w.calls())
				}
				w.sameImage(c, given, stack)
				if im := w.images(); len(im) != 0 {
					c.Failf("left images %q", im)
				}
				c.Outcome(fmt.Sprint(st, cf))
			})
		}
	}

	t.Section("concurrent", "several inspections that share one docker and whose images are all loaded at the same time")
	for n := 2; n <= t.Pick(4, 8); n++ {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d inspections", n) }, func(c *mc.C) {
			w := newWorld()
			defer w.close()
			info := w.info("python3")
			host := info
			info.Scheme = imageScheme
			w.inImage("/usr/bin/python3", info)
			w.python(w.bin+"/python3", host)
			for i := 0; i < n; i++ {
				w.image(fmt.Sprintf("img%d.tar", i), imageLayers(i, i+1, fmt.Sprintf("u%d", i), "g"), `{"Env":["PATH=/usr/bin"]}`)
			}
			w.mode = dockerMode{Run: "wait", N: n}
			bs, _ := json.Marshal(w.mode)
			must(ioutil.WriteFile(filepath.Join(w.state, "mode.json"), bs, 0o644))
			outs := make([]outcome, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[i] = w.command("python", "inspect", fmt.Sprintf("--imagefile=img%d.tar", i))
				}()
			}
			wg.Wait()
			tags := map[string]bool{}
			for _, call := range w.calls() {
				if call[0] == "loaded" {
					tags[call[1]] = true
				}
			}
			if len(tags) != n {
				c.Failf("%d inspections used %d tags", n, len(tags))
			}
			for i, o := range outs {
				wantDescription(c, o, expected(info, "/usr/bin/python3", "/usr/bin/python3", i, i+1, fmt.Sprintf("u%d", i), "g", []string{w.bin + "/python3", "-m", "compileall"}))
			}
			if im := w.images(); len(im) != 0 {
				c.Failf("left images %q", im)
			}
			c.Outcome(fmt.Sprint(n))
		})
	}

	c29nested(t)

	t.Section("round trip", "a wheel installed with the description, by the command, and with the facts, by the library")
	whl := wheelBytes()
	schemes := []string{"x", "a b", "c:d", "e#f", "ünï", "'q'", "t\tt", strings.Repeat("long name ", 15)}
	for i := range schemes {
		for image := 0; image < 2; image++ {
			i, image := i, image
			t.Case(func() string { return fmt.Sprintf("scheme %q image %d", schemes[i], image) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("python3")
				for _, key := range keys {
					info.Scheme[key] = "/opt/" + schemes[i] + "/" + key
				}
				host := info
				args := []string{"python", "inspect"}
				var want description
				if image == 0 {
					info.Scheme["data"] = w.root
					mk(w.root, 4)
					w.python(w.bin+"/python3", info)
					want = native(info, w.bin+"/python3", 4)
				} else {
					w.inImage("/usr/bin/python3", info)
					w.python(w.bin+"/python3", host)
					l := imageLayers(1, 2, "u", "g")
					l[0] = append(l[0], ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: "opt/" + schemes[i] + "/scripts", Mode: 0o755, Uid: 77, Gid: 78, Uname: "yes", Gname: "1e3"}})
					w.image("img.tar", l, `{"Env":["PATH=/usr/bin"]}`)
					args = append(args, "--imagefile=img.tar")
					want = expected(info, "/usr/bin/python3", "/usr/bin/python3", 77, 78, "yes", "1e3", []string{w.bin + "/python3", "-m", "compileall"})
				}
				o := w.run(args...)
				wantDescription(c, o, want)
				if c.Failed() {
					return
				}
				must(ioutil.WriteFile(w.dir+"/plat.yml", []byte(o.stdout), 0o644))
				must(ioutil.WriteFile(w.dir+"/pkg-1.0-py3-none-any.whl", whl, 0o644))
				o = w.run("layer", "wheel", "--platform-file=plat.yml", "pkg-1.0-py3-none-any.whl")
				if o.rc != 0 {
					c.Failf("layer wheel: %d: %s", o.rc, o.stderr)
					return
				}
				plat := want.Platform
				var err error
				plat.PyCompile, err = python.ExternalCompiler(want.PyCompile...)
				must(err)
				layer, err := bdist.InstallWheel(quiet, plat, time.Time{}, time.Time{}, w.dir+"/pkg-1.0-py3-none-any.whl",
					bdist.PostInstallHooks(entry_points.CreateScripts(plat), recording_installs.Record("sha256", "ocibuild layer wheel", nil)))
				must(err)
				var buf bytes.Buffer
				must(fsutil.WriteLayer(layer, &buf))
				a, err := ltar.Decode(gunzip([]byte(o.stdout)))
				must(err)
				b, err := ltar.Decode(gunzip(buf.Bytes()))
				must(err)
				if ltar.Describe(a) != ltar.Describe(b) || len(a) < 5 || len(a) != len(b) {
					c.Failf("layers differ\n got %s\nwant %s", ltar.Describe(a), ltar.Describe(b))
					return
				}
				for k := range a {
					if !bytes.Equal(a[k].Body, b[k].Body) || ltar.Meta(&a[k].Hdr) != ltar.Meta(&b[k].Hdr) {
						c.Failf("entry %q differs: %s; %s", a[k].Hdr.Name, ltar.Meta(&a[k].Hdr), ltar.Meta(&b[k].Hdr))
					}
				}
				c.Outcome(schemes[i])
			})
		}
	}
}

var quiet = func() context.Context {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(l))
}()

// answerLen is the length of the answer of an interpreter in the last run: the code that it was given is in
// the log.
func answerLen(w *world, info pyinfo) int {
	bs, err := ioutil.ReadFile(w.log)
	must(err)
	var call []string
	must(json.Unmarshal([]byte(strings.SplitN(string(bs), "\n", 2)[0]), &call))
	p := filepath.Join(w.dir, "again")
	installPython(p, info)
	cmd := exec.Command(p, call[1:]...)
	out, err := cmd.Output()
	must(err)
	return len(out)
}

type hostOwner struct {
	uid, gid     int
	uname, gname string
}

// hostOwners are owners that have names on the host.
func hostOwners() []hostOwner {
	table := func(fn string) (names []string, ids []int) {
		bs, err := ioutil.ReadFile(fn)
		must(err)
		for _, l := range strings.Split(string(bs), "\n") {
			p := strings.Split(l, ":")
			if len(p) < 3 {
				continue
			}
			var id int
			if _, err := fmt.Sscan(p[2], &id); err == nil {
				dup := false
				for _, x := range ids {
					dup = dup || x == id
				}
				if !dup {
					names, ids = append(names, p[0]), append(ids, id)
				}
			}
		}
		return
	}
	un, ui := table("/etc/passwd")
	gn, gi := table("/etc/group")
	var ret []hostOwner
	for i := 0; i < 6; i++ {
		u, g := (i+1)%len(ui), (i*2+3)%len(gi)
		ret = append(ret, hostOwner{ui[u], gi[g], un[u], gn[g]})
	}
	return ret
}

var imageScheme = map[string]string{"purelib": "/usr/lib/py/site", "platlib": "/usr/lib64/py/site", "headers": "/usr/include/py", "scripts": "/usr/bin", "data": "/usr"}

func imageLayers(uid, gid int, uname, gname string) [][]ltar.Ent {
	d := func(n string) ltar.Ent {
		return ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: n, Mode: 0o755, Uid: 500, Gid: 501, Uname: "x", Gname: "y"}}
	}
	site := d("usr/lib/py/site")
	site.Hdr.Uid, site.Hdr.Gid, site.Hdr.Uname, site.Hdr.Gname = uid, gid, uname, gname
	return [][]ltar.Ent{{d("usr"), d("usr/bin"), {Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "usr/bin/python3", Mode: 0o755}, Body: []byte("python")}, d("usr/lib"), d("usr/lib/py"), site}}
}

func sum(bs []byte) string {
	h := sha256.Sum256(bs)
	return hex.EncodeToString(h[:])
}

func noise(n int) []byte {
	ret := make([]byte, 0, n+32)
	h := sha256.Sum256(nil)
	for len(ret) < n {
		h = sha256.Sum256(h[:])
		ret = append(ret, h[:]...)
	}
	return ret[:n]
}

// image writes an image file, and returns its configuration.
func (w *world) image(fn string, layers [][]ltar.Ent, config string) []byte {
	var ids, names []string
	var ents []ltar.Ent
	for i, l := range layers {
		bs := ltar.MustEncode(l)
		ids = append(ids, "sha256:"+sum(bs))
		name := fmt.Sprintf("%064x/layer.tar", i+1)
		names = append(names, name)
		ents = append(ents, ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644}, Body: bs})
	}
	idj, _ := json.Marshal(ids)
	cfg := []byte(`{"architecture":"amd64","os":"linux","rootfs":{"type":"layers","diff_ids":` + string(idj) + `},"config":` + config + `}`)
	cfgName := sum(cfg) + ".json"
	m, _ := json.Marshal([]map[string]interface{}{{"Config": cfgName, "RepoTags": []string{"given:tag"}, "Layers": names}})
	ents = append(ents, ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: cfgName, Mode: 0o644}, Body: cfg}, ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "manifest.json", Mode: 0o644}, Body: m})
	must(ioutil.WriteFile(filepath.Join(w.dir, fn), ltar.MustEncode(ents), 0o644))
	return cfg
}

func gunzip(bs []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		return bs
	}
	ret, err := ioutil.ReadAll(r)
	must(err)
	return ret
}

// sameImage checks that the image that docker was given is the given one.
func (w *world) sameImage(c *mc.C, cfg []byte, layers [][]ltar.Ent) {
	fns, _ := filepath.Glob(filepath.Join(w.state, "loaded-*"))
	for _, fn := range fns {
		bs, err := ioutil.ReadFile(fn)
		must(err)
		files, m, err := readTarball(bs)
		if err != nil || len(m) != 1 {
			c.Failf("docker was given an unreadable image: %v", err)
			return
		}
		var a, b interface{}
		must(json.Unmarshal(cfg, &a))
		if err := json.Unmarshal([]byte(files[m[0].Config]), &b); err != nil || !reflect.DeepEqual(a, b) {
			c.Failf("docker was given another configuration: %s", files[m[0].Config])
		}
		if len(m[0].Layers) != len(layers) {
			c.Failf("docker was given %d layers", len(m[0].Layers))
			return
		}
		for i, l := range layers {
			if !bytes.Equal(gunzip([]byte(files[m[0].Layers[i]])), ltar.MustEncode(l)) {
				c.Failf("docker was given another layer %d", i)
			}
		}
	}
}

func wheelBytes() []byte {
	members := [][2]string{
		{"pkg/__init__.py", "x = 1\n"},
		{"pkg/mod.py", strings.Repeat("y = 2\n", 300)},
		{"pkg-1.0.data/scripts/run", "#!python\nprint(1)\n"},
		{"pkg-1.0.data/headers/h.h", "h"},
		{"pkg-1.0.data/data/share/x", "x"},
		{"pkg-1.0.data/platlib/lib.so", "so"},
		{"pkg-1.0.dist-info/METADATA", "Metadata-Version: 2.1\nName: pkg\nVersion: 1.0\n"},
		{"pkg-1.0.dist-info/WHEEL", "Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: true\nTag: py3-none-any\n"},
		{"pkg-1.0.dist-info/entry_points.txt", "[console_scripts]\nprog = pkg:main\n[gui_scripts]\nwin = pkg:main\n"},
	}
	record := ""
	for _, m := range members {
		h := sha256.Sum256([]byte(m[1]))
		record += fmt.Sprintf("%s,sha256=%s,%d\n", m[0], base64.RawURLEncoding.EncodeToString(h[:]), len(m[1]))
	}
	members = append(members, [2]string{"pkg-1.0.dist-info/RECORD", record + "pkg-1.0.dist-info/RECORD,,\n"})
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, m := range members {
		fw, err := zw.CreateHeader(&zip.FileHeader{Name: m[0], Method: zip.Deflate, Modified: time.Unix(1500000000, 0), ExternalAttrs: 0o100644 << 16, CreatorVersion: 3 << 8})
		must(err)
		_, _ = io.WriteString(fw, m[1])
	}
	must(zw.Close())
	return buf.Bytes()
}

var _ = syscall.SIGKILL
