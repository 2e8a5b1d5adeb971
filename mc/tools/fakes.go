package main

import (
	"archive/tar"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "stand-in:", err)
		os.Exit(3)
	}
}

// runner is the body of the stand-in interpreters: it runs the code that it is given by a real Python, in
// which everything that describes the interpreter is as the configuration says.
const runner = `
import sys
def main():
    import base64, importlib.util, io, json, os, time, types
    cfg = json.load(open(CFG))
    args = sys.argv[1:]
    with open(cfg["Log"], "a") as f:
        f.write(json.dumps([cfg["Name"]] + args) + "\n")
    if args[:2] == ["-m", "compileall"]:
        os.execv(cfg["Self"], [cfg["Self"], "pycompile"] + args[2:])
    while args and args[0].startswith("-") and args[0] not in ("-", "-c") and not (args[0][1:].isalpha() and args[0].endswith("c")):
        args.pop(0)
    code = args[1] if args and args[0].endswith("c") and args[0].startswith("-") else sys.stdin.read()

    class Info(tuple):
        pass
    for i, slot in enumerate(["major", "minor", "micro", "releaselevel", "serial"]):
        setattr(Info, slot, property(lambda self, i=i: self[i]))
    class Scheme:
        __slots__ = ["platlib", "purelib", "headers", "scripts", "data"]
    class Tag:
        def __init__(self, s):
            self.interpreter, self.abi, self.platform = s.split("-")
        def __str__(self):
            return "%s-%s-%s" % (self.interpreter, self.abi, self.platform)
    def get_scheme(dist_name, *args, **kwargs):
        s = Scheme()
        for slot in Scheme.__slots__:
            setattr(s, slot, cfg["Scheme"][slot])
        return s
    def module(name, **attrs):
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in attrs.items():
            setattr(m, k, v)
        sys.modules[name] = m
        if "." in name:
            setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
    module("packaging")
    module("packaging.tags", sys_tags=lambda *a, **k: (Tag(s) for s in cfg["Tags"] or []), Tag=Tag)
    module("pip")
    module("pip._internal")
    module("pip._internal.locations", get_scheme=get_scheme)
    module("pip._internal.models")
    module("pip._internal.models.scheme", SCHEME_KEYS=Scheme.__slots__, Scheme=Scheme)
    importlib.util.MAGIC_NUMBER = base64.b64decode(cfg["Magic"] or "")
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", write_through=True)
    real, info, sys.stdout = sys.stdout, sys.version_info, out
    sys.version_info = Info([cfg["Version"]["major"], cfg["Version"]["minor"], cfg["Version"]["micro"], cfg["Version"]["releaselevel"], cfg["Version"]["serial"]])
    exec(code, {"__name__": "__main__"})
    sys.stdout, sys.version_info = real, info
    data = out.buffer.getvalue()
    mode, n = cfg["Mode"], cfg["N"]
    if mode == "cut":
        data = data[:n if n >= 0 else len(data) + n]
    elif mode == "text":
        data = cfg["Text"].encode()
    elif mode == "append":
        data += cfg["Text"].encode()
    real.buffer.write(data)
    real.flush()
    if mode == "stderr":
        sys.stderr.write("some warning\n")
    if mode == "exit":
        sys.stderr.write("Traceback: no module named pip\n")
        sys.stderr.flush()
        os._exit(n)
    if mode == "signal":
        os.kill(os.getpid(), n)
        time.sleep(0.1) # it may be one that is ignored here
        os.kill(os.getpid(), 9)
    os._exit(0)
main()
`

// pyinfo is what a stand-in interpreter says about itself, and how it behaves.
type pyinfo struct {
	Name, Log, Self string
	Scheme          map[string]string
	Tags            []string
	Version         version
	Magic           []byte
	Mode            string
	N               int
	Text            string
}

type version struct {
	Major        int    `json:"major"`
	Minor        int    `json:"minor"`
	Micro        int    `json:"micro"`
	ReleaseLevel string `json:"releaselevel"`
	Serial       int    `json:"serial"`
}

// installPython makes a stand-in interpreter.
func installPython(p string, info pyinfo) {
	bs, err := json.Marshal(info)
	must(err)
	cfg := filepath.Join(filepath.Dir(info.Log), "cfg-"+hex.EncodeToString([]byte(p)))
	if len(cfg) > 240 {
		cfg = filepath.Join(filepath.Dir(info.Log), fmt.Sprintf("cfg-%d", time.Now().UnixNano()))
	}
	must(ioutil.WriteFile(cfg, bs, 0o644))
	q, _ := json.Marshal(cfg)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(ioutil.WriteFile(p, []byte("#!/usr/bin/python3 -SE\nCFG = "+string(q)+"\n"+runner), 0o755))
}

// fakeDocker is a stand-in for docker, whose images are files below $DOCKER_STATE.
//
//	images/HEX(tag)     an image (tarball)
//	interp/HEX(path)    interpreters inside of the images
//	mode.json           how to behave
//	log                 calls
//	container-*         containers that have ended but were not removed
func fakeDocker() {
	state := os.Getenv("DOCKER_STATE")
	var mode dockerMode
	bs, err := ioutil.ReadFile(filepath.Join(state, "mode.json"))
	die(err)
	die(json.Unmarshal(bs, &mode))
	args := os.Args[1:]
	logCall := func(kv ...string) {
		f, err := os.OpenFile(filepath.Join(state, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		die(err)
		bs, _ := json.Marshal(kv)
		_, err = f.Write(append(bs, '\n'))
		die(err)
		_ = f.Close()
	}
	fail := func(format string, args ...interface{}) {
		fmt.Fprintf(os.Stderr, "Error response from daemon: "+format+"\n", args...)
		os.Exit(1)
	}
	img := func(tag string) string { return filepath.Join(state, "images", hex.EncodeToString([]byte(tag))) }
	if len(args) > 0 && args[0] == "image" {
		args = args[1:]
	}
	if len(args) == 0 {
		fail("no command")
	}
	switch args[0] {
	case "load":
		in := io.Reader(os.Stdin)
		for i, a := range args {
			if (a == "-i" || a == "--input") && i+1 < len(args) {
				f, err := os.Open(args[i+1])
				die(err)
				in = f
			} else if strings.HasPrefix(a, "--input=") {
				f, err := os.Open(a[len("--input="):])
				die(err)
				in = f
			}
		}
		logCall("load")
		switch mode.Load {
		case "refuse":
			fail("cannot connect")
		case "some":
			_, _ = io.ReadFull(in, make([]byte, mode.N))
			fail("connection reset")
		}
		bs, err := ioutil.ReadAll(in)
		die(err)
		tags, err := tarballTags(bs)
		if err != nil {
			fail("%v", err)
		}
		if mode.Load == "nospace" {
			fail("no space left on device")
		}
		for _, tag := range tags {
			die(ioutil.WriteFile(img(tag), bs, 0o644))
			logCall("loaded", tag)
			f, err := ioutil.TempFile(state, "loaded-")
			die(err)
			_, err = f.Write(bs)
			die(err)
			die(f.Close())
			fmt.Println("Loaded image:", tag)
		}
		switch mode.Load {
		case "late":
			fail("internal error")
		case "signal":
			_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
			time.Sleep(time.Hour)
		case "noise":
			fmt.Fprintln(os.Stderr, "WARNING: something")
		}
	case "run":
		entry, i, keep := "", 1, true
		for ; i < len(args) && strings.HasPrefix(args[i], "-"); i++ {
			switch {
			case strings.HasPrefix(args[i], "--entrypoint="):
				entry = args[i][len("--entrypoint="):]
			case args[i] == "--entrypoint":
				i++
				entry = args[i]
			case args[i] == "-i", args[i] == "--interactive", args[i] == "--network=none", args[i] == "--pull=never":
			case args[i] == "--rm":
				logCall("--rm")
				keep = false
			default:
				fail("unknown flag: %s", args[i])
			}
		}
		if i >= len(args) {
			fail("no image")
		}
		tag := args[i]
		logCall("run", tag, entry)
		if mode.Run == "refuse" {
			os.Exit(125)
		}
		if _, err := os.Stat(img(tag)); err != nil {
			fail("Unable to find image '%s'", tag)
		}
		if keep { // the container stays when it has ended
			f, err := ioutil.TempFile(state, "container-")
			die(err)
			_, err = f.WriteString(tag)
			die(err)
			die(f.Close())
		}
		if mode.Run == "wait" {
			for n := 0; n < 2000; n++ { // until all images are there
				if fis, _ := ioutil.ReadDir(filepath.Join(state, "images")); len(fis) >= mode.N {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		exe := filepath.Join(state, "interp", hex.EncodeToString([]byte(entry)))
		if _, err := os.Stat(exe); err != nil {
			fmt.Fprintf(os.Stderr, "exec: %q: no such file or directory\n", entry)
			os.Exit(127)
		}
		die(syscall.Exec(exe, append([]string{exe}, args[i+1:]...), os.Environ()))
	case "rm", "rmi":
		rc, force := 0, false
		for _, a := range args[1:] {
			force = force || a == "-f" || a == "--force"
		}
		for _, a := range args[1:] {
			if strings.HasPrefix(a, "-") {
				continue
			}
			logCall("rm", a)
			cs, _ := filepath.Glob(filepath.Join(state, "container-*"))
			for _, cn := range cs {
				if bs, _ := ioutil.ReadFile(cn); string(bs) == a && !force {
					fail("conflict: unable to remove repository reference %q (must force) - container %s is using it", a, filepath.Base(cn))
				}
			}
			if mode.Rm == "refuse" {
				fail("conflict: image is in use")
			}
			if err := os.Remove(img(a)); err != nil {
				fmt.Fprintln(os.Stderr, "Error: No such image: "+a)
				rc = 1
			}
			fmt.Println("Untagged: " + a)
			if mode.Rm == "late" {
				fail("timeout")
			}
		}
		os.Exit(rc)
	default:
		fail("unknown command %q", args)
	}
}

type dockerMode struct {
	Load, Run, Rm string
	N             int
}

type tarManifest []struct {
	Config   string
	RepoTags []string
	Layers   []string
}

// readTarball returns the members of an image tarball.
func readTarball(bs []byte) (map[string]string, tarManifest, error) {
	files := map[string]string{}
	r := tar.NewReader(bytes.NewReader(bs))
	for {
		h, err := r.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, nil, err
		}
		body, err := ioutil.ReadAll(r)
		if err != nil {
			return nil, nil, err
		}
		files[h.Name] = string(body)
	}
	var m tarManifest
	if err := json.Unmarshal([]byte(files["manifest.json"]), &m); err != nil {
		return nil, nil, err
	}
	for _, e := range m {
		for _, n := range append([]string{e.Config}, e.Layers...) {
			if _, ok := files[n]; !ok {
				return nil, nil, fmt.Errorf("no member %q", n)
			}
		}
	}
	return files, m, nil
}

func tarballTags(bs []byte) ([]string, error) {
	_, m, err := readTarball(bs)
	if err != nil {
		return nil, err
	}
	var ret []string
	for _, e := range m {
		ret = append(ret, e.RepoTags...)
	}
	return ret, nil
}

// fakeCompiler is a stand-in for compileall.
func fakeCompiler() {
	die(filepath.Walk(os.Args[len(os.Args)-1], func(p string, fi os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(p, ".py") {
			return err
		}
		d := filepath.Join(filepath.Dir(p), "__pycache__")
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		return ioutil.WriteFile(filepath.Join(d, strings.TrimSuffix(filepath.Base(p), ".py")+".cpython-39.pyc"), []byte("compiled "+fi.Name()), 0o644)
	}))
}

// goSpec is how the stand-in for the Go toolchain behaves.
type goSpec struct {
	Report         string
	Files          []goFile
	Stdout, Stderr string
	RC, Signal     int
	Hold           string // wait while this file exists
}

type goFile struct {
	Name    string
	Content string
	Size    int // if not 0, content of that size
	Mode    uint32
	Mtime   int64
	Nanos   int64
	UID     int
	GID     int
	Dir     bool
	Symlink string
	Hard    string
}

func (f goFile) body() string {
	if f.Size != 0 {
		return strings.Repeat("0123456789abcde\n", f.Size/16+1)[:f.Size]
	}
	return f.Content
}

type goReport struct {
	Args []string
	Env  []string
	Cwd  string
	Out  string
}

func fakeGo() {
	var s goSpec
	bs, err := ioutil.ReadFile(os.Getenv("GO_SPEC"))
	die(err)
	die(json.Unmarshal(bs, &s))
	r := goReport{Args: os.Args[1:], Env: os.Environ()}
	r.Cwd, err = os.Getwd()
	die(err)
	for i, a := range os.Args {
		switch {
		case a == "-o" && i+1 < len(os.Args):
			r.Out = os.Args[i+1]
		case strings.HasPrefix(a, "-o="):
			r.Out = a[3:]
		}
		if a == "--" {
			break
		}
	}
	bs, err = json.Marshal(r)
	die(err)
	die(ioutil.WriteFile(s.Report, bs, 0o644))
	if !filepath.IsAbs(r.Out) {
		r.Out = filepath.Join(r.Cwd, r.Out)
	}
	for _, f := range s.Files {
		p := filepath.Join(r.Out, f.Name)
		switch {
		case f.Dir:
			die(os.Mkdir(p, 0o755))
		case f.Symlink != "":
			die(os.Symlink(f.Symlink, p))
			continue
		case f.Hard != "":
			die(os.Link(filepath.Join(r.Out, f.Hard), p))
			continue
		default:
			die(ioutil.WriteFile(p, []byte(f.body()), 0o755))
		}
		die(os.Chown(p, f.UID, f.GID))
		die(syscall.Chmod(p, f.Mode))
		if f.Mtime != 0 {
			tm := time.Unix(f.Mtime, f.Nanos)
			die(os.Chtimes(p, tm, tm))
		}
	}
	_, _ = os.Stdout.WriteString(s.Stdout)
	_, _ = os.Stderr.WriteString(s.Stderr)
	for s.Hold != "" {
		if _, err := os.Stat(s.Hold); err != nil {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if s.Signal != 0 {
		_ = syscall.Kill(os.Getpid(), syscall.Signal(s.Signal))
		time.Sleep(100 * time.Millisecond) // the signal may be one that is ignored here
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		time.Sleep(time.Hour)
	}
	os.Exit(s.RC)
}
