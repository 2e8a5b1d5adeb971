package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// spec tells the stand-in compiler what to do.
type spec struct {
	Report string   // where to write what was seen
	Ready  string   // fifo to open for writing, once the report is written
	Go     string   // fifo to open for reading, before going on
	Mode   string   // what to do; see below
	Modes  []string // (unused)
}

type seenFile struct {
	Path    string
	Content string
	Mtime   int64
	Dir     bool
}

type report struct {
	Args  []string
	Env   []string
	Cwd   string
	Root  string
	Files []seenFile
}

// pycOf is where the stand-in puts the result of a source file.
func pycOf(p string) string {
	d, f := filepath.Split(p)
	return filepath.Join(d, "__pycache__", strings.TrimSuffix(f, ".py")+".cpython-39.pyc")
}

// pycContent is the result of a source file: it depends on all inputs that may matter.
func pycContent(p, content string) string { return "PYC\x00" + p + "\n" + content }

func compiler() {
	fail := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "stand-in compiler:", err)
			os.Exit(3)
		}
	}
	var s spec
	bs, err := ioutil.ReadFile(os.Getenv("C25_SPEC"))
	fail(err)
	fail(json.Unmarshal(bs, &s))
	r := report{Args: os.Args[1:], Env: os.Environ()}
	r.Cwd, _ = os.Getwd()
	if len(os.Args) > 1 {
		r.Root = os.Args[len(os.Args)-1]
	}
	_ = filepath.Walk(r.Root, func(p string, fi os.FileInfo, err error) error {
		fail(err)
		rel, _ := filepath.Rel(r.Root, p)
		if rel == "." {
			return nil
		}
		f := seenFile{Path: rel, Dir: fi.IsDir(), Mtime: fi.ModTime().UnixNano()}
		if fi.Mode().IsRegular() {
			bs, err := ioutil.ReadFile(p)
			fail(err)
			f.Content = string(bs)
		}
		r.Files = append(r.Files, f)
		return nil
	})
	bs, err = json.Marshal(r)
	fail(err)
	fail(ioutil.WriteFile(s.Report+".tmp", bs, 0o600))
	fail(os.Rename(s.Report+".tmp", s.Report))
	if s.Ready != "" {
		f, err := os.OpenFile(s.Ready, os.O_WRONLY, 0)
		fail(err)
		_, _ = f.Write([]byte("x"))
		_ = f.Close()
	}
	if s.Go != "" {
		f, err := os.Open(s.Go)
		fail(err)
		_, _ = ioutil.ReadAll(f)
		_ = f.Close()
	}
	write := func(n int) {
		for _, f := range r.Files {
			if f.Dir || !strings.HasSuffix(f.Path, ".py") {
				continue
			}
			if n == 0 {
				return
			}
			n--
			out := filepath.Join(r.Root, pycOf(f.Path))
			fail(os.MkdirAll(filepath.Dir(out), 0o777))
			fail(ioutil.WriteFile(out, []byte(pycContent(f.Path, f.Content)), 0o644))
		}
	}
	switch s.Mode {
	case "ok":
		write(-1)
	case "none":
	case "clutter": // things that are not compiled files
		write(-1)
		fail(ioutil.WriteFile(filepath.Join(r.Root, "log.txt"), []byte("x"), 0o644))
		fail(ioutil.WriteFile(filepath.Join(r.Root, "x.pyo"), []byte("x"), 0o644))
		fail(ioutil.WriteFile(filepath.Join(r.Root, "pyc"), []byte("x"), 0o644))
		fail(ioutil.WriteFile(filepath.Join(r.Root, "x.pyc.tmp"), []byte("x"), 0o644))
		fail(ioutil.WriteFile(filepath.Join(r.Root, "X.PYC"), []byte("x"), 0o644))
		fail(os.MkdirAll(filepath.Join(r.Root, "dir.pyc"), 0o777))
		fail(ioutil.WriteFile(filepath.Join(r.Root, "dir.pyc", "y"), []byte("x"), 0o644))
		fmt.Println("Compiling...")
		fmt.Fprintln(os.Stderr, "warning")
	case "legacy": // next to the sources
		for _, f := range r.Files {
			if !f.Dir && strings.HasSuffix(f.Path, ".py") {
				fail(ioutil.WriteFile(filepath.Join(r.Root, f.Path+"c"), []byte(pycContent(f.Path, f.Content)), 0o644))
			}
		}
	case "readonly": // leaves read-only files and directories
		write(-1)
		_ = filepath.Walk(r.Root, func(p string, fi os.FileInfo, err error) error {
			if fi.IsDir() {
				return os.Chmod(p, 0o555)
			}
			return os.Chmod(p, 0o444)
		})
	case "removes": // removes the sources
		write(-1)
		for _, f := range r.Files {
			if !f.Dir {
				fail(os.Remove(filepath.Join(r.Root, f.Path)))
			}
		}
	case "fail": // without any output
		os.Exit(1)
	case "fail2":
		os.Exit(120)
	case "failpartial": // after some output
		write(1)
		os.Exit(1)
	case "failall": // after all output
		write(-1)
		os.Exit(1)
	case "killed":
		write(1)
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	case "terminated":
		write(-1)
		_ = syscall.Kill(os.Getpid(), syscall.SIGTERM)
		select {}
	case "dangling": // a compiled file that cannot be read
		write(-1)
		fail(os.Symlink("nowhere", filepath.Join(r.Root, "bad.pyc")))
	case "rmroot": // removes the whole directory
		fail(os.RemoveAll(r.Root))
	default:
		fail(fmt.Errorf("mode %q", s.Mode))
	}
}
