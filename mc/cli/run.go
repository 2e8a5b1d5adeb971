package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

const (
	eio    = 5
	enospc = 28
	eintr  = 4
	enoent = 2
	eacces = 13
)

// event is one file system call of a run.
type event struct {
	idx     int
	name    string
	fd      int
	ret     string
	path    string // relative to the case's directory
	writing bool   // concerns a file that the run writes to
}

func (e event) String() string { return fmt.Sprintf("#%d %s %s", e.idx, e.name, e.path) }

func (e event) sized() bool { return e.name == "write" || e.name == "pwrite64" || e.name == "copy_file_range" || e.name == "sendfile" }

type act struct {
	mode string
	n    int
	arg  int
}

func (a act) String() string { return fmt.Sprintf("%s(%d) at %d", a.mode, a.arg, a.n) }

type result struct {
	rc     int
	stderr string
	events []event
}

// traced runs a command under iotrace.  dir is the directory whose calls are numbered; stdout (if not "")
// is a file.
func traced(dir, stdout string, env []string, acts []act, args []string) result {
	log := dir + ".log"
	defer os.Remove(log)
	av := []string{log, dir}
	for _, a := range acts {
		av = append(av, a.mode, fmt.Sprint(a.n), fmt.Sprint(a.arg))
	}
	av = append(append(av, "--", os.Getenv("OCIBUILD")), args...)
	cmd := exec.Command(os.Getenv("IOTRACE"), av...)
	cmd.Env = env
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if stdout != "" {
		f, err := os.Create(stdout)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	r := result{stderr: errb.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.rc = ee.ExitCode()
	}
	if r.rc == 125 || r.rc == 127 {
		panic("iotrace failed: " + r.stderr)
	}
	bs, err := ioutil.ReadFile(log)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(bytes.NewReader(bs))
	writing := map[string]bool{}
	for sc.Scan() {
		p := strings.SplitN(sc.Text(), " ", 5)
		if len(p) < 5 {
			continue
		}
		idx, _ := strconv.Atoi(p[0])
		fd, _ := strconv.Atoi(p[2])
		rel, _ := filepath.Rel(dir, strings.TrimSuffix(p[4], " (deleted)"))
		e := event{idx: idx, name: p[1], fd: fd, ret: p[3], path: rel}
		if e.sized() {
			writing[rel] = true
		}
		r.events = append(r.events, e)
	}
	for i := range r.events {
		r.events[i].writing = writing[r.events[i].path]
	}
	return r
}

// plain runs the command without a tracer.
func plain(dir string, env []string, stdout *os.File, args []string) (rc int, stderr string) {
	return plainCmd(dir, env, stdout, append([]string{os.Getenv("OCIBUILD")}, args...))
}

func plainCmd(dir string, env []string, stdout *os.File, args []string) (rc int, stderr string) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Env = env
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = stdout
	err := cmd.Run()
	if err == nil {
		return 0, errb.String()
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		panic(err)
	}
	if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		return 128 + int(ws.Signal()), errb.String()
	}
	return ee.ExitCode(), errb.String()
}

// agreed returns the events that f finds, the same ones in every worker: runs of commands that have several
// goroutines may differ in the order of the calls, and the numbering of the cases follows from the events.
func agreed(name string, f func() []event) []event {
	p := filepath.Join(os.Getenv("WORK"), "events-"+name)
	lock, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	defer lock.Close()
	must(syscall.Flock(int(lock.Fd()), syscall.LOCK_EX))
	type rec struct {
		Idx, Fd         int
		Name, Ret, Path string
		Writing         bool
	}
	var recs []rec
	bs, err := ioutil.ReadAll(lock)
	must(err)
	if len(bs) == 0 {
		for _, e := range f() {
			recs = append(recs, rec{e.idx, e.fd, e.name, e.ret, e.path, e.writing})
		}
		bs, err = json.Marshal(recs)
		must(err)
		_, err = lock.Write(bs)
		must(err)
	}
	must(json.Unmarshal(bs, &recs))
	var ret []event
	for _, r := range recs {
		ret = append(ret, event{idx: r.Idx, fd: r.Fd, name: r.Name, ret: r.Ret, path: r.Path, writing: r.Writing})
	}
	return ret
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func write(p, content string) { must(ioutil.WriteFile(p, []byte(content), 0o644)) }

func read(p string) string {
	bs, err := ioutil.ReadFile(p)
	must(err)
	return string(bs)
}

// ls lists everything below a directory.
func ls(dir string) []string {
	var ret []string
	must(filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if p != dir {
			rel, _ := filepath.Rel(dir, p)
			ret = append(ret, rel)
		}
		return nil
	}))
	return ret
}

// environ is the environment of the commands: stand-ins first on PATH, a fixed time, scratch TMPDIR.
func environ(shared, tmp string) []string {
	return []string{
		"PATH=" + filepath.Join(shared, "bin") + ":/usr/bin:/bin", "TMPDIR=" + tmp, "SOURCE_DATE_EPOCH=1600000000", "HOME=" + tmp,
		"FAKEGO_FILES=" + filepath.Join(shared, "go"), "FAKEPYTHON_INFO=" + filepath.Join(shared, "python.json"), "GOMAXPROCS=2", "TZ=UTC",
	}
}

// shared creates what all runs of a worker have in common.
func mkshared() string {
	dir, err := os.MkdirTemp("", "shared")
	must(err)
	self, err := os.Executable()
	must(err)
	must(os.Mkdir(filepath.Join(dir, "bin"), 0o755))
	must(os.Mkdir(filepath.Join(dir, "go"), 0o755))
	must(os.Symlink(self, filepath.Join(dir, "bin/go")))
	must(os.Symlink(self, filepath.Join(dir, "bin/python3")))
	write(filepath.Join(dir, "go/prog"), strings.Repeat("\x7fELF program ", 10000))
	must(os.Chmod(filepath.Join(dir, "go/prog"), 0o755))
	write(filepath.Join(dir, "go/tool"), "small")
	must(os.Chmod(filepath.Join(dir, "go/tool"), 0o755))
	return dir
}
