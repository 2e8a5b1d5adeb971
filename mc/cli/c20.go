package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c20 = mc.Suite{
	ID:    "C20",
	Level: "model_checking",
	Rule: "the real command runs under a tracer that kills it at, fails, or cuts short one (thorough: also two) of its numbered file system calls; " +
		"the output file is examined afterwards, and the command is run again without faults; a case is non-trivial if the fault happened",
	Assumptions: []string{
		"crashes are crashes of the process, not of the machine: completed writes persist",
		"the Go toolchain is a stand-in that produces fixed files",
		"a run that fails to remove its temporary files because removing fails may leave them behind",
		"if the file that is there is not a layer, the command may refuse to replace it",
	},
	Body:     c20body,
	Deadline: 10 * time.Minute,
}

type prior struct {
	name string
	mk   func(out string) // creates the output file
	same bool             // equal to the new layer, except for timestamps
	bad  bool             // not a layer
	dir  bool             // out is not a file
}

func retime(layer string, t time.Time) string {
	ents, err := ltar.Decode([]byte(layer))
	must(err)
	for i := range ents {
		ents[i].Hdr.ModTime = t
	}
	return string(ltar.MustEncode(ents))
}

func gzs(s string) string {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, _ = w.Write([]byte(s))
	_ = w.Close()
	return buf.String()
}

func c20body(t *mc.T) {
	shared := mkshared()
	defer os.RemoveAll(shared)
	n := 0
	newCase := func() (dir, out string, env []string) {
		n++
		dir, err := os.MkdirTemp("", "case")
		must(err)
		must(os.Mkdir(filepath.Join(dir, "tmp"), 0o755))
		must(os.Mkdir(filepath.Join(dir, "o"), 0o755))
		return dir, filepath.Join(dir, "o/layer.tar"), environ(shared, filepath.Join(dir, "tmp"))
	}
	args := []string{"layer", "gobuild", "--output=o/layer.tar", "./prog", "example.com/tool"}

	// The new layer, checked on its own.
	dir, out, env := newCase()
	res := traced(dir, "", env, nil, args)
	if res.rc != 0 {
		t.Section("reference", "")
		t.Case(func() string { return "layer gobuild to a new file" }, func(c *mc.C) { c.Failf("exit status %d: %s", res.rc, res.stderr) })
		return
	}
	want := read(out)
	os.RemoveAll(dir)

	old := string(ltar.MustEncode([]ltar.Ent{
		{Hdr: tar.Header{Typeflag: tar.TypeDir, Name: "usr/", Mode: 0o755}},
		{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "usr/old", Mode: 0o644}, Body: bytes.Repeat([]byte("old"), 7000)}}))
	longer := want + strings.Repeat("\x00", 512*100) // what was there is longer than the new one
	ents, err := ltar.Decode([]byte(want))
	must(err)
	nearly := append([]ltar.Ent(nil), ents...)
	nearly[len(nearly)-1].Body = append([]byte(nil), nearly[len(nearly)-1].Body...)
	nearly[len(nearly)-1].Body[0] ^= 1
	file := func(content string) func(string) { return func(out string) { write(out, content) } }
	later := time.Unix(1610000000, 0)
	priors := []prior{
		{name: "absent", mk: func(string) {}},
		{name: "different", mk: file(old)},
		{name: "nearly-same", mk: file(string(ltar.MustEncode(nearly)))},
		{name: "fewer-entries", mk: file(string(ltar.MustEncode(ents[:len(ents)-1])))},
		{name: "same", mk: file(want), same: true},
		{name: "same-retimed", mk: file(retime(want, later)), same: true},
		{name: "same-gzip", mk: file(gzs(retime(want, later))), same: true},
		{name: "different-gzip", mk: file(gzs(old))},
		{name: "longer", mk: file(longer), same: true},
		{name: "longer-different", mk: file(string(ltar.MustEncode(nearly)) + strings.Repeat("\x00", 512*300))},
		{name: "symlink", mk: func(out string) { write(out+".target", old); must(os.Symlink("layer.tar.target", out)) }},
		{name: "dangling-symlink", mk: func(out string) { must(os.Symlink("nowhere", out)) }},
		{name: "readonly", mk: func(out string) { write(out, old); must(os.Chmod(out, 0o400)) }},
		{name: "empty", mk: file(""), bad: true},
		{name: "garbage", mk: file("not a layer, but long enough to be looked at" + strings.Repeat("x", 3000)), bad: true},
		{name: "half", mk: file(want[:len(want)/2]), bad: true},
		{name: "half-gzip", mk: file(gzs(want)[:100]), bad: true},
		{name: "directory", mk: func(out string) { must(os.Mkdir(out, 0o755)) }, bad: true, dir: true},
	}

	type snap struct {
		content string
		exists  bool
		ino     uint64
		mtime   int64
		list    string
	}
	look := func(dir, out string) snap {
		s := snap{list: strings.Join(ls(filepath.Dir(out)), " ")}
		var st syscall.Stat_t
		if syscall.Lstat(out, &st) == nil {
			s.exists, s.ino, s.mtime = true, st.Ino, st.Mtim.Nano()
			if st.Mode&syscall.S_IFMT != syscall.S_IFDIR {
				if _, err := os.Stat(out); err == nil {
					s.content = read(out)
				}
			}
		}
		return s
	}

	check := func(c *mc.C, p prior, before, after snap, out string, res result, acts []act, ref []event) {
		dir := filepath.Dir(filepath.Dir(out))
		isOld := after.exists == before.exists && after.content == before.content
		isNew := after.exists && after.content == want
		untouched := isOld && after.ino == before.ino && after.mtime == before.mtime
		killed := res.rc == 128+9
		if !isOld && !isNew {
			c.Failf("the output file is neither the old nor the new layer (exists %v, %d bytes; old %d, new %d), exit status %d", after.exists, len(after.content), len(before.content), len(want), res.rc)
		}
		if res.rc == 0 {
			switch {
			case p.dir:
				c.Failf("exit status 0 although the output is a directory")
			case p.same && len(acts) == 0 && !untouched:
				c.Failf("the file was touched although only timestamps changed")
			case p.same && isNew && !isOld && len(acts) == 0:
				c.Failf("the file was replaced although only timestamps changed")
			case !p.same && !isNew:
				c.Failf("exit status 0, but the file is not the new layer")
			}
			// an operation on the new file that failed must be noticed
			for _, a := range acts {
				if a.mode == "fail" && a.arg != eintr && len(acts) == 1 && a.n <= len(ref) {
					e := ref[a.n-1]
					if e.writing && strings.HasPrefix(e.path, "o/") && (e.name == "close" || e.sized()) {
						c.Failf("exit status 0 although %v failed", e)
					}
				}
			}
		} else if !killed {
			if len(res.stderr) == 0 {
				c.Failf("exit status %d without a message", res.rc)
			}
			if isNew && !isOld && len(acts) == 0 {
				c.Failf("exit status %d, but the file was replaced", res.rc)
			}
		}
		if res.rc == 2 && strings.Contains(res.stderr, "goroutine ") {
			c.Failf("crashed: %.300s", res.stderr)
		}
		// nothing else is left behind by a run that returns
		if !killed {
			removing := false
			for _, a := range acts {
				first := len(ref) + 1
				for _, e := range ref {
					if strings.HasPrefix(e.path, "tmp/") && (e.name == "unlinkat" || e.name == "unlink" || e.name == "rmdir") {
						first = e.idx
						break
					}
				}
				if a.n <= len(ref) && (a.n >= first && strings.HasPrefix(ref[a.n-1].path, "tmp") || strings.HasPrefix(ref[a.n-1].name, "unlink")) || len(acts) > 1 {
					removing = true
				}
			}
			if !removing {
				if l := ls(filepath.Join(dir, "tmp")); len(l) > 0 {
					c.Failf("left behind in the temporary directory: %q (exit status %d)", l, res.rc)
				}
				wantList := before.list
				if isNew && !before.exists {
					wantList = filepath.Base(out)
					if before.list != "" {
						wantList += " " + before.list
					}
				}
				if after.list != wantList {
					c.Failf("left behind next to the output file: %q, was %q (exit status %d)", after.list, wantList, res.rc)
				}
			}
		}
	}

	run := func(c *mc.C, p prior, acts []act, ref []event) result {
		dir, out, env := newCase()
		defer os.RemoveAll(dir)
		p.mk(out)
		if p.name != "symlink" && p.name != "dangling-symlink" && p.name != "absent" {
			past := time.Unix(1500000000, 123)
			must(os.Chtimes(out, past, past))
		}
		before := look(dir, out)
		res := traced(dir, "", env, acts, args)
		after := look(dir, out)
		check(c, p, before, after, out, res, acts, ref)
		c.Transitions(len(res.events))
		// a later run succeeds
		if !p.bad && !c.Failed() {
			again := traced(dir, "", env, nil, args)
			final := look(dir, out)
			switch {
			case again.rc != 0:
				c.Failf("a later run fails: exit status %d: %s", again.rc, again.stderr)
			case !p.same && final.content != want:
				c.Failf("a later run does not produce the new layer")
			case p.same && after.content == before.content && final.ino != after.ino:
				c.Failf("a later run replaces the file although nothing changed")
			}
		}
		return res
	}

	t.Section("content", "what the layer has: the toolchain's output below usr/local/bin, owned by root")
	t.Case(func() string { return "layer gobuild" }, func(c *mc.C) {
		c.Outcome("content")
		names := ""
		for _, e := range ents {
			names += strings.TrimSuffix(e.Hdr.Name, "/") + " "
			if e.Hdr.Uid != 0 || e.Hdr.Gid != 0 || e.Hdr.Uname != "root" || e.Hdr.Gname != "root" {
				c.Failf("%s belongs to %d:%d %s:%s", e.Hdr.Name, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname)
			}
			if e.Hdr.ModTime.Unix() > 1600000000 {
				c.Failf("%s is newer than SOURCE_DATE_EPOCH", e.Hdr.Name)
			}
			if e.Hdr.Typeflag == tar.TypeReg {
				if string(e.Body) != read(filepath.Join(shared, "go", filepath.Base(e.Hdr.Name))) || e.Hdr.Mode&0o777 != 0o755 {
					c.Failf("%s is not what the toolchain built", e.Hdr.Name)
				}
			}
		}
		if names != "usr usr/local usr/local/bin usr/local/bin/prog usr/local/bin/tool " {
			c.Failf("layer has %s", names)
		}
	})

	t.Section("fault-free", fmt.Sprintf("%d prior states of the output file, several runs", len(priors)))
	refs := make([][]event, len(priors))
	for i, p := range priors {
		p := p
		t.Case(func() string { return p.name }, func(c *mc.C) { c.Outcome(p.name); run(c, p, nil, nil) })
		if p.dir {
			continue
		}
		// every worker needs the numbering
		dir, out, env := newCase()
		p.mk(out)
		refs[i] = agreed(fmt.Sprint("20-", i), func() []event { return traced(dir, "", env, nil, args).events })
		os.RemoveAll(dir)
	}
	t.Section("other-device", "TMPDIR on another file system than the output file")
	t.Case(func() string { return "/dev/shm" }, func(c *mc.C) {
		var a, b syscall.Stat_t
		dir, out, env := newCase()
		defer os.RemoveAll(dir)
		if syscall.Stat("/dev/shm", &a) != nil || syscall.Stat(dir, &b) != nil || a.Dev == b.Dev {
			c.Trivial()
			return
		}
		tmp, err := os.MkdirTemp("/dev/shm", "verif-c20")
		if err != nil {
			c.Trivial()
			return
		}
		defer os.RemoveAll(tmp)
		env[1] = "TMPDIR=" + tmp
		c.Outcome("other device")
		for i := 0; i < 2; i++ {
			if i == 1 {
				write(out, old)
			}
			if res := traced(dir, "", env, nil, args); res.rc != 0 || read(out) != want {
				c.Failf("exit status %d: %s", res.rc, res.stderr)
			}
		}
		if l := ls(tmp); len(l) > 0 {
			c.Failf("left behind: %q", l)
		}
	})
	t.Section("toolchain-fails", "the toolchain fails, for every prior state: an error, and the file is untouched")
	for _, p := range priors {
		p := p
		t.Case(func() string { return p.name }, func(c *mc.C) {
			dir, out, env := newCase()
			defer os.RemoveAll(dir)
			p.mk(out)
			before := look(dir, out)
			res := traced(dir, "", env, nil, []string{"layer", "gobuild", "-o", "o/layer.tar", "fail"})
			c.Outcome(fmt.Sprint(res.rc))
			if res.rc == 0 || look(dir, out) != before || len(ls(filepath.Join(dir, "tmp"))) > 0 {
				c.Failf("exit status %d, file or temporary directory changed", res.rc)
			}
		})
	}

	faults := func(e event) []act {
		ret := []act{{"kill", e.idx, 0}, {"fail", e.idx, eio}}
		if e.sized() {
			ret = append(ret, act{"fail", e.idx, enospc}, act{"short", e.idx, 1}, act{"short", e.idx, -1}, act{"shortkill", e.idx, 1}, act{"shortkill", e.idx, -1}, act{"killafter", e.idx, 0})
		}
		if strings.HasPrefix(e.name, "open") || strings.HasPrefix(e.name, "rename") || e.name == "mkdirat" || e.name == "link" {
			ret = append(ret, act{"fail", e.idx, enospc}, act{"fail", e.idx, eacces})
		}
		if e.name == "close" {
			ret = append(ret, act{"fail", e.idx, enospc})
		}
		return ret
	}
	t.Section("faults", "every file system call of a run as a crash point and failure point (error, no space, short write, torn write), for every prior state (calls on temporary files: quick for 3 of them)")
	for i, p := range priors {
		p, ref := p, refs[i]
		for _, e := range ref {
			if strings.HasPrefix(e.path, "tmp") && !t.Thorough() && p.name != "absent" && p.name != "different" && p.name != "same-retimed" {
				continue // what happens before the output file is looked at does not depend on it
			}
			for _, a := range faults(e) {
				e, a := e, a
				t.Case(func() string { return fmt.Sprintf("%s: %v (%v)", p.name, a, e) }, func(c *mc.C) {
					res := run(c, p, []act{a}, ref)
					if len(res.events) >= a.n-1 {
						c.Outcome(fmt.Sprintf("%s %s rc%d", e.name, a.mode, res.rc))
						c.State(fmt.Sprintf("%s %d %s", p.name, a.n, a.mode))
					}
				})
			}
		}
	}
	if !t.Thorough() {
		return
	}
	t.Section("double-faults", "a failure at every call, followed by a crash or another failure at every later call, for 3 prior states")
	for i, p := range priors {
		if p.name != "absent" && p.name != "different" && p.name != "same-retimed" {
			continue
		}
		p, ref := p, refs[i]
		for x, e := range ref {
			for y := x + 1; y < len(ref)+4; y++ {
				for _, a2 := range []act{{"kill", y + 1, 0}, {"fail", y + 1, eio}} {
					e, a := e, []act{{"fail", e.idx, eio}, a2}
					t.Case(func() string { return fmt.Sprintf("%s: %v (%v)", p.name, a, e) }, func(c *mc.C) {
						res := run(c, p, a, ref)
						if len(res.events) >= a[1].n-1 {
							c.Outcome(fmt.Sprintf("%s %s rc%d", e.name, a[1].mode, res.rc))
						}
					})
				}
			}
		}
	}
}
