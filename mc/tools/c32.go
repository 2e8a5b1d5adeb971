package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c32 = mc.Suite{
	ID:    "C32",
	Level: "model_checking",
	Rule: "every input of every subcommand that reads layer or image files is given as a regular file, through symlinks, as a named pipe, on standard input and as an inherited " +
		"pipe, in all combinations, with pipes that deliver their bytes in pieces of every kind, and with compression of every kind; the output must be that for regular files; " +
		"non-trivial: every case",
	Assumptions: []string{"an input that is a pipe is given once", "compression is gzip"},
	Body:        c32body,
	Deadline:    10 * time.Minute,
}

type input struct {
	data  []byte
	form  string // regular, symlink, chain, fifo, stdin, fd
	chunk int
	cut   int // how much a pipe delivers, if >= 0
	name  string
}

// feed runs the command with inputs in place of "@0", "@1", ...
func (w *world) feed(args []string, ins []input) outcome {
	cmd := exec.Command(os.Getenv("OCIBUILD"))
	cmd.Env, cmd.Dir = w.env(), w.dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	done := make(chan struct{}, len(ins))
	writers := 0
	var closers []*os.File
	deliver := func(f *os.File, in input) {
		defer func() { _ = f.Close(); done <- struct{}{} }()
		data := in.data
		if in.cut >= 0 {
			data = data[:in.cut]
		}
		for len(data) > 0 {
			n := in.chunk
			if n <= 0 || n > len(data) {
				n = len(data)
			}
			if _, err := f.Write(data[:n]); err != nil {
				return
			}
			data = data[n:]
			if in.chunk > 0 && in.chunk < 4096 && len(data)/in.chunk < 50 {
				time.Sleep(100 * time.Microsecond)
			}
		}
	}
	names := map[string]string{}
	for i, in := range ins {
		p := fmt.Sprintf("%s/in%d", w.dir, i)
		key := fmt.Sprintf("@%d", i)
		names[key] = fmt.Sprintf("in%d", i)
		if in.name != "" {
			p, names[key] = w.dir+"/"+in.name, in.name
		}
		switch in.form {
		case "regular":
			must(ioutil.WriteFile(p, in.data, 0o644))
		case "symlink":
			must(ioutil.WriteFile(p+".real", in.data, 0o644))
			must(os.Symlink(p+".real", p))
		case "chain":
			must(os.MkdirAll(w.dir+"/other", 0o755))
			must(ioutil.WriteFile(p+".real", in.data, 0o644))
			must(os.Symlink(fmt.Sprintf("../in%d.real", i), fmt.Sprintf("%s/other/in%d", w.dir, i)))
			must(os.Symlink(fmt.Sprintf("other/in%d", i), p))
		case "fifo":
			must(syscall.Mkfifo(p, 0o644))
			writers++
			in := in
			go func() {
				f, err := os.OpenFile(p, os.O_WRONLY, 0) // waits for the reader
				if err != nil {
					done <- struct{}{}
					return
				}
				deliver(f, in)
			}()
		case "stdin", "fd":
			r, wr, err := os.Pipe()
			must(err)
			closers = append(closers, r)
			if in.form == "stdin" {
				cmd.Stdin = r
				names[key] = "/dev/stdin"
			} else {
				cmd.ExtraFiles = append(cmd.ExtraFiles, r)
				names[key] = fmt.Sprintf("/dev/fd/%d", 2+len(cmd.ExtraFiles))
			}
			writers++
			go deliver(wr, in)
		}
	}
	for _, a := range args {
		for i := len(ins) - 1; i >= 0; i-- {
			key := fmt.Sprintf("@%d", i)
			a = strings.Replace(a, key, names[key], 1)
		}
		cmd.Args = append(cmd.Args, a)
	}
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
	}
	for _, f := range closers {
		_ = f.Close()
	}
	for i := range ins { // release writers of pipes that nobody read
		if ins[i].form == "fifo" {
			if f, err := os.OpenFile(fmt.Sprintf("%s/in%d", w.dir, i), os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
				defer f.Close()
				go func() { _, _ = io.Copy(ioutil.Discard, f) }()
			}
		}
	}
	for ; writers > 0; writers-- {
		<-done
	}
	return outcome{cmd.ProcessState.ExitCode(), out.String(), errb.String()}
}

func gz(bs []byte, level int) []byte {
	var buf bytes.Buffer
	zw, err := gzip.NewWriterLevel(&buf, level)
	must(err)
	_, _ = zw.Write(bs)
	must(zw.Close())
	return buf.Bytes()
}

func gzHeader(bs []byte) []byte {
	var buf bytes.Buffer
	zw := gzip.NewWriter(&buf)
	zw.Name, zw.Comment, zw.Extra, zw.ModTime = "name.tar", "comment", []byte("extra"), time.Unix(1500000000, 0)
	_, _ = zw.Write(bs)
	must(zw.Close())
	return buf.Bytes()
}

func c32body(t *mc.T) {
	ent := func(typ byte, name string, mode int64, body []byte) ltar.Ent {
		return ltar.Ent{Hdr: tar.Header{Typeflag: typ, Name: name, Mode: mode}, Body: body}
	}
	l1 := ltar.MustEncode([]ltar.Ent{ent(tar.TypeDir, "a/", 0o755, nil), ent(tar.TypeReg, "a/one", 0o644, noise(3000)), ent(tar.TypeReg, "a/two", 0o600, []byte("2"))})
	l2 := ltar.MustEncode([]ltar.Ent{ent(tar.TypeReg, "a/.wh.two", 0o644, nil), ent(tar.TypeReg, "b", 0o755, noise(100000))})
	l3 := ltar.MustEncode([]ltar.Ent{ent(tar.TypeReg, "c", 0o755, []byte("c"))})
	raw := [][]byte{l1, l2, l3}
	half := len(l2) / 2
	comp := map[string]func([]byte) []byte{
		"raw": func(b []byte) []byte { return b }, "gz1": func(b []byte) []byte { return gz(b, 1) }, "gz9": func(b []byte) []byte { return gz(b, 9) },
		"stored": func(b []byte) []byte { return gz(b, 0) }, "header": gzHeader,
		"members": func(b []byte) []byte {
			h := half
			if h > len(b) {
				h = len(b) / 2
			}
			return append(gz(b[:h], 6), gz(b[h:], 6)...)
		},
		"emptymember": func(b []byte) []byte { return append(gz(nil, 6), gz(b, 6)...) },
	}
	comps := []string{"raw", "gz1", "gz9", "stored", "header", "members", "emptymember"}
	forms := []string{"regular", "symlink", "chain", "fifo", "stdin", "fd"}
	ref := map[string]outcome{}
	reference := func(args []string, ins []input) outcome {
		key := strings.Join(args, " ")
		for _, in := range ins {
			key += " " + sum(in.data)
		}
		if o, ok := ref[key]; ok {
			return o
		}
		w := newWorld()
		defer w.close()
		reg := append([]input(nil), ins...)
		for i := range reg {
			reg[i].form, reg[i].cut = "regular", -1
		}
		o := w.feed(args, reg)
		ref[key] = o
		return o
	}
	same := func(c *mc.C, args []string, ins []input) {
		w := newWorld()
		defer w.close()
		want := reference(args, ins)
		if want.rc != 0 {
			c.Failf("regular files: exit status %d: %s", want.rc, want.stderr)
			return
		}
		o := w.feed(args, ins)
		if o.rc != 0 {
			c.Failf("exit status %d: %s", o.rc, o.stderr)
		} else if o.stdout != want.stdout {
			c.Failf("the output of %d bytes differs from that for regular files (%d bytes)", len(o.stdout), len(want.stdout))
		}
	}
	squash := func(n int) []string {
		return append([]string{"layer", "squash"}, []string{"@0", "@1", "@2"}[:n]...)
	}
	build := func(n int) []string {
		return append([]string{"image", "build", "--tag=repo:tag"}, []string{"@0", "@1", "@2"}[:n]...)
	}

	t.Section("forms", "all combinations of forms of up to 3 inputs of squash and image build")
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(forms)
		}
		for k := 0; k < total; k++ {
			var fm []string
			stdin := 0
			for i, x := 0, k; i < n; i, x = i+1, x/len(forms) {
				fm = append(fm, forms[x%len(forms)])
				if fm[i] == "stdin" {
					stdin++
				}
			}
			if stdin > 1 {
				continue
			}
			for _, cname := range []string{"raw", "gz9"} {
				for _, args := range [][]string{squash(n), build(n)} {
					if n < 2 && args[1] == "squash" {
						continue
					}
					cname, args := cname, args
					t.Case(func() string { return fmt.Sprintf("%v %v %s", args[:2], fm, cname) }, func(c *mc.C) {
						var ins []input
						for i, f := range fm {
							ins = append(ins, input{comp[cname](raw[i]), f, 0, -1, ""})
						}
						same(c, args, ins)
						c.Outcome(fmt.Sprint(fm))
					})
				}
			}
		}
	}

	t.Section("compression", "all combinations of compressions of 3 layers: squash gives the output for uncompressed ones")
	for k := 0; k < len(comps)*len(comps)*len(comps); k++ {
		cs := []string{comps[k%len(comps)], comps[k/len(comps)%len(comps)], comps[k/len(comps)/len(comps)]}
		form := []string{"regular", "fifo"}[k%2]
		t.Case(func() string { return fmt.Sprintf("%v %s", cs, form) }, func(c *mc.C) {
			w := newWorld()
			defer w.close()
			var ins, plain []input
			for i := range cs {
				ins = append(ins, input{comp[cs[i]](raw[i]), form, 0, -1, ""})
				plain = append(plain, input{raw[i], "regular", 0, -1, ""})
			}
			want := reference(squash(3), plain)
			o := w.feed(squash(3), ins)
			if o.rc != 0 || want.rc != 0 || o.stdout != want.stdout {
				c.Failf("exit status %d: %s; output of %d bytes, not %d", o.rc, o.stderr, len(o.stdout), len(want.stdout))
			}
			c.Outcome(fmt.Sprint(cs))
		})
	}

	t.Section("pieces", "pipes that deliver their bytes in pieces of every size of a list")
	for _, n := range t.Sizes(1, 70000, []int64{1, 2, 3, 7, 9, 10, 11, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537}, "pkg/fsutil", "pkg/squash") {
		for _, form := range []string{"fifo", "stdin", "fd"} {
			for _, cname := range []string{"raw", "gz9", "members"} {
				for _, args := range [][]string{squash(2), build(2)} {
					n, form, cname, args := int(n), form, cname, args
					t.Case(func() string { return fmt.Sprintf("%v pieces of %d %s %s", args[:2], n, form, cname) }, func(c *mc.C) {
						same(c, args, []input{{comp[cname](l1), form, n, -1, ""}, {comp[cname](l2), map[string]string{"stdin": "fifo", "fifo": "fd", "fd": "stdin"}[form], n, -1, ""}})
						c.Outcome(fmt.Sprint(n))
					})
				}
			}
		}
	}

	t.Section("sizes", "layers of sizes around powers of two and the constants of the code, from pipes")
	for _, n := range t.Sizes(1, 130<<20, []int64{512, 1024, 4096, 10240, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 4 << 20, 16 << 20}, "pkg/fsutil", "pkg/squash", ".") {
		for _, form := range []string{"fifo", "stdin"} {
			for _, cname := range []string{"raw", "gz1", "stored"} {
				n, form, cname := int(n), form, cname
				t.Case(func() string { return fmt.Sprintf("layer of %d bytes %s %s", n, form, cname) }, func(c *mc.C) {
					m := n
					big := append(noise(1000), make([]byte, m)...)[:m]
					same(c, squash(2), []input{{comp[cname](ltar.MustEncode([]ltar.Ent{ent(tar.TypeReg, "big", 0o644, big)})), form, 0, -1, ""}, {comp[cname](l3), "regular", 0, -1, ""}})
					c.Outcome(fmt.Sprint(n))
				})
			}
		}
	}

	t.Section("images", "base images and inspected images in all forms")
	w0 := newWorld()
	w0.image("img.tar", imageLayers(1, 2, "u", "g"), `{"Env":["PATH=/usr/bin"]}`)
	img, err := ioutil.ReadFile(w0.dir + "/img.tar")
	must(err)
	w0.close()
	for _, f1 := range forms {
		for _, f2 := range forms {
			for _, n := range []int{0, 1, 100, 1024} {
				if f1 == "stdin" && f2 == "stdin" {
					continue
				}
				f1, f2, n := f1, f2, n
				t.Case(func() string { return fmt.Sprintf("base %s layer %s pieces of %d", f1, f2, n) }, func(c *mc.C) {
					same(c, []string{"image", "build", "--base=@0", "--config.Cmd=x", "@1"}, []input{{img, f1, n, -1, ""}, {gz(l2, 6), f2, n, -1, ""}})
					c.Outcome(f1 + f2)
				})
			}
		}
	}
	for _, form := range forms {
		for _, n := range []int{0, 1, 100} {
			form, n := form, n
			t.Case(func() string { return fmt.Sprintf("inspect %s pieces of %d", form, n) }, func(c *mc.C) {
				w := newWorld()
				defer w.close()
				info := w.info("python3")
				host := info
				info.Scheme = imageScheme
				w.inImage("/usr/bin/python3", info)
				w.python(w.bin+"/python3", host)
				must(ioutil.WriteFile(w.state+"/mode.json", []byte("{}"), 0o644))
				o := w.feed([]string{"python", "inspect", "--imagefile=@0"}, []input{{img, form, n, -1, ""}})
				wantDescription(c, o, expected(info, "/usr/bin/python3", "/usr/bin/python3", 1, 2, "u", "g", []string{w.bin + "/python3", "-m", "compileall"}))
				c.Outcome(form)
			})
		}
	}

	t.Section("wheels", "platform files in all forms and in pieces, and wheels through symlinks")
	whl := wheelBytes()
	for _, f1 := range forms {
		for _, f2 := range forms[:2] {
			for _, n := range []int{0, 1, 10, 100, 512} {
				f1, f2, n := f1, f2, n
				t.Case(func() string { return fmt.Sprintf("platform %s pieces of %d, wheel %s", f1, n, f2) }, func(c *mc.C) {
					w := newWorld()
					info := w.info("python3")
					self := w.self
					w.close()
					for _, key := range keys {
						info.Scheme[key] = "/usr/" + key
					}
					plat, err := json.Marshal(expected(info, "/usr/bin/python3", "/usr/bin/python3", 1, 2, "u", "g", []string{self, "pycompile"}))
					must(err)
					same(c, []string{"layer", "wheel", "--platform-file=@0", "@1"}, []input{{plat, f1, n, -1, ""}, {whl, f2, 0, -1, "pkg-1.0-py3-none-any.whl"}})
					c.Outcome(f1 + f2)
				})
			}
		}
	}

	t.Section("cuts", "pipes that end early, at every place")
	short := ltar.MustEncode([]ltar.Ent{ent(tar.TypeReg, "a/one", 0o644, noise(300)), ent(tar.TypeReg, "b", 0o600, []byte("2"))})
	gzs := gz(short, 9)
	for cut := 0; cut < len(gzs); cut += t.Pick(3, 1) {
		for _, form := range []string{"fifo", "stdin"} {
			for _, args := range [][]string{squash(2), build(2), {"image", "build", "--base=@0", "@1"}} {
				cut, form, args := cut, form, args
				data, at := gzs, cut
				if strings.HasPrefix(args[2], "--base") {
					data = img
					at = cut * len(img) / len(gzs)
					if at >= len(img)-1024-512 { // the end of a tar archive may be missing
						continue
					}
				} else if cut == 0 {
					continue // nothing at all is an empty layer
				}
				t.Case(func() string { return fmt.Sprintf("%v %s cut at %d", args[:2], form, at) }, func(c *mc.C) {
					w := newWorld()
					defer w.close()
					o := w.feed(args, []input{{data, form, 0, at, ""}, {l3, "regular", 0, -1, ""}})
					wantFailure(c, o)
					c.Outcome(form)
				})
			}
		}
	}

	t.Section("bad inputs", "inputs that are missing, directories, dangling or looping symlinks, at every position")
	for _, bad := range []string{"missing", "dir", "dangling", "loop", "notdir"} {
		for pos := 0; pos < 3; pos++ {
			for _, args := range [][]string{squash(3), build(3), {"image", "build", "--base=@0", "@1", "@2"}, {"layer", "wheel", "--platform-file=@0", "@1"}, {"python", "inspect", "--imagefile=@0"}} {
				bad, pos, args := bad, pos, args
				if pos >= strings.Count(strings.Join(args, " "), "@") {
					continue
				}
				t.Case(func() string { return fmt.Sprintf("%v input %d %s", args, pos, bad) }, func(c *mc.C) {
					w := newWorld()
					defer w.close()
					name := "bad"
					switch bad {
					case "dir":
						must(os.Mkdir(w.dir+"/bad", 0o755))
					case "dangling":
						must(os.Symlink("nowhere", w.dir+"/bad"))
					case "loop":
						must(os.Symlink("bad", w.dir+"/bad"))
					case "notdir":
						must(ioutil.WriteFile(w.dir+"/bad", nil, 0o644))
						name = "bad/x"
					}
					a := append([]string(nil), args...)
					for i := range a {
						a[i] = strings.Replace(a[i], fmt.Sprintf("@%d", pos), name, 1)
					}
					o := w.feed(a, []input{{img, "regular", 0, -1, ""}, {l1, "regular", 0, -1, ""}, {l2, "regular", 0, -1, ""}})
					wantFailure(c, o)
					c.Outcome(bad)
				})
			}
		}
	}
}
