package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c31 = mc.Suite{
	ID:    "C31",
	Level: "model_checking",
	Rule: "all sets of up to 3 (4) file references over an alphabet of names, types and modes, in every order, times on both sides of the clamp, sizes and numbers, " +
		"and a fault at every step of every file; the layer is compared with the references; non-trivial: every case",
	Assumptions: []string{"references are directories and regular files with clean names that differ", "times have a resolution of seconds"},
	Body:        c31body,
}

// ref is a file reference that follows a script.
type ref struct {
	name     string
	mode     fs.FileMode
	size     int64
	mtime    time.Time
	sys      interface{}
	body     []byte
	chunk    int // of a read
	failAt   int // reading fails here, if >= 0
	openErr  bool
	closeEr  bool
	together bool // data and EOF at once
	open     *int
}

func (r *ref) Name() string       { return path.Base(r.name) }
func (r *ref) Size() int64        { return r.size }
func (r *ref) Mode() fs.FileMode  { return r.mode }
func (r *ref) ModTime() time.Time { return r.mtime }
func (r *ref) IsDir() bool        { return r.mode.IsDir() }
func (r *ref) Sys() interface{}   { return r.sys }
func (r *ref) FullName() string   { return r.name }
func (r *ref) Open() (io.ReadCloser, error) {
	if r.openErr {
		return nil, errors.New("open")
	}
	if r.open != nil {
		*r.open++
	}
	return &refReader{r: r}, nil
}

type refReader struct {
	r      *ref
	off    int
	closed bool
}

func (rr *refReader) Read(p []byte) (int, error) {
	if rr.closed {
		return 0, errors.New("closed")
	}
	end := len(rr.r.body)
	if rr.r.failAt >= 0 && rr.off >= rr.r.failAt {
		return 0, errors.New("read")
	}
	if rr.r.failAt >= 0 && rr.r.failAt < end {
		end = rr.r.failAt
	}
	if rr.off >= end && rr.r.failAt < 0 {
		return 0, io.EOF
	}
	n := end - rr.off
	if rr.r.chunk > 0 && n > rr.r.chunk {
		n = rr.r.chunk
	}
	n = copy(p, rr.r.body[rr.off:rr.off+n])
	rr.off += n
	if rr.r.together && rr.off == len(rr.r.body) {
		return n, io.EOF
	}
	return n, nil
}

func (rr *refReader) Close() error {
	if !rr.closed && rr.r.open != nil {
		*rr.r.open--
	}
	rr.closed = true
	if rr.r.closeEr {
		return errors.New("close")
	}
	return nil
}

const c31clamp = 1600000000

func file(name, body string) *ref {
	return &ref{name: name, mode: 0o644, size: int64(len(body)), body: []byte(body), mtime: time.Unix(1500000000, 0), failAt: -1}
}

func (r *ref) want() (typ byte, mode int64, uid, gid int, uname, gname string, mt, at, ct time.Time) {
	typ, mode = tar.TypeReg, int64(r.mode.Perm())
	if r.mode.IsDir() {
		typ = tar.TypeDir
	}
	for _, b := range []struct {
		m fs.FileMode
		v int64
	}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
		if r.mode&b.m != 0 {
			mode |= b.v
		}
	}
	mt = r.mtime
	if h, ok := r.sys.(*tar.Header); ok {
		uid, gid, uname, gname, at, ct = h.Uid, h.Gid, h.Uname, h.Gname, h.AccessTime, h.ChangeTime
	}
	return
}

// layerOf makes a layer of references and compares it with them.
func layerOf(c *mc.C, refs []*ref) []byte {
	var vfs []fsutil.FileReference
	open := 0
	for _, r := range refs {
		r.open = &open
		vfs = append(vfs, r)
	}
	clamp := time.Unix(c31clamp, 0)
	layer, err := fsutil.LayerFromFileReferences(vfs, clamp)
	if open != 0 {
		c.Failf("%d files are still open", open)
	}
	fail := false
	for _, r := range refs {
		if r.mode.IsRegular() {
			fail = fail || r.openErr || r.closeEr || (r.failAt >= 0 && r.failAt <= len(r.body)) || int64(len(r.body)) != r.size
		}
	}
	if fail {
		if err == nil {
			c.Failf("no error")
		}
		return nil
	}
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	bs, err := ltar.Bytes(layer)
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	bs2, err := ltar.Bytes(layer)
	if err != nil || !bytes.Equal(bs, bs2) {
		c.Failf("the layer reads differently the second time")
	}
	ents, err := ltar.Decode(bs)
	if err != nil {
		c.Failf("%v", err)
		return nil
	}
	byName := map[string]*ref{}
	for _, r := range refs {
		byName[r.name] = r
	}
	seen := map[string]bool{}
	for _, e := range ents {
		n := strings.TrimSuffix(e.Hdr.Name, "/")
		r := byName[n]
		if r == nil || seen[n] {
			c.Failf("unexpected or repeated entry %q", e.Hdr.Name)
			continue
		}
		seen[n] = true
		for d := path.Dir(n); d != "."; d = path.Dir(d) {
			if byName[d] != nil && !seen[d] {
				c.Failf("%s comes before %s", n, d)
			}
		}
		typ, mode, uid, gid, uname, gname, mt, at, ct := r.want()
		if e.Hdr.Typeflag != typ || e.Hdr.Mode&0o7777 != mode || e.Hdr.Uid != uid || e.Hdr.Gid != gid || e.Hdr.Uname != uname || e.Hdr.Gname != gname {
			c.Failf("%s: type %c mode %o owner %d:%d %s:%s", n, e.Hdr.Typeflag, e.Hdr.Mode, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname)
		}
		if typ == tar.TypeReg && !bytes.Equal(e.Body, r.body) || typ == tar.TypeDir && len(e.Body) > 0 {
			c.Failf("%s: content of %d bytes differs", n, len(e.Body))
		}
		for _, x := range []struct {
			what      string
			got, want time.Time
		}{{"modification", e.Hdr.ModTime, mt}, {"access", e.Hdr.AccessTime, at}, {"change", e.Hdr.ChangeTime, ct}} {
			if x.got.After(clamp) {
				c.Failf("%s: %s time %v is later than the clamp", n, x.what, x.got)
			}
			if x.want.After(clamp) {
				x.want = clamp
			}
			if x.what == "modification" && x.got.Unix() != x.want.Unix() && !(x.want.Nanosecond() != 0 && x.got.Unix() == x.want.Unix()+1) {
				c.Failf("%s: %s time is %v, not %v", n, x.what, x.got, x.want)
			}
		}
	}
	for n := range byName {
		if !seen[n] {
			c.Failf("%s is missing", n)
		}
	}
	return bs
}

func c31body(t *mc.T) {
	at := func(s int64) time.Time { return time.Unix(s, 0) }
	hdr := func(uid int, un string, a, ch int64) *tar.Header {
		h := &tar.Header{Uid: uid, Gid: uid + 1, Uname: un, Gname: un + "g"}
		if a != 0 {
			h.AccessTime = at(a)
		}
		if ch != 0 {
			h.ChangeTime = at(ch)
		}
		return h
	}
	var alpha []func() *ref
	add := func(f func() *ref) { alpha = append(alpha, f) }
	for _, n := range []string{"a", "a-b", "a.b", "ab", "b", "B", "a b", "é", ".a", "a+"} {
		n := n
		add(func() *ref { return file(n, "content of "+n) })
	}
	for _, n := range []string{"d", "d/e", "d-", "d/e/f", "D"} {
		n := n
		add(func() *ref { r := file(n, ""); r.mode = fs.ModeDir | 0o750; return r })
	}
	for _, n := range []string{"d/a", "d/e/a", "d-/a", "d.a", "d/e-", "d/e.f", "d/e/f/g", strings.Repeat("long/", 30) + "x", strings.Repeat("n", 200)} {
		n := n
		add(func() *ref { r := file(n, n); r.mode = 0o755; return r })
	}
	add(func() *ref { r := file("suid", ""); r.mode = 0o755 | fs.ModeSetuid; return r })
	add(func() *ref {
		r := file("sgid", "x")
		r.mode = 0o711 | fs.ModeSetgid
		r.sys = hdr(1000, "u", 0, 0)
		return r
	})
	add(func() *ref {
		r := file("tmp", "")
		r.mode = 0o777 | fs.ModeSticky | fs.ModeDir
		r.sys = hdr(5, "", 0, 0)
		return r
	})
	add(func() *ref { r := file("new", "x"); r.mtime = at(c31clamp + 1); return r })
	add(func() *ref { r := file("at", "x"); r.mtime = at(c31clamp); return r })
	add(func() *ref {
		r := file("newdir", "")
		r.mode = fs.ModeDir | 0o755
		r.mtime = at(c31clamp + 100)
		return r
	})
	add(func() *ref { r := file("oldnewatime", "x"); r.sys = hdr(1, "x", c31clamp+5, 0); return r })
	add(func() *ref { r := file("newctime", "x"); r.sys = hdr(3000000, "x", 1400000000, c31clamp+5); return r })
	add(func() *ref { r := file("nanos", "x"); r.mtime = time.Unix(1500000000, 5); return r })
	add(func() *ref { r := file("epoch", "x"); r.mtime = at(0); return r })

	c31words(t)
	t.Section("sets", fmt.Sprintf("all sets of up to %d of %d references, in every order", t.Pick(3, 4), len(alpha)))
	max := t.Pick(3, 4)
	var rec func(i int, set []int)
	rec = func(i int, set []int) {
		set = append([]int(nil), set...)
		t.Case(func() string { return fmt.Sprintf("references %v", set) }, func(c *mc.C) {
			var first []byte
			perm(len(set), func(p []int) {
				var refs []*ref
				for _, k := range p {
					refs = append(refs, alpha[set[k]]())
				}
				bs := layerOf(c, refs)
				if first == nil {
					first = bs
				} else if !bytes.Equal(first, bs) {
					c.Failf("order %v gives another layer", p)
				}
				c.Inner(1)
			})
			c.Outcome(fmt.Sprint(set))
		})
		if len(set) == max {
			return
		}
		for j := i; j < len(alpha); j++ {
			rec(j+1, append(set, j))
		}
	}
	rec(0, nil)

	t.Section("modes", "all permission bits of files and directories")
	for m := 0; m < 4096; m += 64 {
		m := m
		t.Case(func() string { return fmt.Sprintf("modes from %o on", m) }, func(c *mc.C) {
			for k := m; k < m+64; k++ {
				mode := fs.FileMode(k & 0o777)
				if k&0o4000 != 0 {
					mode |= fs.ModeSetuid
				}
				if k&0o2000 != 0 {
					mode |= fs.ModeSetgid
				}
				if k&0o1000 != 0 {
					mode |= fs.ModeSticky
				}
				f, d := file("f", "x"), file("d", "")
				f.mode, d.mode = mode, mode|fs.ModeDir
				layerOf(c, []*ref{f, d})
				c.Inner(1)
			}
			c.Outcome(fmt.Sprint(m))
		})
	}

	t.Section("times", "times around the clamp in every place")
	ts := []int64{0, 1, 1500000000, c31clamp - 1, c31clamp, c31clamp + 1, 2000000000, 1 << 33, 1 << 34}
	for _, m := range ts {
		m := m
		t.Case(func() string { return fmt.Sprintf("modification time %d", m) }, func(c *mc.C) {
			for _, a := range ts {
				for _, ch := range ts {
					for _, ns := range []int64{0, 1, 500000000, 999999999} {
						f := file("f", "x")
						f.mtime, f.sys = time.Unix(m, ns), hdr(0, "root", a, ch)
						d := file("d", "")
						d.mode, d.mtime, d.sys = 0o755|fs.ModeDir, time.Unix(m, ns), hdr(0, "root", a, ch)
						layerOf(c, []*ref{f, d})
						c.Inner(1)
					}
				}
			}
			c.Outcome(fmt.Sprint(m))
		})
	}

	t.Section("faults", "a fault at every step of one of three files; contents shorter and longer than announced")
	kinds := 3
	for pos := 0; pos < 3; pos++ {
		for size := 0; size <= 8; size++ {
			for k := -3; k <= 10; k++ {
				for chunk := 0; chunk <= kinds; chunk++ {
					pos, size, k, chunk := pos, size, k, chunk
					t.Case(func() string { return fmt.Sprintf("file %d of %d bytes, fault %d, chunks of %d", pos, size, k, chunk) }, func(c *mc.C) {
						refs := []*ref{file("a", "aaaa"), file("b", "bb"), file("c", "")}
						r := file(refs[pos].name, "01234567"[:size])
						refs[pos] = r
						r.chunk = chunk
						switch k {
						case -3:
							r.openErr = true
						case -2:
							r.closeEr = true
						case -1:
							r.together = true
						default:
							r.failAt = k
							if k > size { // not reached
								r.failAt = -1
								r.size = int64(k)
							}
						}
						layerOf(c, refs)
						c.Outcome(fmt.Sprint(pos, size, k))
					})
				}
			}
			for n := 0; n <= 12; n++ {
				pos, size, n := pos, size, n
				t.Case(func() string { return fmt.Sprintf("file %d of %d bytes, announced %d", pos, size, n) }, func(c *mc.C) {
					refs := []*ref{file("a", "aaaa"), file("b", "bb"), file("c", "")}
					r := file(refs[pos].name, "01234567"[:size])
					r.size = int64(n)
					refs[pos] = r
					layerOf(c, refs)
					c.Outcome(fmt.Sprint(pos, size, n))
				})
			}
		}
	}

	t.Section("sizes", "sizes of contents, numbers of files, depths and lengths of names")
	for _, n := range t.Sizes(0, 1<<22, []int64{0, 1, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10239, 10240, 10241, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1 << 22}, "pkg/fsutil") {
		n := int(n)
		t.Case(func() string { return fmt.Sprintf("content of %d bytes", n) }, func(c *mc.C) {
			for _, chunk := range []int{0, 1000, 512} {
				f := file("f", strings.Repeat("0123456789abcde\n", n/16+1)[:n])
				f.chunk = chunk
				layerOf(c, []*ref{file("g", "after"), f})
			}
			c.Outcome(fmt.Sprint("size", n))
		})
	}
	for _, n := range t.Sizes(1, 3000, []int64{10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049}, "pkg/fsutil") {
		n := int(n)
		t.Case(func() string { return fmt.Sprintf("%d files, and as many levels of directories", n) }, func(c *mc.C) {
			var refs []*ref
			for i := 0; i < n; i++ {
				refs = append(refs, file(fmt.Sprintf("f%d", i*7919%n), fmt.Sprint(i)))
			}
			layerOf(c, refs)
			refs = nil
			lv := n
			if lv > 260 {
				lv = 260
			}
			for i := lv; i > 0; i-- {
				d := file(strings.TrimSuffix(strings.Repeat("d/", i), "/"), "")
				d.mode = fs.ModeDir | 0o755
				refs = append(refs, d, file(strings.Repeat("d/", i)+"a", "x"), file(strings.Repeat("d/", i)+"e", "y"))
			}
			layerOf(c, refs)
			layerOf(c, []*ref{file(strings.Repeat("n", n), "long"), file(strings.Repeat("n", n)+"x", "longer")})
			c.Outcome(fmt.Sprint("files", n))
		})
	}
}

// perm calls f with every permutation of 0..n-1.
func perm(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}
