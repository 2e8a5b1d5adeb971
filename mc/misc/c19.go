package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c19 = mc.Suite{
	ID:    "C19",
	Level: "model_checking",
	Rule: "all ordered pairs of layers of up to 2 (3) entries over an alphabet where entries differ in one attribute each (times in every tar representation); " +
		"all single byte changes, all length pairs and all read-fault and truncation points; both directions; " +
		"non-trivial: every case",
	Assumptions: []string{
		"the tar dialect (USTAR, PAX, GNU) is not content; a stream that ends between two entries is a shorter layer",
		"a difference found before a fault may be reported instead of the fault",
	},
	Body: runC19,
}

func key(e ltar.Ent) string {
	h := e.Hdr
	var x []string
	for k, v := range h.PAXRecords {
		if k != "mtime" && k != "atime" && k != "ctime" && k != "path" && k != "linkpath" {
			x = append(x, k+"="+v)
		}
	}
	sort.Strings(x)
	ty := h.Typeflag
	if ty == 0 {
		ty = '0'
	}
	return fmt.Sprintf("%q %c %o %d:%d %s:%s %q %d,%d %q %q", h.Name, ty, h.Mode, h.Uid, h.Gid, h.Uname, h.Gname, h.Linkname, h.Devmajor, h.Devminor, x, e.Body)
}

func keys(l []ltar.Ent) string {
	s := ""
	for _, e := range l {
		s += key(e) + "\n"
	}
	return s
}

// fault is a layer whose stream fails or ends early.
type faulty struct {
	ltar.RawLayer
	at       int
	err      error // nil: end of file
	openErr  error
	closeErr error
}

type faultReader struct {
	r io.Reader
	f faulty
}

func (r faultReader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r faultReader) Close() error               { return r.f.closeErr }

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

func (f faulty) Uncompressed() (io.ReadCloser, error) {
	if f.openErr != nil {
		return nil, f.openErr
	}
	bs := []byte(f.RawLayer)
	if f.at >= 0 && f.at <= len(bs) {
		if f.err != nil {
			return faultReader{io.MultiReader(bytes.NewReader(bs[:f.at]), errReader{f.err}), f}, nil
		}
		bs = bs[:f.at]
	}
	return faultReader{bytes.NewReader(bs), f}, nil
}

func bothWays(c *mc.C, a, b ociv1.Layer, want bool, what string) {
	for dir, p := range [][2]ociv1.Layer{{a, b}, {b, a}} {
		got, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1])
		if err != nil {
			c.Failf("%s: direction %d: %v", what, dir, err)
			return
		}
		if got != want {
			c.Failf("%s: direction %d: equal is %v, want %v", what, dir, got, want)
			return
		}
	}
	c.Inner(2)
}

func runC19(t *mc.T) {
	t0 := time.Unix(1000000000, 0)
	type variant struct {
		name string
		f    func(e *ltar.Ent)
	}
	file := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "dir/file", Mode: 0o644, Uid: 1, Gid: 2, Uname: "u", Gname: "g", ModTime: t0}, Body: []byte("content")}
	times := []variant{
		{"base", func(e *ltar.Ent) {}},
		{"mtime+1s", func(e *ltar.Ent) { e.Hdr.ModTime = t0.Add(time.Second) }},
		{"mtime epoch", func(e *ltar.Ent) { e.Hdr.ModTime = time.Unix(0, 0) }},
		{"mtime fraction (PAX)", func(e *ltar.Ent) {
			e.Hdr.ModTime = t0.Add(5 * time.Millisecond)
			e.Hdr.Format = tar.FormatPAX
		}},
		{"mtime negative (PAX)", func(e *ltar.Ent) { e.Hdr.ModTime = time.Unix(-5, 0); e.Hdr.Format = tar.FormatPAX }},
		{"mtime huge (PAX)", func(e *ltar.Ent) { e.Hdr.ModTime = time.Unix(1<<34, 0); e.Hdr.Format = tar.FormatPAX }},
		{"atime (PAX)", func(e *ltar.Ent) { e.Hdr.AccessTime = t0.Add(time.Hour); e.Hdr.Format = tar.FormatPAX }},
		{"ctime (PAX)", func(e *ltar.Ent) { e.Hdr.ChangeTime = t0.Add(time.Hour); e.Hdr.Format = tar.FormatPAX }},
		{"ctime 2 (PAX)", func(e *ltar.Ent) { e.Hdr.ChangeTime = t0.Add(2 * time.Hour); e.Hdr.Format = tar.FormatPAX }},
		{"all times (PAX)", func(e *ltar.Ent) {
			e.Hdr.ModTime, e.Hdr.AccessTime, e.Hdr.ChangeTime = t0.Add(7*time.Second+9), t0.Add(8), t0.Add(3*time.Minute)
			e.Hdr.Format = tar.FormatPAX
		}},
		{"atime+ctime (GNU)", func(e *ltar.Ent) {
			e.Hdr.AccessTime, e.Hdr.ChangeTime = t0.Add(time.Hour), t0.Add(2*time.Hour)
			e.Hdr.Format = tar.FormatGNU
		}},
		{"ctime (GNU)", func(e *ltar.Ent) { e.Hdr.ChangeTime = t0.Add(5 * time.Hour); e.Hdr.Format = tar.FormatGNU }},
		{"USTAR", func(e *ltar.Ent) { e.Hdr.Format = tar.FormatUSTAR }},
		{"GNU", func(e *ltar.Ent) { e.Hdr.Format = tar.FormatGNU }},
	}
	attrs := []variant{
		{"base", func(e *ltar.Ent) {}},
		{"name", func(e *ltar.Ent) { e.Hdr.Name = "dir/filf" }},
		{"name shorter", func(e *ltar.Ent) { e.Hdr.Name = "dir/fil" }},
		{"name case", func(e *ltar.Ent) { e.Hdr.Name = "dir/File" }},
		{"name ./", func(e *ltar.Ent) { e.Hdr.Name = "./dir/file" }},
		{"body byte", func(e *ltar.Ent) { e.Body = []byte("contenT") }},
		{"body empty", func(e *ltar.Ent) { e.Body = nil }},
		{"body longer", func(e *ltar.Ent) { e.Body = []byte("content\x00") }},
		{"mode", func(e *ltar.Ent) { e.Hdr.Mode = 0o645 }},
		{"mode setuid", func(e *ltar.Ent) { e.Hdr.Mode = 0o4644 }},
		{"uid", func(e *ltar.Ent) { e.Hdr.Uid = 3 }},
		{"gid", func(e *ltar.Ent) { e.Hdr.Gid = 3 }},
		{"uid big", func(e *ltar.Ent) { e.Hdr.Uid = 1 << 22 }},
		{"uname", func(e *ltar.Ent) { e.Hdr.Uname = "v" }},
		{"gname", func(e *ltar.Ent) { e.Hdr.Gname = "" }},
		{"dir", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeDir; e.Hdr.Name = "dir/file/"; e.Body = nil }},
		{"symlink", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeSymlink; e.Hdr.Linkname = "a"; e.Body = nil }},
		{"symlink b", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeSymlink; e.Hdr.Linkname = "b"; e.Body = nil }},
		{"link", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeLink; e.Hdr.Linkname = "a"; e.Body = nil }},
		{"fifo", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeFifo; e.Body = nil }},
		{"char 1,2", func(e *ltar.Ent) {
			e.Hdr.Typeflag = tar.TypeChar
			e.Hdr.Devmajor, e.Hdr.Devminor = 1, 2
			e.Body = nil
		}},
		{"char 1,3", func(e *ltar.Ent) {
			e.Hdr.Typeflag = tar.TypeChar
			e.Hdr.Devmajor, e.Hdr.Devminor = 1, 3
			e.Body = nil
		}},
		{"char 2,2", func(e *ltar.Ent) {
			e.Hdr.Typeflag = tar.TypeChar
			e.Hdr.Devmajor, e.Hdr.Devminor = 2, 2
			e.Body = nil
		}},
		{"block 1,2", func(e *ltar.Ent) {
			e.Hdr.Typeflag = tar.TypeBlock
			e.Hdr.Devmajor, e.Hdr.Devminor = 1, 2
			e.Body = nil
		}},
		{"xattr x", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.a": "x"} }},
		{"xattr y", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.a": "y"} }},
		{"xattr other", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.b": "x"} }},
		{"two xattrs", func(e *ltar.Ent) {
			e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.a": "x", "SCHILY.xattr.user.b": "x"}
		}},
		{"comment", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"comment": "x"} }},
		{"vendor", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"VENDOR.key": "x"} }},
		{"vendor other", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"VENDOR.key": "y"} }},
		{"capability", func(e *ltar.Ent) {
			e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.security.capability": "\x01\x00\x00\x02"}
		}},
		{"opaque", func(e *ltar.Ent) {
			e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.trusted.overlay.opaque": "y"}
		}},
		{"xattr mtime", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.mtime": "1"} }},
	}
	type entry struct {
		name string
		ent  ltar.Ent
	}
	var alpha []entry
	for _, a := range attrs {
		for _, tm := range times {
			e := file
			e.Body = append([]byte(nil), file.Body...)
			tm.f(&e)
			a.f(&e)
			if _, err := ltar.Encode([]ltar.Ent{e}); err != nil {
				continue // e.g. extended attributes in GNU format
			}
			if a.name == "uid big" && e.Hdr.Format == tar.FormatGNU {
				continue // stored differently by each dialect, and reported as a PAX record by one
			}
			alpha = append(alpha, entry{a.name + "/" + tm.name, e})
		}
	}
	layer := func(es ...entry) (ltar.RawLayer, string) {
		var l []ltar.Ent
		for _, e := range es {
			l = append(l, e.ent)
		}
		return ltar.RawLayer(ltar.MustEncode(l)), keys(l)
	}
	t.Section("entries", fmt.Sprintf("all ordered pairs of single-entry layers over %d entries", len(alpha)))
	for i := range alpha {
		i := i
		t.Case(func() string { return alpha[i].name + " against every entry" }, func(c *mc.C) {
			a, ak := layer(alpha[i])
			for j := range alpha {
				b, bk := layer(alpha[j])
				bothWays(c, a, b, ak == bk, alpha[i].name+" vs "+alpha[j].name)
			}
			c.Outcome(alpha[i].name)
		})
	}
	// shapes of several entries: pick a handful
	var few []entry
	for _, e := range alpha {
		switch e.name {
		case "base/base", "base/all times (PAX)", "base/ctime (GNU)", "body byte/base", "mode/base", "name/base", "xattr x/mtime+1s", "symlink/base", "dir/ctime (PAX)":
			few = append(few, e)
		}
	}
	n := t.Pick(2, 3)
	var lists [][]entry
	var rec func(l []entry)
	rec = func(l []entry) {
		lists = append(lists, append([]entry(nil), l...))
		if len(l) < n {
			for _, e := range few {
				rec(append(l, e))
			}
		}
	}
	rec(nil)
	t.Section("sequences", fmt.Sprintf("all ordered pairs of the %d layers of up to %d entries over %d", len(lists), n, len(few)))
	for i := range lists {
		i := i
		t.Case(func() string {
			var s []string
			for _, e := range lists[i] {
				s = append(s, e.name)
			}
			return strings.Join(s, ", ") + " against every layer"
		}, func(c *mc.C) {
			a, ak := layer(lists[i]...)
			for j := range lists {
				b, bk := layer(lists[j]...)
				bothWays(c, a, b, ak == bk, fmt.Sprint("layer ", j))
			}
			c.Outcome(fmt.Sprint(i))
		})
	}

	sizes := t.Sizes(0, 9000, []int64{0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 4096, 5000}, "pkg/fsutil/diff.go")
	t.Section("bytes", fmt.Sprintf("one changed byte at positions of files of %d sizes, alone, followed or preceded by another file", len(sizes)))
	for _, sz := range sizes {
		sz := int(sz)
		pos := map[int]bool{}
		for p := 0; p < sz; p++ {
			if sz <= 2100 && (t.Thorough() || p%7 == 0) || p < 3 || p >= sz-3 || p%512 < 2 || p%512 == 511 {
				pos[p] = true
			}
		}
		var pl []int
		for p := range pos {
			pl = append(pl, p)
		}
		sort.Ints(pl)
		for lo := 0; lo < len(pl) || lo == 0; lo += 32 {
			lo := lo
			t.Case(func() string { return fmt.Sprintf("%d bytes, changes from number %d on", sz, lo) }, func(c *mc.C) {
				body := bytes.Repeat([]byte("0123456789abcdef"), sz/16+1)[:sz]
				other := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "other"}, Body: bytes.Repeat([]byte{'z'}, 1500)}
				for _, shape := range []int{0, 1, 2} {
					mk := func(b []byte) ociv1.Layer {
						e := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "f"}, Body: b}
						l := []ltar.Ent{e}
						switch shape {
						case 1:
							l = []ltar.Ent{e, other}
						case 2:
							l = []ltar.Ent{other, e}
						}
						return ltar.RawLayer(ltar.MustEncode(l))
					}
					a := mk(body)
					bothWays(c, a, mk(body), true, "the same")
					for k := lo; k < len(pl) && k < lo+32; k++ {
						b2 := append([]byte(nil), body...)
						b2[pl[k]] ^= 1
						bothWays(c, a, mk(b2), false, fmt.Sprintf("shape %d, byte %d changed", shape, pl[k]))
					}
				}
				c.Outcome(fmt.Sprint(sz, lo))
			})
		}
	}
	c19lengths(t)
	c19words(t)
	t.Section("lengths", "all pairs of sizes, where one content is a prefix of the other")
	for _, s1 := range sizes {
		s1 := int(s1)
		t.Case(func() string { return fmt.Sprintf("%d bytes against every size", s1) }, func(c *mc.C) {
			body := make([]byte, 9100)
			mk := func(n int) ociv1.Layer {
				return ltar.RawLayer(ltar.MustEncode([]ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "f"}, Body: body[:n]}, file}))
			}
			for _, s2 := range sizes {
				bothWays(c, mk(s1), mk(int(s2)), s1 == int(s2), fmt.Sprint(s2))
			}
			c.Outcome(fmt.Sprint(s1))
		})
	}

	t.Section("faults", "a read error, or early end, at every offset of either or both of two equal layers; errors of open and close; damaged gzip streams")
	big := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "big", Mode: 0o644}, Body: bytes.Repeat([]byte("abc"), 500)}
	stream := ltar.MustEncode([]ltar.Ent{file, big, alpha[len(alpha)-1].ent})
	boom := errors.New("injected fault")
	whole := func(n int) bool { // n bytes are a complete stream, or end between two entries
		_, err := ltar.Decode(stream[:n])
		return err == nil
	}
	for at := 0; at <= len(stream); at++ {
		if !t.Thorough() && at%3 != 0 && at%512 > 2 && at%512 < 510 {
			continue
		}
		at := at
		t.Case(func() string { return fmt.Sprintf("offset %d of %d", at, len(stream)) }, func(c *mc.C) {
			good := faulty{RawLayer: stream, at: -1}
			for _, e := range []error{boom, io.ErrUnexpectedEOF} {
				bad := faulty{RawLayer: stream, at: at, err: e}
				for dir, p := range [][2]ociv1.Layer{{good, bad}, {bad, good}, {bad, bad}} {
					if eq, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1]); err == nil && (eq || at < len(stream)) {
						c.Failf("direction %d: read error %q at offset %d is not reported (equal=%v)", dir, e, at, eq)
					}
				}
			}
			cut := faulty{RawLayer: stream, at: at}
			for dir, p := range [][2]ociv1.Layer{{good, cut}, {cut, good}, {cut, cut}} {
				eq, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1])
				w := whole(at)
				if !w && err == nil {
					c.Failf("direction %d: end of file at offset %d is not reported (equal=%v)", dir, at, eq)
				}
			}
			c.Inner(9)
			c.Outcome(fmt.Sprint(at))
		})
	}
	for _, k := range []string{"open", "close"} {
		k := k
		t.Case(func() string { return k }, func(c *mc.C) {
			good := faulty{RawLayer: stream, at: -1}
			bad := faulty{RawLayer: stream, at: -1}
			if k == "open" {
				bad.openErr = boom
			} else {
				bad.closeErr = boom
			}
			for dir, p := range [][2]ociv1.Layer{{good, bad}, {bad, good}, {bad, bad}} {
				if eq, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1]); err == nil {
					c.Failf("direction %d: error of %s is not reported (equal=%v)", dir, k, eq)
				}
			}
			c.Outcome(k)
		})
	}
	var zb bytes.Buffer
	zw := gzip.NewWriter(&zb)
	_, _ = zw.Write(stream)
	_ = zw.Close()
	z := zb.Bytes()
	gz := func(bs []byte) (ociv1.Layer, error) {
		return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(bs)), nil })
	}
	for i := 1; i <= 12; i++ {
		i := i
		t.Case(func() string { return fmt.Sprintf("gzip stream, byte %d from the end damaged or cut off", i) }, func(c *mc.C) {
			good, err := gz(z)
			if err != nil {
				panic(err)
			}
			if eq, err := fsutil.LayersEqualExceptTimestamps(good, ltar.RawLayer(stream)); err != nil || !eq {
				c.Failf("intact: %v, %v", eq, err)
			}
			for _, cut := range []bool{false, true} {
				bs := append([]byte(nil), z...)
				if cut {
					bs = bs[:len(bs)-i]
				} else {
					bs[len(bs)-i] ^= 0x55
				}
				bad, err := gz(z)
				if err != nil {
					panic(err)
				}
				bad = swapped{bad, bs}
				for dir, p := range [][2]ociv1.Layer{{good, bad}, {bad, good}, {bad, ltar.RawLayer(stream)}} {
					if eq, err := fsutil.LayersEqualExceptTimestamps(p[0], p[1]); err == nil && eq {
						c.Failf("direction %d, cut=%v: the damage is not reported", dir, cut)
					}
				}
			}
			c.Outcome(fmt.Sprint(i))
		})
	}
}

// swapped is a layer that is read from other compressed bytes.
type swapped struct {
	ociv1.Layer
	bs []byte
}

func (s swapped) Uncompressed() (io.ReadCloser, error) {
	r, err := gzip.NewReader(bytes.NewReader(s.bs))
	if err != nil {
		return nil, err
	}
	return r, nil
}
