package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// This file encodes layers by hand, in the ways that the archivers of this world do and Go's doesn't.

type rawHeader struct {
	name, link   string
	typ          byte
	magic        string // "", "ustar\x0000" or "ustar  \x00"
	size         int64
	ent          *ltar.Ent
	binary       bool // numbers in base 256
	extra        []byte
	extraAt      int
	noUser       bool
	prefix       string
	numberFormat string
}

func (r *rawHeader) block() []byte {
	b := make([]byte, 512)
	num := func(off, n int, v int64) {
		if r.binary {
			for i := n - 1; i > 0; i-- {
				b[off+i] = byte(v)
				v >>= 8
			}
			b[off] = 0x80
			return
		}
		switch r.numberFormat {
		case "spaces": // as of old: padded with spaces, and terminated with one
			copy(b[off:off+n], fmt.Sprintf("%*o ", n-1, v))
		default:
			copy(b[off:off+n], fmt.Sprintf("%0*o", n-1, v))
		}
	}
	copy(b[0:100], r.name)
	if r.ent != nil {
		num(100, 8, r.ent.Hdr.Mode)
		num(108, 8, int64(r.ent.Hdr.Uid))
		num(116, 8, int64(r.ent.Hdr.Gid))
		num(136, 12, r.ent.Hdr.ModTime.Unix())
		if r.magic != "" {
			copy(b[265:297], r.ent.Hdr.Uname)
			copy(b[297:329], r.ent.Hdr.Gname)
		}
	} else {
		num(100, 8, 0o644)
		num(108, 8, 0)
		num(116, 8, 0)
		num(136, 12, 0)
	}
	num(124, 12, r.size)
	b[156] = r.typ
	copy(b[157:257], r.link)
	copy(b[257:265], r.magic)
	copy(b[345:], r.prefix)
	copy(b[r.extraAt:], r.extra)
	copy(b[148:156], "        ")
	sum := 0
	for _, c := range b {
		sum += int(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
	return b
}

func padded(bs []byte) []byte {
	return append(append([]byte{}, bs...), make([]byte, (512-len(bs)%512)%512)...)
}

func paxRecords(kvs ...string) []byte {
	var buf bytes.Buffer
	for i := 0; i+1 < len(kvs); i += 2 {
		tail := " " + kvs[i] + "=" + kvs[i+1] + "\n"
		n := len(tail)
		for n != len(tail)+len(fmt.Sprint(n)) {
			n = len(tail) + len(fmt.Sprint(n))
		}
		fmt.Fprintf(&buf, "%d%s", n, tail)
	}
	return buf.Bytes()
}

const (
	magicUSTAR = "ustar\x0000"
	magicGNU   = "ustar  \x00"
)

// A segment is a part of a sparse file that is not a hole.
type segment struct{ off, n int64 }

// A sparse is a sparse file.
type sparse struct {
	name string
	size int64
	segs []segment
}

func sparses() []sparse {
	var many []segment
	for i := int64(0); i < 60; i++ {
		many = append(many, segment{i * 37, 5})
	}
	of := func(n int, tail bool) sparse {
		s := sparse{fmt.Sprintf("%d segments", n), int64(n) * 37, many[:n]}
		if n > 0 && !tail {
			s.size = many[n-1].off + 5
		}
		if tail {
			s.name += " and an end mark"
			s.segs = append(append([]segment{}, s.segs...), segment{s.size, 0})
		}
		return s
	}
	ret := []sparse{
		{"nothing", 0, nil},
		{"one hole", 700, nil},
		{"one hole with an end mark", 700, []segment{{700, 0}}},
		{"no hole", 20, []segment{{0, 20}}},
		{"hole first", 600, []segment{{512, 88}}},
		{"hole last", 1024, []segment{{0, 512}, {1024, 0}}},
	}
	for _, n := range []int{2, 3, 4, 5, 24, 25, 26, 46, 47} {
		ret = append(ret, of(n, false), of(n, true))
	}
	return ret
}

// contents are the file's data with and without its holes.
func (s sparse) contents(seed int) (full, dense []byte) {
	full = make([]byte, s.size)
	for i, seg := range s.segs {
		for k := int64(0); k < seg.n; k++ {
			full[seg.off+k] = byte('a' + (seed+i+int(k))%26)
		}
		dense = append(dense, full[seg.off:seg.off+seg.n]...)
	}
	return full, dense
}

func octal(n int, v int64) []byte { return []byte(fmt.Sprintf("%0*o\x00", n-1, v)) }

// encodeSparse encodes a regular file as a sparse file.
func encodeSparse(e *ltar.Ent, s sparse, how string, seed int) []byte {
	full, dense := s.contents(seed)
	e.Body = full
	var out []byte
	h := &rawHeader{name: e.Hdr.Name, typ: '0', magic: magicUSTAR, size: int64(len(dense)), ent: e}
	pax := func(kvs ...string) {
		e.Hdr.PAXRecords = nil
		recs := paxRecords(kvs...)
		x := &rawHeader{name: "PaxHeaders/x", typ: 'x', magic: magicUSTAR, size: int64(len(recs))}
		out = append(out, x.block()...)
		out = append(out, padded(recs)...)
	}
	switch how {
	case "old GNU":
		e.Hdr.PAXRecords = nil
		h.typ, h.magic = 'S', magicGNU
		segs := s.segs
		pack := func(n int) []byte {
			var b []byte
			for i := 0; i < n; i++ {
				if len(segs) > 0 {
					b = append(append(b, octal(12, segs[0].off)...), octal(12, segs[0].n)...)
					segs = segs[1:]
				} else {
					b = append(b, make([]byte, 24)...)
				}
			}
			if len(segs) > 0 {
				return append(b, 1)
			}
			return append(b, 0)
		}
		h.extraAt = 386
		h.extra = append(pack(4), octal(12, s.size)...)
		out = append(out, h.block()...)
		for len(segs) > 0 {
			out = append(out, padded(pack(21))...)
		}
		return append(out, padded(dense)...)
	case "PAX 0.0":
		kvs := []string{"GNU.sparse.size", fmt.Sprint(s.size), "GNU.sparse.numblocks", fmt.Sprint(len(s.segs))}
		for _, seg := range s.segs {
			kvs = append(kvs, "GNU.sparse.offset", fmt.Sprint(seg.off), "GNU.sparse.numbytes", fmt.Sprint(seg.n))
		}
		pax(kvs...)
	case "PAX 0.1":
		var m []string
		for _, seg := range s.segs {
			m = append(m, fmt.Sprint(seg.off), fmt.Sprint(seg.n))
		}
		pax("GNU.sparse.size", fmt.Sprint(s.size), "GNU.sparse.numblocks", fmt.Sprint(len(s.segs)),
			"GNU.sparse.name", e.Hdr.Name, "GNU.sparse.map", strings.Join(m, ","))
		h.name = "GNUSparseFile.0/f"
	case "PAX 1.0":
		m := fmt.Sprintf("%d\n", len(s.segs))
		for _, seg := range s.segs {
			m += fmt.Sprintf("%d\n%d\n", seg.off, seg.n)
		}
		pax("GNU.sparse.major", "1", "GNU.sparse.minor", "0", "GNU.sparse.name", e.Hdr.Name, "GNU.sparse.realsize", fmt.Sprint(s.size))
		h.name = "GNUSparseFile.0/f"
		dense = append(padded([]byte(m)), dense...)
		h.size = int64(len(dense))
	}
	out = append(out, h.block()...)
	return append(out, padded(dense)...)
}

// encodeAs encodes an entry in another dialect, in which some of what the entry says cannot be said.
func encodeAs(e *ltar.Ent, dialect string) []byte {
	e.Hdr.PAXRecords = nil
	h := &rawHeader{name: e.Hdr.Name, link: e.Hdr.Linkname, typ: e.Hdr.Typeflag, size: int64(len(e.Body)), ent: e}
	var out []byte
	switch dialect {
	case "V7":
		h.numberFormat = "spaces"
		if h.typ == tar.TypeReg || h.typ == tar.TypeDir {
			h.typ = 0
		}
		e.Hdr.Uname, e.Hdr.Gname = "", ""
	case "old POSIX":
		h.magic = magicUSTAR
		if h.typ == tar.TypeReg {
			h.typ = 0
		}
	case "POSIX":
		h.magic = magicUSTAR
		if i := strings.Index(h.name, "/"); i > 0 && i < len(h.name)-1 {
			h.prefix, h.name = h.name[:i], h.name[i+1:]
		}
	case "GNU":
		h.magic = magicGNU
		h.binary = true
	case "GNU long":
		h.magic = magicGNU
		long := func(typ byte, v string) {
			x := &rawHeader{name: "././@LongLink", typ: typ, magic: magicGNU, size: int64(len(v) + 1)}
			out = append(append(out, x.block()...), padded([]byte(v+"\x00"))...)
		}
		if h.link != "" {
			long('K', h.link)
			h.link = "wrong"
		}
		long('L', h.name)
		h.name = "wrong"
	case "PAX":
		h.magic = magicUSTAR
		kvs := []string{"path", h.name, "mtime", fmt.Sprint(e.Hdr.ModTime.Unix()), "uid", fmt.Sprint(e.Hdr.Uid), "uname", e.Hdr.Uname}
		if h.link != "" {
			kvs = append(kvs, "linkpath", h.link)
			h.link = "wrong"
		}
		recs := paxRecords(kvs...)
		x := &rawHeader{name: "PaxHeaders/x", typ: 'x', magic: magicUSTAR, size: int64(len(recs))}
		out = append(append(out, x.block()...), padded(recs)...)
		h.name = "wrong"
	}
	out = append(out, h.block()...)
	return append(out, padded(e.Body)...)
}

func encodeGo(e *ltar.Ent) []byte {
	raw := ltar.MustEncode([]ltar.Ent{*e})
	return raw[:len(raw)-1024]
}

func global(name string, kvs ...string) []byte {
	recs := paxRecords(kvs...)
	g := &rawHeader{name: name, typ: 'g', magic: magicUSTAR, size: int64(len(recs))}
	return append(g.block(), padded(recs)...)
}

// dialectBuild is a layer for which enc encodes the entries, and glob what comes before entry i.
func dialectBuild(l layerSpec, pos int, enc func(i int, e *ltar.Ent) []byte, glob func(i int) []byte) *built {
	var raw []byte
	var want []ltar.Ent
	for i, el := range l {
		e := el.ent(pos)
		raw = append(raw, glob(i)...)
		raw = append(raw, enc(i, &e)...)
		want = append(want, e)
	}
	raw = append(raw, glob(len(l))...)
	raw = append(raw, make([]byte, 1024)...)
	dec, err := ltar.Decode(raw)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", l, err))
	}
	var ents []ltar.Ent
	for _, e := range dec {
		switch e.Hdr.Typeflag {
		case tar.TypeXGlobalHeader:
			continue
		case tar.TypeGNUSparse:
			e.Hdr.Typeflag = tar.TypeReg
		}
		for k := range e.Hdr.PAXRecords {
			if strings.HasPrefix(k, "GNU.sparse.") {
				delete(e.Hdr.PAXRecords, k)
			}
		}
		ents = append(ents, e)
	}
	// The reader has to have seen what was meant.
	if len(ents) != len(want) {
		panic(fmt.Sprintf("%s: %d entries", l, len(ents)))
	}
	for i, w := range want {
		g := ents[i]
		if g.Hdr.Name != w.Hdr.Name || g.Hdr.Linkname != w.Hdr.Linkname || g.Hdr.Typeflag != w.Hdr.Typeflag ||
			ltar.Meta(&g.Hdr) != ltar.Meta(&w.Hdr) || !bytes.Equal(g.Body, w.Body) {
			panic(fmt.Sprintf("%s: entry %d: %+v %q; meant %+v %q", l, i, g.Hdr, g.Body, w.Hdr, w.Body))
		}
	}
	return &built{ents, raw}
}

func noGlobal(int) []byte { return nil }

// eachDialect runs a check on stacks whose layers other archivers have written. plain is the same stack
// without what is not a file, or nil.
func eachDialect(t *mc.T, fn func(c *mc.C, s shape, stack, plain []*built)) {
	shapes := append(append([]shape{}, wordShapes()...), wordLinkShapes()...)
	dialects := []string{"V7", "old POSIX", "POSIX", "GNU", "GNU long", "PAX"}
	t.Section("dialects", bounds("%d stacks x %d tar dialects x every set of layers that are in it", len(shapes), len(dialects)))
	for _, s := range shapes {
		for _, dia := range dialects {
			for mask := 1; mask < 1<<uint(len(s.stack)); mask++ {
				if !t.Mine() {
					continue
				}
				s, dia, mask := s, dia, mask
				t.Run(func() string { return bounds("%s: layers %b in %s", s.name, mask, dia) }, func(c *mc.C) {
					var bs []*built
					for k, l := range s.stack {
						k := k
						bs = append(bs, dialectBuild(l, k, func(i int, e *ltar.Ent) []byte {
							if mask&(1<<uint(k)) == 0 {
								return encodeGo(e)
							}
							return encodeAs(e, dia)
						}, noGlobal))
					}
					fn(c, s, bs, nil)
				})
			}
		}
	}
	sps := sparses()
	hows := []string{"old GNU", "PAX 0.0", "PAX 0.1", "PAX 1.0"}
	t.Section("sparse", bounds("%d stacks x each of their files x %d kinds of sparse files x %d ways to encode them", len(shapes), len(sps), len(hows)))
	for _, s := range shapes {
		type at struct{ k, i int }
		var files []at
		for k, l := range s.stack {
			for i, e := range l {
				if e.typ == tar.TypeReg && !ltar.IsWhiteout(e.name) {
					files = append(files, at{k, i})
				}
			}
		}
		for _, file := range append(files, at{-1, -1}) { // -1 is all of them
			for _, sp := range sps {
				for _, how := range hows {
					if how == "PAX 0.0" && len(sp.segs) == 0 || how == "PAX 0.1" && len(sp.segs) == 0 {
						continue // cannot be said
					}
					if !t.Mine() {
						continue
					}
					s, file, sp, how := s, file, sp, how
					t.Run(func() string {
						return bounds("%s: file %d of layer %d is %s (%s)", s.name, file.i, file.k, sp.name, how)
					}, func(c *mc.C) {
						var bs []*built
						for k, l := range s.stack {
							k, l := k, l
							bs = append(bs, dialectBuild(l, k, func(i int, e *ltar.Ent) []byte {
								if file == (at{k, i}) || file.k < 0 && l[i].typ == tar.TypeReg && !ltar.IsWhiteout(l[i].name) {
									return encodeSparse(e, sp, how, k+i)
								}
								return encodeGo(e)
							}, noGlobal))
						}
						fn(c, s, bs, nil)
					})
				}
			}
		}
	}
	recs := map[string][]string{
		"comment":  {"comment", "0123456789012345678901234567890123456789"},
		"metadata": {"uid", "7", "gname", "other", "mtime", "5"},
		"path":     {"path", "d/x", "linkpath", "d"},
		"xattr":    {"SCHILY.xattr.user.g", "v"},
		"empty":    {},
	}
	var keys []string
	for k := range recs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	names := []string{"pax_global_header", "/tmp/GlobalHead.1.1", "../x", "x", "d", "d/.wh.x", ".wh.d", "d/.wh..wh..opq"}
	t.Section("global-headers", bounds("%d stacks x PAX global headers in every set of up to two places x %d names x %d sets of records", len(shapes), len(names), len(recs)))
	for _, s := range shapes {
		gaps := 0
		for _, l := range s.stack {
			gaps += len(l) + 1
		}
		for a := 0; a < gaps; a++ {
			for b := a; b < gaps; b++ {
				for ni, name := range names {
					for ki, key := range keys {
						if b != a && ni != 0 && ki != 0 {
							continue
						}
						if !t.Mine() {
							continue
						}
						s, a, b, name, key := s, a, b, name, key
						t.Run(func() string {
							return bounds("%s: global headers %q with %s in places %d and %d", s.name, name, key, a, b)
						}, func(c *mc.C) {
							var bs, plain []*built
							first := 0
							for k, l := range s.stack {
								go1 := func(i int, e *ltar.Ent) []byte { return encodeGo(e) }
								bs = append(bs, dialectBuild(l, k, go1, func(i int) []byte {
									if first+i == a || first+i == b {
										return global(name, recs[key]...)
									}
									return nil
								}))
								plain = append(plain, dialectBuild(l, k, go1, noGlobal))
								first += len(l) + 1
							}
							fn(c, s, bs, plain)
						})
					}
				}
			}
		}
	}
}

// eachMarker runs a check on stacks whose whiteouts are not empty regular files: it is the name that counts.
func eachMarker(t *mc.T, fn func(c *mc.C, s shape, stack []*built)) {
	kinds := []struct {
		name string
		mk   func(e *ltar.Ent)
	}{
		{"a symlink", func(e *ltar.Ent) { e.Hdr.Typeflag, e.Hdr.Linkname = tar.TypeSymlink, "x" }},
		{"a link to nothing", func(e *ltar.Ent) { e.Hdr.Typeflag, e.Hdr.Linkname = tar.TypeLink, ".wh..wh.aufs" }},
		{"a directory", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeDir; e.Hdr.Name += "/" }},
		{"a device", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeChar }},
		{"a pipe", func(e *ltar.Ent) { e.Hdr.Typeflag = tar.TypeFifo }},
		{"not empty", func(e *ltar.Ent) { e.Body = []byte("content") }},
		{"with an attribute", func(e *ltar.Ent) { e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.k": "v"} }},
		{"with mode 0", func(e *ltar.Ent) { e.Hdr.Mode = 0 }},
		{"of time 0", func(e *ltar.Ent) { e.Hdr.ModTime = time.Unix(0, 0) }},
	}
	low := wordShapes()[0].low
	shapes := append(wordShapes(),
		shape{"opaque after additions", []layerSpec{{f("d/x"), f("d/y")}, {f("d/z"), f("d/y"), f("d/.wh..wh..opq")}}, low},
		shape{"removed after it was added", []layerSpec{{f("x"), f("d/x")}, {f("x"), f(".wh.x"), f("d/x"), f("d/.wh.x")}}, low},
		shape{"a directory removed after additions", []layerSpec{{f("d/x"), f("e/x")}, {f("d/y"), d("e"), f("e/y"), f(".wh.d"), f(".wh.e")}}, low},
		shape{"only below, after additions", []layerSpec{{f("d/y"), f("d/.wh.x"), f("e/y"), f("e/.wh..wh..opq")}}, low},
	)
	t.Section("markers", bounds("%d stacks x each set of layers x whiteouts that are %d kinds of files", len(shapes), len(kinds)))
	for _, s := range shapes {
		for _, k := range kinds {
			for mask := 1; mask < 1<<uint(len(s.stack)); mask++ {
				if !t.Mine() {
					continue
				}
				s, k, mask := s, k, mask
				t.Run(func() string { return bounds("%s: whiteouts of layers %b are %s", s.name, mask, k.name) }, func(c *mc.C) {
					var bs []*built
					for i, l := range s.stack {
						i, l := i, l
						bs = append(bs, dialectBuild(l, i, func(j int, e *ltar.Ent) []byte {
							if mask&(1<<uint(i)) != 0 && ltar.IsWhiteout(l[j].name) {
								k.mk(e)
							}
							return encodeGo(e)
						}, noGlobal))
					}
					fn(c, s, bs)
				})
			}
		}
	}
}

func squashesAlike(c *mc.C, a, b []*built) {
	raws := func(bs []*built) (ret [][]byte) {
		for _, b := range bs {
			ret = append(ret, b.raw)
		}
		return ret
	}
	x, err1 := doSquash(raws(a)...)
	y, err2 := doSquash(raws(b)...)
	c.Transitions(2)
	if (err1 == nil) != (err2 == nil) {
		c.Failf("squashing says %v; without what is not a file it says %v", err1, err2)
		return
	}
	if !bytes.Equal(x, y) {
		ex, _ := ltar.Decode(x)
		ey, _ := ltar.Decode(y)
		c.Failf("the output depends on what is not a file: %s; without it %s", ltar.Describe(ex), ltar.Describe(ey))
	}
}
