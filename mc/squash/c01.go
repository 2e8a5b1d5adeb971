package main

import (
	"archive/tar"
	"fmt"
	"strings"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c01 = mc.Suite{
	ID:    "C01",
	Level: "model_checking",
	Rule: "all histories (stacks of layers) over an alphabet of files, directories, symlinks, devices, explicit and opaque " +
		"whiteouts; each is squashed by the real code, and the output unpacked by the reference model over each lower " +
		"filesystem and compared with the reference application of the layers in order; non-trivial: the reference defines a result",
	Assumptions: []string{
		"reference unpacker: a layer's whiteouts act on lower layers only, intermediate symlinks are followed inside the root, metadata of directories that no entry describes is not compared",
		"lower filesystems contain directories and regular files only",
		"excluded: a whiteout below a path that is a non-directory (unpackers fail on it)",
	},
	Body: runC01,
}

func runC01(t *mc.T) {
	lows := lowers()
	ex := func(name string, sets [][]layerSpec, b string) {
		t.Section(name, b)
		histories(t, sets, func(stack []layerSpec) {
			if !t.Mine() {
				return
			}
			st := append([]layerSpec(nil), stack...)
			t.Run(func() string { return stackString(st) }, func(c *mc.C) {
				equivalence(c, lows, buildStack(st), false)
			})
		})
	}
	one := single(alphabet)
	ex("depth1", rep(one, 1), bounds("all 1-layer stacks, %d single-entry layers", len(one)))
	two := pairs(alphabet)
	ex("pair1", rep(two, 1), bounds("all 1-layer stacks of ordered entry pairs (%d)", len(two)))
	ex("depth3", rep(one, 3), bounds("all 3-layer stacks of %d single-entry layers", len(one)))
	ex("pair+single", [][]layerSpec{two, one}, bounds("%d two-entry layers x %d", len(two), len(one)))
	ex("single+pair", [][]layerSpec{one, two}, bounds("%d x %d two-entry layers", len(one), len(two)))
	cs := single(core)
	ex("core4", rep(cs, 4), bounds("all 4-layer stacks of %d core layers", len(cs)))
	dots := single([]elem{s("l", "q/r"), s("m", "l/../x"), s("m", "./l//../x/"), s("m", "/l/../../x"), s("l", "m/../q"), s("l", ".."), s("l", "/"), s("l", "."), s("q/r", "../x"),
		d("q/r"), d("q"), d("x"), d("q/x"), f("m/a"), f("l/a"), f("l"), f("q/x/a"), f(".wh.l"), f("m/.wh.a"), f("m/.wh..wh..opq")})
	ex("dotdot", rep(dots, t.Pick(3, 4)), bounds("all %d-layer stacks of %d layers with symlinks that lead through .. and other symlinks", t.Pick(3, 4), len(dots)))
	types := single([]elem{f("d"), d("d"), s("d", "e"), {tar.TypeFifo, "d", ""}, {tar.TypeChar, "d", ""}, {tar.TypeBlock, "d", ""},
		f("d/x"), d("d/x"), {tar.TypeFifo, "d/x", ""}, f(".wh.d"), f("d/.wh.x"), f("d/.wh..wh..opq")})
	ex("types", rep(types, t.Pick(4, 5)), bounds("all %d-layer stacks of %d layers that change types", t.Pick(4, 5), len(types)))
	c01meta(t, lows)
	eachLevel(t, func(c *mc.C, s shape, bs []*built) { equivalence(c, lengthLow(s.low), bs, false) })
	eachWord(t, wordShapes(), build, func(c *mc.C, s shape, bs []*built) { equivalence(c, lengthLow(s.low), bs, false) })
	eachMarker(t, func(c *mc.C, s shape, bs []*built) { equivalence(c, lengthLow(s.low), bs, false) })
	eachDialect(t, func(c *mc.C, s shape, bs, _ []*built) { equivalence(c, lengthLow(s.low), bs, true) })
	eachLength(t, 1100, func(c *mc.C, s shape, bs []*built) { equivalence(c, lengthLow(s.low), bs, false) })
	if t.Thorough() {
		ex("core5", rep(cs, 5), bounds("all 5-layer stacks of %d core layers", len(cs)))
		cp := pairs(core)
		ex("corepairs", [][]layerSpec{cp, cp}, bounds("all 2-layer stacks of %d two-entry core layers", len(cp)))
		ex("core+pair+core", [][]layerSpec{cs, cp, cs}, "core single, core pair, core single")
		ex("pair+core2", [][]layerSpec{cp, cs, cs}, "core pair, core single, core single")
		ex("depth4", rep(one, 4), bounds("all 4-layer stacks of %d single-entry layers", len(one)))
	}
}

// c01meta: one entry with every metadata/name/size variant, alone, below and above ordinary layers.
func c01meta(t *mc.T, lows []*ltar.FS) {
	t.Section("metadata", "each metadata, name and content-size variant of one entry, alone / overwritten / overwriting / moved through a symlink (each format also to three long names)")
	type variant struct {
		name string
		mk   func(h *tar.Header, body *[]byte)
	}
	long := func(n int, sep int) string {
		var sb strings.Builder
		for sb.Len() < n {
			if sep > 0 && sb.Len()%sep == sep-1 {
				sb.WriteByte('/')
			} else {
				sb.WriteByte(byte('a' + sb.Len()%26))
			}
		}
		return strings.TrimRight(sb.String(), "/")
	}
	var vs, pairs []variant
	add := func(name string, mk func(h *tar.Header, body *[]byte)) { vs = append(vs, variant{name, mk}) }
	add("plain", func(h *tar.Header, body *[]byte) {})
	for _, n := range t.Sizes(0, 70000, []int64{0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537}, "pkg/squash", "pkg/fsutil") {
		n := n
		add(fmt.Sprintf("size%d", n), func(h *tar.Header, body *[]byte) {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*7 + i>>8)
			}
			*body = b
		})
	}
	for _, m := range []int64{0, 0o111, 0o400, 0o644, 0o755, 0o777, 0o1777, 0o2755, 0o4755, 0o7777} {
		m := m
		add(fmt.Sprintf("mode%o", m), func(h *tar.Header, body *[]byte) { h.Mode = m })
	}
	for _, u := range []int{0, 1, 65534, 1 << 21, 1<<31 - 1} {
		u := u
		add(fmt.Sprintf("uid%d", u), func(h *tar.Header, body *[]byte) { h.Uid = u })
		add(fmt.Sprintf("gid%d", u), func(h *tar.Header, body *[]byte) { h.Gid = u })
	}
	for _, tm := range []time.Time{time.Unix(0, 0), time.Unix(1, 0), time.Unix(1234567890, 123456789), time.Unix(-5, 0), time.Unix(1<<33+5, 0)} {
		tm := tm
		add(fmt.Sprintf("mtime%d", tm.UnixNano()), func(h *tar.Header, body *[]byte) { h.ModTime = tm; h.Format = tar.FormatPAX })
		add(fmt.Sprintf("atime%d", tm.UnixNano()), func(h *tar.Header, body *[]byte) {
			h.AccessTime = tm
			h.ChangeTime = tm.Add(time.Second)
			h.Format = tar.FormatPAX
		})
	}
	for _, nm := range []string{"", "root", "üser", strings.Repeat("n", 31), strings.Repeat("n", 32), strings.Repeat("n", 40), "a b"} {
		nm := nm
		add("uname "+nm, func(h *tar.Header, body *[]byte) { h.Uname = nm })
		add("gname "+nm, func(h *tar.Header, body *[]byte) { h.Gname = nm })
	}
	for _, kv := range [][2]string{{"SCHILY.xattr.user.a", "v"}, {"SCHILY.xattr.security.capability", "\x01\x00\x00\x02\xff"}, {"VENDOR.thing", "x y"}, {"LIBARCHIVE.creationtime", "1.5"}, {"comment", "hi"}} {
		kv := kv
		add("pax "+kv[0], func(h *tar.Header, body *[]byte) { h.PAXRecords = map[string]string{kv[0]: kv[1]} })
	}
	for _, ft := range []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU} {
		ft := ft
		add("format "+ft.String(), func(h *tar.Header, body *[]byte) { h.Format = ft; h.PAXRecords = nil })
	}
	_, strs := t.Literals("pkg/squash")
	names := []string{"a b", "a\nb", "ünï", "-dash", "a%", "a\\b", "..x", "...", ".x", "x.", "x..", ".whx", ".wh", "wh.x", "a.wh.b", " ", "a:b", "~", "*",
		long(99, 0), long(100, 0), long(101, 0), long(255, 0), long(300, 0), long(100, 50), long(101, 50), long(155, 50), long(256, 50), long(257, 50), long(400, 60), long(1200, 60)}
	for _, st := range strs {
		if st == "" || strings.Contains(st, "/") || strings.HasPrefix(st, ".wh.") || st == "." || st == ".." || strings.Contains(st, "\x00") {
			continue
		}
		names = append(names, st)
	}
	for _, nm := range names {
		nm := nm
		add("name "+nm, func(h *tar.Header, body *[]byte) { h.Name = "d/" + nm })
	}
	singles := len(vs)
	for i := 0; i < singles; i++ {
		for j := 0; j < singles; j++ {
			a, b := vs[i], vs[j]
			skip := func(n string) bool {
				return strings.HasPrefix(n, "size") || strings.HasPrefix(n, "name") || strings.HasPrefix(n, "format") || n == "plain"
			}
			if i == j || skip(a.name) || skip(b.name) {
				continue
			}
			pairs = append(pairs, variant{a.name + " and " + b.name, func(h *tar.Header, body *[]byte) { a.mk(h, body); b.mk(h, body) }})
		}
	}
	types := []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeFifo, tar.TypeChar, tar.TypeBlock}
	for _, ty := range types {
		for vi, v := range append(append([]variant(nil), vs...), pairs...) {
			for shape := 0; shape < 8; shape++ {
				if shape >= 5 && !strings.HasPrefix(v.name, "format") && !(t.Thorough() && strings.HasPrefix(v.name, "name")) {
					continue
				}
				if vi >= singles && (shape%4 != 0 || ty == tar.TypeFifo || ty == tar.TypeBlock) {
					continue
				}
				if !t.Mine() {
					continue
				}
				ty, v, shape := ty, v, shape
				t.Run(func() string { return fmt.Sprintf("type %q variant %q shape %d", ty, v.name, shape) }, func(c *mc.C) {
					hd := tar.Header{Typeflag: ty, Name: "d/v", Mode: 0o600, Uid: 7, Gid: 8, Uname: "u", Gname: "g", ModTime: time.Unix(1600000000, 0)}
					var body []byte
					if ty == tar.TypeReg {
						body = []byte("content")
					}
					v.mk(&hd, &body)
					switch ty {
					case tar.TypeReg:
					case tar.TypeSymlink:
						hd.Linkname = "tgt/" + strings.TrimPrefix(hd.Name, "d/")
						if strings.HasPrefix(v.name, "size") && len(body) > 3000 {
							c.Trivial()
							return
						}
						body = nil
					case tar.TypeChar, tar.TypeBlock:
						hd.Devmajor, hd.Devminor = 5, 259
						body = nil
					default:
						body = nil
					}
					other := hd
					other.Typeflag = tar.TypeReg
					other.Linkname = ""
					other.Devmajor, other.Devminor = 0, 0
					other.Uid = 4242
					other.PAXRecords = nil
					mk := func(es ...ltar.Ent) *built {
						raw, err := ltar.Encode(es)
						if err != nil {
							return nil
						}
						dec, err := ltar.Decode(raw)
						if err != nil {
							return nil
						}
						return &built{dec, raw}
					}
					v1 := mk(ltar.Ent{Hdr: hd, Body: body})
					o1 := mk(ltar.Ent{Hdr: other, Body: []byte("other")})
					x1 := build(layerSpec{f("d/x")}, 3)
					var stack []*built
					switch shape {
					case 0:
						stack = []*built{v1}
					case 1:
						stack = []*built{v1, x1}
					case 2:
						stack = []*built{o1, v1}
					case 3:
						stack = []*built{v1, o1}
					case 4: // through a symlink
						thd := hd
						thd.Name = "l/" + strings.TrimPrefix(hd.Name, "d/")
						sl := build(layerSpec{s("l", "d"), d("d")}, 0)
						stack = []*built{sl, mk(ltar.Ent{Hdr: thd, Body: body})}
					case 5, 6, 7: // through a symlink to a directory with a longer name, which the format may not hold
						target := []string{long(275, 91), long(160, 0), long(240, 80)}[shape-5]
						ldir := build(layerSpec{s("l", target), d(target)}, 0)
						thd, link := hd, hd
						thd.Name = "l/" + strings.TrimPrefix(hd.Name, "d/")
						link.Typeflag, link.Name, link.Linkname = tar.TypeLink, "l/link", thd.Name
						link.Size, link.Devmajor, link.Devminor = 0, 0, 0
						es := []ltar.Ent{{Hdr: thd, Body: body}}
						if ty == tar.TypeReg {
							es = append(es, ltar.Ent{Hdr: link})
						}
						stack = []*built{ldir, mk(es...)}
					}
					for _, b := range stack {
						if b == nil { // not representable as a tar entry
							c.Trivial()
							return
						}
					}
					equivalence(c, lows, stack, false)
				})
			}
		}
	}
}
