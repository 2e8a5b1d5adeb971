package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/datawire/ocibuild/verifmc/mc"
)

var c08 = mc.Suite{
	ID:    "C08",
	Level: "model_checking",
	Rule: "every tampering operator at every member and RECORD line of the base wheels, all pairs of them, every single-bit " +
		"flip and truncation of the archive, and every member name/mode-bit combination; the real InstallWheel is compared " +
		"with a reference verdict; non-trivial: the reference defines one (identical duplicates, unclean or repeated RECORD names and " +
		"a RECORD that describes itself or its signatures are not specified)",
	Assumptions: []string{"the byte compiler is replaced by a stand-in that produces nothing", "zip central directory order is the archive order"},
	Body:        runC08,
}

// draft is a wheel under construction: members with RECORD last, and the RECORD's lines.
type draft struct {
	ms    []mem
	rows  []row
	raw   []string // additional raw RECORD lines (malformed)
	fatal string   // set if RECORD is malformed in a way that must be rejected
}

func (d draft) clone() draft {
	return draft{append([]mem(nil), d.ms...), append([]row(nil), d.rows...), append([]string(nil), d.raw...), d.fatal}
}

func (d draft) finish() []mem {
	ms := append([]mem(nil), d.ms...)
	for i := range ms {
		if ms[i].name == info+"/RECORD" && ms[i].data == "" {
			ms[i].data = recordText(d.rows)
			for _, r := range d.raw {
				ms[i].data += r + "\n"
			}
		}
	}
	return ms
}

type tamper struct {
	name string
	f    func(d *draft)
}

func baseDraft(kind int) draft {
	ms := []mem{
		file("p/__init__.py", "import os\n"),
		file("p/a, \"b\".txt", "text"),
		exe(data+"/scripts/run", "#!python\nprint(1)\n"),
		file("p/empty", ""),
		file(info+"/METADATA", metadataText),
		file(info+"/WHEEL", wheelMeta("true")),
		file(info+"/entry_points.txt", "[console_scripts]\na = m:f\n"),
	}
	switch kind {
	case 1: // directories, signatures, mixed hashes, RECORD in the middle
		ms = append([]mem{dirm("p"), dirm(info), dirm(data), dirm(data + "/scripts")}, ms...)
		ms = append(ms, file(info+"/RECORD.jws", "{}"), file(info+"/RECORD.p7s", "sig"))
	}
	d := draft{ms: ms, rows: records(ms, "sha256")}
	if kind == 1 {
		algos := []string{"sha384", "sha512", "sha256"}
		for i := range d.rows {
			for _, m := range ms {
				if m.name == d.rows[i].name {
					d.rows[i] = rowFor(m, algos[i%3])
				}
			}
		}
		sort.Slice(d.rows, func(i, j int) bool { return d.rows[i].name < d.rows[j].name })
	}
	rec := file(info+"/RECORD", "")
	if kind == 1 {
		d.ms = append(d.ms[:5], append([]mem{rec}, d.ms[5:]...)...)
	} else {
		d.ms = append(d.ms, rec)
	}
	return d
}

func (d *draft) memIdx(name string) int {
	for i, m := range d.ms {
		if m.name == name {
			return i
		}
	}
	return -1
}

func (d *draft) rowIdx(name string) int {
	for i, r := range d.rows {
		if r.name == name {
			return i
		}
	}
	return -1
}

// memberTampers lists the ways to tamper with one file.
func memberTampers(target mem) []tamper {
	n := target.name
	onMem := func(f func(m *mem)) func(d *draft) {
		return func(d *draft) {
			if i := d.memIdx(n); i >= 0 {
				f(&d.ms[i])
			}
		}
	}
	onRow := func(f func(r *row)) func(d *draft) {
		return func(d *draft) {
			if i := d.rowIdx(n); i >= 0 {
				f(&d.rows[i])
			}
		}
	}
	var ts []tamper
	add := func(name string, f func(d *draft)) { ts = append(ts, tamper{n + ":" + name, f}) }
	flips := []int{0, len(target.data) / 2, len(target.data) - 1}
	for _, p := range flips {
		p := p
		if p >= 0 && p < len(target.data) {
			add(fmt.Sprintf("flip%d", p), onMem(func(m *mem) {
				bs := []byte(m.data)
				if p < len(bs) {
					bs[p] ^= 1
				}
				m.data = string(bs)
			}))
		}
	}
	add("append", onMem(func(m *mem) { m.data += "x" }))
	add("appendNL", onMem(func(m *mem) { m.data += "\n" }))
	add("truncate", onMem(func(m *mem) {
		if m.data != "" {
			m.data = m.data[:len(m.data)-1]
		}
	}))
	add("empty", onMem(func(m *mem) { m.data = "" }))
	add("crlf", onMem(func(m *mem) { m.data = strings.ReplaceAll(m.data, "\n", "\r\n") }))
	add("remove", func(d *draft) {
		if i := d.memIdx(n); i >= 0 {
			d.ms = append(d.ms[:i], d.ms[i+1:]...)
		}
	})
	add("becomes-dir", onMem(func(m *mem) { m.name += "/" }))
	add("rename", onMem(func(m *mem) { m.name += "2" }))
	add("case", onMem(func(m *mem) { m.name = strings.ToUpper(m.name) }))
	add("dup-after", func(d *draft) { d.ms = append(d.ms, file(n, "evil")) })
	add("dup-before", func(d *draft) { d.ms = append([]mem{file(n, "evil")}, d.ms...) })
	add("dup-dot", func(d *draft) { d.ms = append(d.ms, file("./"+n, "evil")) })
	add("dup-dotdot", func(d *draft) { d.ms = append(d.ms, file("q/../"+n, "evil")) })
	add("dup-dotdot-before", func(d *draft) { d.ms = append([]mem{file("q/../"+n, "evil")}, d.ms...) })
	add("dup-slash", func(d *draft) { d.ms = append(d.ms, file(strings.Replace(n, "/", "//", 1), "evil")) })
	add("dup-asdir", func(d *draft) {
		d.ms = append(d.ms, mem{name: n, data: "evil", attrs: ifdir | 0o755<<16 | 0x10, creator: 3})
	})
	add("dup-asdir-before", func(d *draft) {
		d.ms = append([]mem{{name: n, data: "evil", attrs: ifdir | 0o755<<16 | 0x10, creator: 3}}, d.ms...)
	})
	add("dir-too", func(d *draft) { d.ms = append(d.ms, dirm(n)) })
	// RECORD
	add("row-drop", func(d *draft) {
		if i := d.rowIdx(n); i >= 0 {
			d.rows = append(d.rows[:i], d.rows[i+1:]...)
		}
	})
	add("row-nohash", onRow(func(r *row) { r.hash = "" }))
	add("row-nosize", onRow(func(r *row) { r.size = "" }))
	add("row-nohash-nosize", onRow(func(r *row) { r.hash, r.size = "", "" }))
	for _, algo := range []string{"md5", "sha1", "sha224"} {
		algo := algo
		add("row-"+algo, onRow(func(r *row) { r.hash = algo + "=" + digest(algo, target.data) }))
	}
	for _, algo := range []string{"sha256", "sha384", "sha512"} {
		algo := algo
		add("row-ok-"+algo, onRow(func(r *row) { r.hash = algo + "=" + digest(algo, target.data) }))
		add("row-other-"+algo, onRow(func(r *row) { r.hash = algo + "=" + digest(algo, "other") }))
		add("row-short-"+algo, onRow(func(r *row) { r.hash = algo + "=" + digest(algo, target.data)[:20] }))
		add("row-nodigest-"+algo, onRow(func(r *row) { r.hash = algo + "=" }))
		add("row-wrongalgo-"+algo, onRow(func(r *row) { r.hash = algo + "=" + digest("md5", target.data) }))
	}
	add("row-unknown", onRow(func(r *row) { r.hash = "foo=" + digest("sha256", target.data) }))
	add("row-bare", onRow(func(r *row) { r.hash = digest("sha256", target.data) }))
	add("row-algo-only", onRow(func(r *row) { r.hash = "sha256" }))
	add("row-eq", onRow(func(r *row) { r.hash = "=" }))
	add("row-eq-digest", onRow(func(r *row) { r.hash = "=" + digest("sha256", target.data) }))
	add("row-hash-extra", onRow(func(r *row) { r.hash += "A" }))
	add("row-hash-case", onRow(func(r *row) {
		i := strings.Index(r.hash, "=") + 1
		r.hash = r.hash[:i] + strings.ToLower(r.hash[i:])
	}))
	add("row-size+1", onRow(func(r *row) { r.size = fmt.Sprint(len(target.data) + 1) }))
	add("row-size-1", onRow(func(r *row) { r.size = fmt.Sprint(len(target.data) - 1) }))
	add("row-size0", onRow(func(r *row) { r.size = "0" }))
	add("row-sizex", onRow(func(r *row) { r.size = "x" }))
	add("row-sizebig", onRow(func(r *row) { r.size = fmt.Sprintf("%d", uint64(len(target.data))+1<<32) }))
	add("row-size-digit", onRow(func(r *row) { r.size += "0" }))
	add("row-rename", onRow(func(r *row) { r.name += "x" }))
	add("row-backslash", onRow(func(r *row) { r.name = strings.ReplaceAll(r.name, "/", "\\") }))
	add("row-up", onRow(func(r *row) { r.name = "../" + r.name }))
	raw := func(text string) func(d *draft) {
		return func(d *draft) {
			if i := d.rowIdx(n); i >= 0 {
				d.raw = append(d.raw, text)
				d.rows = append(d.rows[:i], d.rows[i+1:]...)
				d.fatal = "malformed RECORD line " + text
			}
		}
	}
	good := rowFor(target, "sha256")
	add("row-2cols", raw(csvField(good.name)+","+good.hash))
	add("row-1col", raw(csvField(good.name)))
	add("row-4cols", raw(good.String()+","))
	add("row-bad-quote", raw("\""+strings.ReplaceAll(good.name, "\"", "")+","+good.hash+","+good.size))
	add("row-dup-bad", func(d *draft) {
		if i := d.rowIdx(n); i >= 0 {
			d.raw = append(d.raw, row{n, "sha256=" + digest("sha256", "other"), good.size}.String())
			d.fatal = "second RECORD line with another hash"
		}
	})
	add("row-dup-bad-first", func(d *draft) {
		if i := d.rowIdx(n); i >= 0 {
			r := d.rows[i]
			d.rows[i] = row{n, "sha256=" + digest("sha256", "other"), good.size}
			d.raw = append(d.raw, r.String())
			d.fatal = "first RECORD line with another hash"
		}
	})
	return ts
}

func extraTampers() []tamper {
	var ts []tamper
	names := []string{
		"evil.py", "p/evil.py", info + "/evil", info + "/RECORD.jws2", info + "/RECORD.JWS", info + "/record", info + "/INSTALLER",
		info + "/REQUESTED", info + "/direct_url.json", info + "/RECORD.p7m", info + "/sub/RECORD", info + "/sub/RECORD.jws", "RECORD", "RECORD.jws", "p/RECORD.p7s",
		info + "/RECORD~", data + "/scripts/evil", data + "/data/evil", data + "/purelib/evil.py", data + "/purelib/" + info + "/RECORD.jws",
		"p/.hidden", "p/evil.pyc", "p/__pycache__/evil.cpython-39.pyc", "__MACOSX/x", ".DS_Store", "x.dist-info2/a",
	}
	for _, n := range names {
		n := n
		ts = append(ts, tamper{"extra " + n, func(d *draft) { d.ms = append(d.ms, file(n, "evil")) }})
		ts = append(ts, tamper{"extra-first " + n, func(d *draft) { d.ms = append([]mem{file(n, "evil")}, d.ms...) }})
	}
	ts = append(ts,
		tamper{"extra empty", func(d *draft) { d.ms = append(d.ms, file("evil", "")) }},
		tamper{"row for absent file", func(d *draft) { d.rows = append(d.rows, rowFor(file("absent", "x"), "sha256")) }},
		tamper{"row for absent file first", func(d *draft) { d.rows = append([]row{rowFor(file("absent", "x"), "sha256")}, d.rows...) }},
		tamper{"row for absent empty file", func(d *draft) { d.rows = append(d.rows, rowFor(file("absent", ""), "sha256")) }},
		tamper{"row for absent, no hash", func(d *draft) { d.rows = append(d.rows, row{"absent", "", ""}) }},
		tamper{"row for absent .pyc, no hash", func(d *draft) { d.rows = append(d.rows, row{"p/absent.pyc", "", ""}) }},
		tamper{"row for a directory", func(d *draft) {
			d.ms = append(d.ms, dirm("dd"))
			d.rows = append(d.rows, rowFor(mem{name: "dd"}, "sha256"))
		}},
		tamper{"pyc without hash", func(d *draft) {
			d.ms = append(d.ms, file("p/z.pyc", "evil"))
			d.rows = append(d.rows, row{"p/z.pyc", "", ""})
		}},
		tamper{"second dist-info", func(d *draft) {
			m := file("y-1.0.dist-info/RECORD", "")
			m.data = "evil"
			d.ms = append(d.ms, m)
		}},
		tamper{"RECORD dup", func(d *draft) { d.ms = append(d.ms, file(info+"/RECORD", "evil")) }},
		tamper{"RECORD dup first", func(d *draft) { d.ms = append([]mem{file(info+"/RECORD", "evil")}, d.ms...) }},
		tamper{"RECORD removed", func(d *draft) {
			if i := d.memIdx(info + "/RECORD"); i >= 0 {
				d.ms = append(d.ms[:i], d.ms[i+1:]...)
			}
		}},
		tamper{"RECORD line garbage", func(d *draft) { d.raw = append(d.raw, "garbage"); d.fatal = "garbage" }},
		tamper{"RECORD bare quote", func(d *draft) { d.raw = append(d.raw, `a"b,c,d`); d.fatal = "bare quote" }},
		tamper{"RECORD open quote", func(d *draft) { d.raw = append(d.raw, `"abc`); d.fatal = "open quote" }},
		tamper{"RECORD empty name", func(d *draft) { d.raw = append(d.raw, `,sha256=x,1`); d.fatal = "empty name" }},
		tamper{"RECORD three commas", func(d *draft) { d.raw = append(d.raw, `,,,`); d.fatal = "four columns" }},
		tamper{"dot file", func(d *draft) { d.ms = append(d.ms, file(".", "evil")) }},
		tamper{"abs file", func(d *draft) { d.ms = append(d.ms, file("/etc/evil", "evil")) }},
		tamper{"up file", func(d *draft) { d.ms = append(d.ms, file("../evil", "evil")) }},
		// harmless
		tamper{"dir entry", func(d *draft) { d.ms = append(d.ms, dirm("newdir")) }},
		tamper{"dir entry twice", func(d *draft) { d.ms = append(d.ms, dirm("newdir"), dirm("newdir")) }},
		tamper{"signature", func(d *draft) {
			if d.memIdx(info+"/RECORD.jws") < 0 {
				d.ms = append(d.ms, file(info+"/RECORD.jws", "sig"))
			}
		}},
	)
	return ts
}

func runDraft(c *mc.C, d draft) {
	ms := d.finish()
	plat := plats[0]
	for _, m := range ms {
		if m.name == info+"/RECORD" && m.data == "evil" {
			d.fatal = "RECORD is garbage or a duplicate"
		}
	}
	if d.fatal != "" {
		_, err := installReal(zipBytes(ms), plat, options{}, nil, nil)
		c.Transitions(1)
		if err == nil {
			c.Failf("installed, although: %s", d.fatal)
		} else if strings.HasPrefix(err.Error(), "(and a layer)") {
			c.Failf("failed, but returned a layer too")
		}
		c.Outcome("reject:" + d.fatal)
		return
	}
	// a RECORD that is not the generated one (duplicates, removed) is the duplicate-member case
	decide(c, ms, d.rows, plat, options{}, false)
}

func runC08(t *mc.T) {
	c08containers(t)
	for kind := 0; kind < 2; kind++ {
		base := baseDraft(kind)
		var all []tamper
		for _, m := range base.ms {
			if m.isDir() || strings.HasPrefix(m.name, info+"/RECORD") {
				continue
			}
			all = append(all, memberTampers(m)...)
		}
		all = append(all, extraTampers()...)
		t.Section(fmt.Sprintf("single%d", kind), fmt.Sprintf("base wheel %d and each of %d tamperings", kind, len(all)))
		t.Case(func() string { return "untampered" }, func(c *mc.C) {
			runDraft(c, base.clone())
		})
		for _, tm := range all {
			tm := tm
			t.Case(func() string { return tm.name }, func(c *mc.C) {
				d := base.clone()
				tm.f(&d)
				runDraft(c, d)
			})
		}
		t.Section(fmt.Sprintf("pairs%d", kind), fmt.Sprintf("base wheel %d and all ordered pairs of %d tamperings", kind, len(all)))
		for i, a := range all {
			for j, b := range all {
				if i == j {
					continue
				}
				if !t.Thorough() && (kind == 1 || j < i) {
					continue
				}
				if !t.Mine() {
					continue
				}
				a, b := a, b
				t.Run(func() string { return a.name + " + " + b.name }, func(c *mc.C) {
					d := base.clone()
					a.f(&d)
					b.f(&d)
					runDraft(c, d)
				})
			}
		}
	}
	c08modes(t)
	c08names(t)
	c08bits(t)
	c08big(t)
	c08lengths(t)
	c08words(t)
	c08blanks(t)
}

// c08modes: unrecorded or altered members under every kind of mode bits.
func c08modes(t *mc.T) {
	t.Section("modes", "unrecorded/altered/correct member x 16 unix types x 5 permission sets x MS-DOS bits x 6 creators x 3 places")
	perms := []uint32{0, 0o644, 0o755, 0o777, 0o7777}
	for _, creator := range []uint16{0, 3, 7, 10, 11, 14, 19, 255} {
		for typ := uint32(0); typ < 16; typ++ {
			for _, perm := range perms {
				for _, dos := range []uint32{0, 0x10, 0x01, 0x20, 0xff} {
					for kind := 0; kind < 3; kind++ {
						for pos := 0; pos < 2; pos++ {
							if !t.Mine() {
								continue
							}
							creator, typ, perm, dos, kind, pos := creator, typ, perm, dos, kind, pos
							t.Run(func() string {
								return fmt.Sprintf("creator=%d type=%#o perm=%#o dos=%#x kind=%d pos=%d", creator, typ, perm, dos, kind, pos)
							}, func(c *mc.C) {
								d := baseDraft(0)
								m := mem{name: "p/m", data: "evil", creator: creator, attrs: (typ<<12|perm)<<16 | dos}
								if pos == 0 {
									d.ms = append([]mem{m}, d.ms...)
								} else {
									d.ms = append(d.ms, m)
								}
								switch kind {
								case 0: // unrecorded
								case 1:
									d.rows = append(d.rows, rowFor(file("p/m", "good"), "sha256"))
								case 2:
									d.rows = append(d.rows, rowFor(m, "sha256"))
								}
								runDraft(c, d)
							})
						}
					}
				}
			}
		}
	}
}

// c08names: unrecorded members under every name built from a few components.
func c08names(t *mc.T) {
	comps := []string{"a", "p", "..", ".", "", info, data, "RECORD", "RECORD.jws", "scripts", "purelib"}
	depth := t.Pick(4, 5)
	t.Section("names", fmt.Sprintf("unrecorded member under every name of up to %d of %d components", depth, len(comps)))
	var rec func(parts []string)
	rec = func(parts []string) {
		if len(parts) > 0 {
			name := strings.Join(parts, "/")
			if name != "" && t.Mine() {
				t.Run(func() string { return name }, func(c *mc.C) {
					d := baseDraft(0)
					m := file(name, "evil")
					d.ms = append(d.ms, m)
					runDraft(c, d)
				})
			}
		}
		if len(parts) == depth {
			return
		}
		for _, s := range comps {
			rec(append(parts[:len(parts):len(parts)], s))
		}
	}
	rec(nil)
}

// c08bits: every single-bit flip and every truncation of the archive.
func c08bits(t *mc.T) {
	small := []mem{file("p/a.py", "import os\n"), {name: "p/b", data: strings.Repeat("abcdefgh", 20), attrs: ifreg | 0o644<<16, creator: 3, deflate: true}}
	ms := full(small, "true")
	bs := zipBytes(ms)
	rows := records(ms, "sha256")
	_ = rows
	want, err := install(ms, plats[0], options{})
	if err != nil {
		panic(err)
	}
	check := func(c *mc.C, mod []byte) {
		got, err := installReal(mod, plats[0], options{}, nil, nil)
		c.Transitions(1)
		if err != nil {
			c.Outcome("refused")
			return
		}
		n := 0
		for _, e := range got {
			if e.Hdr.Typeflag == '5' {
				continue
			}
			n++
			name := strings.TrimSuffix(e.Hdr.Name, "/")
			w := want[name]
			if w == nil {
				// WHEEL may legitimately not change, so the library directory cannot
				c.Failf("installed a file that is not in the wheel: %q", e.Hdr.Name)
			} else if string(e.Body) != w.data {
				c.Failf("installed %q with altered content %q", e.Hdr.Name, clip(string(e.Body)))
			}
		}
		if n != len(want) {
			c.Failf("installed %d files instead of %d", n, len(want))
		}
		c.Outcome("accepted unaltered")
	}
	t.Section("bitflips", fmt.Sprintf("all %d single-bit flips of a wheel archive", len(bs)*8))
	for i := 0; i < len(bs)*8; i++ {
		if !t.Mine() {
			continue
		}
		i := i
		t.Run(func() string { return fmt.Sprintf("bit %d", i) }, func(c *mc.C) {
			mod := append([]byte(nil), bs...)
			mod[i/8] ^= 1 << uint(i%8)
			check(c, mod)
		})
	}
	t.Section("truncations", fmt.Sprintf("all %d truncations of a wheel archive, and each with a byte removed", len(bs)))
	for i := 0; i < len(bs); i++ {
		i := i
		t.Case(func() string { return fmt.Sprintf("first %d bytes", i) }, func(c *mc.C) { check(c, bs[:i]) })
		t.Case(func() string { return fmt.Sprintf("without byte %d", i) }, func(c *mc.C) {
			check(c, append(append([]byte(nil), bs[:i]...), bs[i+1:]...))
		})
	}
}

// c08big: content around buffer sizes, altered at each buffer boundary.
func c08big(t *mc.T) {
	var sizes []int
	for _, n := range t.Sizes(1, 1<<20, []int64{1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 131072, 1 << 20}, lengthDirs...) {
		sizes = append(sizes, int(n))
	}
	t.Section("big", fmt.Sprintf("files of %v bytes, stored and deflated, altered at the start, end and at each power of two", sizes))
	for _, n := range sizes {
		for _, defl := range []bool{false, true} {
			offs := []int{-1, 0, n - 1, n, n + 1}
			for p := 1; p < n; p *= 2 {
				offs = append(offs, p-1, p)
			}
			for _, off := range offs {
				n, defl, off := n, defl, off
				t.Case(func() string { return fmt.Sprintf("%d bytes, deflate=%v, altered at %d", n, defl, off) }, func(c *mc.C) {
					content := strings.Repeat("0123456789abcde\n", n/16+1)[:n]
					good := mem{name: "p/big", data: content, attrs: ifreg | 0o644<<16, creator: 3, deflate: defl}
					d := baseDraft(0)
					bad := good
					switch {
					case off < 0:
					case off < n:
						bs := []byte(content)
						bs[off] ^= 0x20
						bad.data = string(bs)
					case off == n:
						bad.data = content[:n-1]
					default:
						bad.data = content + "x"
					}
					d.ms = append(d.ms, bad)
					d.rows = append(d.rows, rowFor(good, "sha256"))
					runDraft(c, d)
				})
			}
		}
	}
}
