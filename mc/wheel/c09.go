package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c09 = mc.Suite{
	ID:    "C09",
	Level: "model_checking",
	Rule: "all wheels made of up to 2 (3) members of an alphabet covering every data category, member type, mode-bit pattern, " +
		"interpreter line and name shape, x Root-Is-Purelib x install schemes x time options x member order; every entry of the " +
		"layer made by the real InstallWheel is compared with a reference installation; non-trivial: the reference defines the result",
	Assumptions: []string{
		"the byte compiler is a stand-in that hashes its input",
		"not specified: '#!python' followed by something other than whitespace or the end, a shipped file at the path of a compiled one, Root-Is-Purelib values that differ from true in case, times of directories (only bounded by the clamp)",
	},
	Body: runC09,
}

var big = strings.Repeat("0123456789abcdef", 8192)

var scriptBodies = []string{
	"#!python\nprint(1)\n", "#!pythonw\nprint(2)\n", "#!python", "#!pythonw", "#!python\r\nx", "#!python -u -x\nbody", "#!pythonw -i\n", "#!python\tx\n",
	"#!pytho", "#!", "", "#", "#! python\n", "#!/usr/bin/python\nx", "#!/usr/bin/env python\n", "x#!python\n", "\n#!python\n", "#!PYTHON\n", "#!Python\n",
	"\x7fELF\x00\x01", "#!python\n#!python\n", "#!python\n" + big, "#!pythonw " + big, big, "\xef\xbb\xbf#!python\n", "#!python\n\x00\xff\xfe",
}

func memberAlphabet() []mem {
	ms := []mem{
		file("p/__init__.py", "import os\n"),
		file("p/a.txt", "text"),
		file("p/sub/mod.py", "x = 1\n"),
		file("top.py", "y = 2\n"),
		exe("p/tool", "#!python\nnot a script\n"),
		file("p-q/r", "dash"),
		file("p.q/r", "dot"),
		file("p", "file in place of a directory"),
		dirm("p"),
		dirm("empty/dir"),
		dirm("odd.py"),
		file("odd.py/x", "in odd"),
		file("./dot/./x", "unclean"),
		file("up/../p/u", "up"),
		file("p//double", "double"),
		file("Ünï, \"q\" ☃.txt", "unicode"),
		file("p/\xff\xfe.bin", "not utf-8"),
		file("p/"+strings.Repeat("long", 30)+"/"+strings.Repeat("n", 120), "long"),
		file("p/big", big),
		{name: "p/deflated", data: big, attrs: ifreg | 0o644<<16, creator: 3, deflate: true},
		file(data+"/purelib/p/a.txt", "collides in purelib"),
		file(data+"/purelib/pure/x.py", "pure"),
		file(data+"/platlib/plat/x.so", "plat"),
		file(data+"/headers/h.h", "int x;"),
		file(data+"/headers/sub/h.h", "int y;"),
		file(data+"/data/share/doc", "doc"),
		file(data+"/data/bin/tool", "#!python\nvia data\n"),
		file(data+"/data/etc/conf", "conf"),
		exe(data+"/scripts/tool", "#!python\nvia scripts\n"),
		file(data+"/scripts/sub/tool.py", "#!python\nscript in a directory\n"),
		file(data+"/purelib/"+data+"/scripts/nested", "#!python\nnot spread twice\n"),
		file(data+"/platlib/"+data+"/data", "nested"),
		file(data+"/other/x", "unknown category"),
		file(data+"/Scripts/x", "category in wrong case"),
		file(data+"/scripts", "file in place of a category"),
		file(data+"/loose", "file outside of any category"),
		file(data, "file in place of the data directory"),
		dirm(data), dirm(data + "/scripts"), dirm(data + "/headers/d"), dirm(data + "/include"), dirm(data + "/data"), dirm(data + "/purelib/p"),
		file("y-1.0.data/scripts/x", "other distribution's data"),
		file("p/x-1.0.data/scripts/x", "deeper data"),
		file("y.dist-info/x", "second dist-info"),
		file("p/y.dist-info/x", "deeper dist-info"),
		file(info+"/LICENSE", "license"),
		file(info+"/licenses/a", "a"),
		dirm(info),
		file(info+"/RECORD.jws", "sig"),
		file(info+"/sub/RECORD", "not the record"),
		file(data+"/data/lib/python3.9/site-packages/top.py", "collides through data"),
		file("p/__pycache__/shipped.cpython-39.pyc", "pyc"),
		file("__pycache__/top.cpython-39.pyc", "pyc of top"),
	}
	for _, typ := range []uint32{0, 1, 2, 4, 6, 8, 10, 12, 15} {
		perms := []uint32{0, 0o100, 0o644, 0o4755}
		if typ == 8 {
			perms = append(perms, 0o010, 0o001, 0o200, 0o400, 0o7000, 0o666, 0o611)
		}
		for _, perm := range perms {
			ms = append(ms, mem{name: fmt.Sprintf("m/t%d-%o", typ, perm), data: "modes", attrs: (typ<<12 | perm) << 16, creator: 3})
		}
	}
	ms = append(ms,
		mem{name: "m/fat", data: "x", attrs: 0x20, creator: 0},
		mem{name: "m/fatdir", data: "x", attrs: 0x10, creator: 0},
		mem{name: "m/fatunix", data: "x", attrs: ifreg | 0o755<<16, creator: 0},
		mem{name: "m/win", data: "x", attrs: 0x21, creator: 10},
		mem{name: data + "/scripts/fat", data: "#!python\n", attrs: 0x20, creator: 0},
		mem{name: data + "/scripts/ro", data: "#!pythonw\n", attrs: ifreg | 0o444<<16, creator: 3},
		mem{name: "d-ro/", attrs: ifdir | 0o500<<16, creator: 3},
		mem{name: "d-nomode/", attrs: 0, creator: 0},
		mem{name: "tm/old", data: "x", attrs: ifreg | 0o644<<16, creator: 3, t: time.Date(1980, 1, 1, 0, 0, 0, 0, time.UTC)},
		mem{name: "tm/new", data: "x", attrs: ifreg | 0o644<<16, creator: 3, t: time.Date(2037, 1, 1, 12, 13, 15, 0, time.UTC)},
		mem{name: data + "/scripts/new", data: "#!python\n", attrs: ifreg | 0o644<<16, creator: 3, t: time.Date(2031, 1, 1, 12, 13, 15, 0, time.UTC)},
		mem{name: "tm/d/", attrs: ifdir | 0o755<<16, creator: 3, t: time.Date(2033, 1, 1, 0, 0, 0, 0, time.UTC)},
	)
	return ms
}

// literalMembers makes members out of the string literals of the code under test.
func literalMembers(t *mc.T) []mem {
	_, strs := t.Literals("pkg/python/pypa/bdist", "pkg/python/pypa/recording_installs", "pkg/python/pep376", "pkg/fsutil")
	var ms []mem
	for _, s := range strs {
		if s == "" || len(s) > 40 || strings.ContainsAny(s, " \n%:") || strings.Contains(s, "..") || strings.HasPrefix(s, "/") || strings.HasSuffix(s, ".dist-info") {
			continue
		}
		s = strings.TrimSuffix(s, "/")
		if s == "" || s == "." {
			continue
		}
		ms = append(ms, file(s, "L"), file("p/"+s, "L"), file("p/x"+s, "L"), file(data+"/data/"+s, "L"), file(data+"/scripts/"+s, "#!python\nL"))
		switch s {
		case "RECORD", "RECORD.jws", "RECORD.p7s", "WHEEL", "METADATA", "entry_points.txt", "INSTALLER", "REQUESTED", "direct_url.json":
		default:
			ms = append(ms, file(info+"/"+s, "L"))
		}
	}
	return ms
}

type opt struct {
	name string
	o    options
}

func timeOpts() []opt {
	return []opt{
		{"times kept", options{compile: true}},
		{"clamped", options{compile: true, maxTime: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}},
		{"min", options{compile: true, minTime: time.Date(2019, 1, 2, 3, 4, 5, 0, time.UTC)}},
		{"min+clamp", options{compile: true, minTime: time.Date(2022, 1, 2, 3, 4, 5, 0, time.UTC), maxTime: time.Date(2021, 6, 1, 0, 0, 0, 0, time.UTC)}},
	}
}

func runC09(t *mc.T) {
	alpha := memberAlphabet()
	opts := timeOpts()
	run := func(ms []mem, purelib string, pi int, o opt, order int) {
		if !t.Mine() {
			return
		}
		t.Run(func() string {
			return fmt.Sprintf("purelib=%s scheme=%d %s order=%d: %s", purelib, pi, o.name, order, memString(ms))
		}, func(c *mc.C) {
			w := full(ms, purelib)
			if order == 1 {
				for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
					w[i], w[j] = w[j], w[i]
				}
			}
			decide(c, w, records(w[:], "sha256"), plats[pi], o.o, true)
		})
	}
	t.Section("one", fmt.Sprintf("each of %d members x 2 x %d schemes x %d time options x 2 orders", len(alpha), len(plats), len(opts)))
	run(nil, "true", 0, opts[0], 0)
	for _, m := range append(append([]mem(nil), alpha...), literalMembers(t)...) {
		for _, pl := range []string{"true", "false"} {
			for pi := range plats {
				for _, o := range opts {
					for order := 0; order < 2; order++ {
						run([]mem{m}, pl, pi, o, order)
					}
				}
			}
		}
	}
	t.Section("two", fmt.Sprintf("all pairs of %d members x 2 x %d schemes", len(alpha), len(plats)))
	for i := range alpha {
		for j := i + 1; j < len(alpha); j++ {
			for _, pl := range []string{"true", "false"} {
				for pi := range plats {
					run([]mem{alpha[i], alpha[j]}, pl, pi, opts[(i+j)%2], (i+j+pi)%2)
				}
			}
		}
	}
	t.Section("scripts", fmt.Sprintf("%d script bodies x 5 categories x 4 mode patterns x %d schemes x stored/deflated", len(scriptBodies), len(plats)))
	for _, body := range scriptBodies {
		for _, where := range []string{data + "/scripts/s", data + "/scripts/s.py", data + "/scripts/d/s", data + "/data/bin/s", data + "/purelib/s", data + "/headers/s", "s.py"} {
			for _, attrs := range []uint32{ifreg | 0o644<<16, ifreg | 0o755<<16, 0, 0x20} {
				for pi := range plats {
					for _, defl := range []bool{false, true} {
						run([]mem{{name: where, data: body, attrs: attrs, creator: 3, deflate: defl}}, "true", pi, opts[0], 0)
					}
				}
			}
		}
	}
	c09wheelfile(t)
	c09schemes(t)
	c09lengths(t)
	c09containers(t, alpha)
	c09command(t, alpha)
	if t.Thorough() {
		t.Section("three", fmt.Sprintf("all triples of %d members x 2 x scheme", len(alpha)))
		for i := range alpha {
			for j := i + 1; j < len(alpha); j++ {
				for k := j + 1; k < len(alpha); k++ {
					for _, pl := range []string{"true", "false"} {
						run([]mem{alpha[i], alpha[j], alpha[k]}, pl, (i+j+k)%4, opts[(i+j+k)%4], (i+j)%2)
					}
				}
			}
		}
	}
}

// c09wheelfile: the metadata file decides about format version and library directory.
func c09wheelfile(t *mc.T) {
	versions := []string{"1.0", "1.9", "1.10", "0.9", "2.0", "2.1", "10.0", "1", "2", "", "x", "1.0.dev", "11", "01.0", "1.0 ", "-1"}
	eols := []string{"\n", "\r\n"}
	tails := []string{"", "\n", "\n\n"}
	libs := []string{"true", "false", "-", "t", "tru", "truee", "xtrue", "yes", "1", "0", "no", "", "not true", "true; x", "true false", "'true'", "pure"}
	t.Section("wheelfile", fmt.Sprintf("WHEEL: %d format versions x %d Root-Is-Purelib x key case x order x line ends x trailing lines", len(versions), len(libs)))
	for _, v := range versions {
		for _, l := range libs {
			for _, eol := range eols {
				for _, tail := range tails {
					for order := 0; order < 2; order++ {
						for _, lower := range []bool{false, true} {
							v, l, eol, tail, order, lower := v, l, eol, tail, order, lower
							lines := []string{"Wheel-Version: " + v, "Generator: x", "Root-Is-Purelib: " + l, "Tag: py2-none-any", "Tag: py3-none-any", "Build: 1"}
							if l == "-" {
								lines = append(lines[:2], lines[3:]...)
							}
							if order == 1 {
								for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
									lines[i], lines[j] = lines[j], lines[i]
								}
							}
							text := strings.Join(lines, eol) + strings.ReplaceAll(tail, "\n", eol)
							if lower {
								text = strings.ReplaceAll(strings.ReplaceAll(text, "Root-Is-Purelib", "root-is-purelib"), "Wheel-Version", "WHEEL-VERSION")
							}
							t.Case(func() string { return fmt.Sprintf("%q", text) }, func(c *mc.C) {
								ms := withRecord([]mem{file("p/a.py", "x"), file(info+"/METADATA", metadataText), file(info+"/WHEEL", text)})
								rows := records(ms, "sha256")
								plat := plats[0]
								major, bad := -1, false
								switch v {
								case "1.0", "1.9", "1.10", "1", "01.0", "1.0.dev", "1.0 ":
									major = 1
								case "0.9":
									major = 0
								case "2.0", "2.1", "2":
									major = 2
								case "10.0", "11":
									major = 10
								default:
									bad = true
								}
								if bad || major > 1 {
									if _, err := installReal(zipBytes(ms), plat, options{}, nil, nil); err == nil {
										c.Failf("installed a wheel of format version %q", v)
									}
									c.Outcome("reject")
									return
								}
								// the reference looks at the text with the canonical version
								want, err := install(withRecord([]mem{ms[0], ms[1], file(info+"/WHEEL", "Wheel-Version: 1.0\nRoot-Is-Purelib: "+map[bool]string{true: "true", false: "false"}[l == "true"]+"\n")}), plat, options{})
								if err != nil {
									panic(err)
								}
								_ = rows
								for _, e := range want {
									if strings.HasPrefix(e.data, "Wheel-Version") {
										e.data = text
									}
								}
								_ = parents(want)
								got, err := installReal(zipBytes(ms), plat, options{}, nil, nil)
								if err != nil {
									c.Failf("refused: %v", err)
									return
								}
								compare(c, want, got, plat, clampOf(ms, options{}), true)
								c.Outcome("accept " + l)
							})
						}
					}
				}
			}
		}
	}
	t.Section("nometa", "wheels without .dist-info, WHEEL, RECORD, or with two .dist-info directories")
	rec := func(ms ...mem) []mem { return withRecord(ms) }
	meta, wh := file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta("true"))
	cases := map[string][]mem{
		"1 no WHEEL":          rec(file("p/a.py", "x"), meta),
		"2 no RECORD":         {file("p/a.py", "x"), meta, wh},
		"3 nothing":           {},
		"4 no dist-info":      {file("p/a.py", "x")},
		"5 second dist-info":  rec(file("p/a.py", "x"), meta, wh, file("y-2.dist-info/METADATA", "x")),
		"6 empty second":      rec(file("p/a.py", "x"), meta, wh, dirm("y-2.dist-info")),
		"7 empty WHEEL":       rec(file("p/a.py", "x"), meta, file(info+"/WHEEL", "")),
		"8 WHEEL no version":  rec(file("p/a.py", "x"), meta, file(info+"/WHEEL", "Root-Is-Purelib: true\n")),
		"9 dist-info is file": {file("z.dist-info", "x")},
	}
	for i := 1; i <= len(cases); i++ {
		for name, ms := range cases {
			if !strings.HasPrefix(name, fmt.Sprint(i)) {
				continue
			}
			name, ms := name, ms
			t.Case(func() string { return name }, func(c *mc.C) {
				if _, err := installReal(zipBytes(ms), plats[0], options{}, nil, nil); err == nil {
					c.Failf("installed a wheel with %s", name)
				}
				c.Outcome(name)
			})
		}
	}
}

// c09schemes: every assignment of a few directories to the five scheme entries.
func c09schemes(t *mc.T) {
	dirs := []string{"/a", "/a/b", "/", "/c//d/"}
	ms := full([]mem{
		file("r.py", "r"), file(data+"/purelib/u", "u"), file(data+"/platlib/l", "l"), file(data+"/headers/h", "h"),
		file(data+"/scripts/s", "#!python\n"), file(data+"/data/d", "d"), dirm(data + "/data"), dirm(data + "/scripts"), dirm("."),
	}, "true")
	ms2 := full(ms[:9], "false")
	t.Section("schemes", fmt.Sprintf("all %d^5 install schemes over %v x Root-Is-Purelib", len(dirs), dirs))
	n := len(dirs)
	for i := 0; i < n*n*n*n*n; i++ {
		for pure := 0; pure < 2; pure++ {
			if !t.Mine() {
				continue
			}
			pick := func(k int) string {
				v := i
				for ; k > 0; k-- {
					v /= n
				}
				return dirs[v%n]
			}
			plat := plats[0]
			plat.Scheme = python.Scheme{PureLib: pick(0), PlatLib: pick(1), Headers: pick(2), Scripts: pick(3), Data: pick(4)}
			w := ms
			if pure == 1 {
				w = ms2
			}
			t.Run(func() string { return fmt.Sprintf("%+v purelib=%v", plat.Scheme, pure == 0) }, func(c *mc.C) {
				decide(c, w, records(w, "sha256"), plat, options{compile: true}, true)
			})
		}
	}
	t.Section("badschemes", "relative or missing scheme directories and shebangs are refused")
	for i := 0; i < 7; i++ {
		i := i
		t.Case(func() string { return fmt.Sprint(i) }, func(c *mc.C) {
			plat := plats[0]
			switch i {
			case 0:
				plat.Scheme.PureLib = "usr/lib"
			case 1:
				plat.Scheme.PlatLib = ""
			case 2:
				plat.Scheme.Headers = "./x"
			case 3:
				plat.Scheme.Scripts = "../bin"
			case 4:
				plat.Scheme.Data = "data"
			case 5:
				plat.ConsoleShebang, plat.GraphicalShebang = "", ""
			case 6:
				plat.Scheme = python.Scheme{}
			}
			if _, err := installReal(zipBytes(ms), plat, options{}, nil, nil); err == nil {
				c.Failf("installed in to %+v", plat.Scheme)
			}
			c.Outcome("reject")
		})
	}
}
