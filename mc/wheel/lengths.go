package main

import (
	"fmt"
	"strings"

	"github.com/datawire/ocibuild/verifmc/mc"
)

var lengthDirs = []string{"pkg/python/pypa/bdist", "pkg/python/pypa/recording_installs", "pkg/python/pypa/entry_points", "pkg/python/pep376", "pkg/python", "pkg/fsutil", "cmd_layer_wheel.go"}

// lengthValues are the numbers of members, lines, levels and characters to try: around powers of two,
// and around each number in the code.
func lengthValues(t *mc.T, max int64) []int {
	base := []int64{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 126, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 100000}
	var ret []int
	for _, v := range t.Sizes(1, max, base, lengthDirs...) {
		if v <= max {
			ret = append(ret, int(v))
		}
	}
	return ret
}

func nfiles(n int, name func(i int) string) []mem {
	var ms []mem
	for i := 0; i < n; i++ {
		ms = append(ms, file(name(i), fmt.Sprintf("content %d", i)))
	}
	return ms
}

func c08lengths(t *mc.T) {
	vals := lengthValues(t, 1100)
	t.Section("lengths", fmt.Sprintf("wheels of %d numbers of members up to 1100: the first, a middle, or the last altered, unrecorded, missing, or recorded twice", len(vals)))
	for _, n := range vals {
		for _, at := range []int{0, n / 2, n - 1} {
			for _, what := range []string{"good", "altered", "unrecorded", "missing", "wrong size", "longer"} {
				n, at, what := n, at, what
				if n < 3 && at > 0 {
					continue
				}
				t.Case(func() string { return fmt.Sprintf("%d members, %d %s", n, at, what) }, func(c *mc.C) {
					ms := nfiles(n, func(i int) string { return fmt.Sprintf("p/f%05d.txt", i) })
					good := append(append([]mem(nil), ms...), file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta("true")))
					rows := records(good, "sha256")
					bad := append([]mem(nil), good...)
					switch what {
					case "altered":
						bad[at].data = "Content" + bad[at].data[7:]
					case "longer":
						bad[at].data += "x"
					case "unrecorded":
						rows = append(append([]row(nil), rows[:at]...), rows[at+1:]...)
					case "missing":
						bad = append(append([]mem(nil), good[:at]...), good[at+1:]...)
					case "wrong size":
						rows[at].size += "0"
					}
					bad = append(bad, file(info+"/RECORD", recordText(rows)))
					decide(c, bad, rows, plats[0], options{}, false)
					c.Outcome(fmt.Sprint(what, n))
				})
			}
		}
	}
	names := lengthValues(t, 70000)
	t.Section("long", fmt.Sprintf("members whose names and files whose contents have %d lengths up to 65000, altered", len(names)))
	for _, n := range names {
		if n > 65000 {
			continue
		}
		for _, what := range []string{"good", "altered", "unrecorded"} {
			for _, deep := range []bool{false, true} {
				n, what, deep := n, what, deep
				t.Case(func() string { return fmt.Sprintf("name of %d bytes (deep=%v) %s", n, deep, what) }, func(c *mc.C) {
					name := strings.Repeat("n", n)
					if deep {
						name = strings.Repeat("d/", n/2) + "n"
						if n > 1100 {
							c.Trivial()
							return
						}
					}
					good := []mem{file(name, "content"), file("after", "x"), file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta("true"))}
					rows := records(good, "sha256")
					bad := append([]mem(nil), good...)
					switch what {
					case "altered":
						bad[0].data = "Content"
					case "unrecorded":
						rows = rows[1:]
					}
					bad = append(bad, file(info+"/RECORD", recordText(rows)))
					decide(c, bad, rows, plats[0], options{}, false)
				})
			}
		}
	}
}

func c09lengths(t *mc.T) {
	run := func(what string, n int, ms func() []mem) {
		t.Case(func() string { return fmt.Sprintf("%s: %d", what, n) }, func(c *mc.C) {
			w := full(ms(), []string{"true", "false"}[n%2])
			decide(c, w, records(w, "sha256"), plats[n%len(plats)], options{compile: true}, true)
		})
	}
	counts := lengthValues(t, 1100)
	t.Section("lengths", fmt.Sprintf("wheels of %d numbers of members, levels up to 1100", len(counts)))
	for _, n := range counts {
		n := n
		for _, cat := range []string{"", data + "/purelib/", data + "/platlib/", data + "/headers/", data + "/scripts/", data + "/data/"} {
			cat := cat
			run("members of "+cat, n, func() []mem { return nfiles(n, func(i int) string { return fmt.Sprintf("%sf%05d", cat, i) }) })
		}
		run("modules", n, func() []mem { return nfiles(n, func(i int) string { return fmt.Sprintf("p%05d/m.py", i) }) })
		run("scripts", n, func() []mem {
			var ms []mem
			for i := 0; i < n; i++ {
				ms = append(ms, exe(fmt.Sprintf("%s/scripts/s%05d", data, i), fmt.Sprintf("#!python\n# %d\n", i)))
			}
			return ms
		})
		run("levels", n, func() []mem {
			return []mem{file(strings.Repeat("d/", n)+"m.py", "x"), file(data+"/data/"+strings.Repeat("d/", n)+"m", "x")}
		})
		run("directories", n, func() []mem {
			var ms []mem
			for i := 0; i < n; i++ {
				ms = append(ms, dirm(fmt.Sprintf("d%05d/e", i)))
			}
			return ms
		})
	}
	lens := lengthValues(t, 140000)
	t.Section("long", fmt.Sprintf("names, contents, script lines, metadata of %d lengths", len(lens)))
	for _, n := range lens {
		n := n
		if n < 60000 {
			run("name", n, func() []mem {
				return []mem{file("p/"+strings.Repeat("n", n), "x"), file(data+"/scripts/"+strings.Repeat("s", n), "#!python\n")}
			})
		}
		run("script argument", n, func() []mem { return []mem{exe(data+"/scripts/s", "#!python "+strings.Repeat("a", n)+"\nbody\n")} })
		run("script without a line end", n, func() []mem { return []mem{exe(data+"/scripts/s", "#!pythonw "+strings.Repeat("a", n))} })
		run("script body", n, func() []mem { return []mem{exe(data+"/scripts/s", "#!python\n"+strings.Repeat("b", n))} })
		run("script that is none", n, func() []mem { return []mem{exe(data+"/scripts/s", strings.Repeat("#", n)+"!python\n")} })
		run("deflated script", n, func() []mem {
			m := exe(data+"/scripts/s", "#!python\n"+strings.Repeat("b", n))
			m.deflate = true
			return []mem{m, file("p/after", "x")}
		})
		run("content", n, func() []mem {
			return []mem{file("p/a.py", strings.Repeat("c", n)), file("p/b", strings.Repeat("\x00", n))}
		})
		for _, line := range []string{"X-Long: " + strings.Repeat("v", n) + "\n", strings.Repeat("X-More: v\n", n/10+1), "X-Fold: a\n" + strings.Repeat("  fold\n", n/7+1)} {
			for _, first := range []bool{false, true} {
				line, first := line, first
				t.Case(func() string { return fmt.Sprintf("WHEEL with %.10q.. of %d, first=%v", line, len(line), first) }, func(c *mc.C) {
					text := wheelMeta("true") + line
					if first {
						text = line + wheelMeta("true")
					}
					w := withRecord([]mem{file("p/a.py", "x"), file(info+"/METADATA", metadataText), file(info+"/WHEEL", text)})
					decide(c, w, records(w, "sha256"), plats[1], options{compile: true}, true)
				})
			}
		}
	}
}

func c10lengths(t *mc.T, ep mem) {
	counts := lengthValues(t, 1100)
	t.Section("lengths", fmt.Sprintf("wheels of %d numbers of members and entry points up to 1100, and lengths of names", len(counts)))
	run := func(what string, n int, ms func() []mem) {
		t.Case(func() string { return fmt.Sprintf("%s: %d", what, n) }, func(c *mc.C) {
			checkRecord(c, full(ms(), []string{"true", "false"}[n%2]), []string{"true", "false"}[n%2], plats[n%len(plats)], c10opts{hash: "sha256", installer: "i", compile: n%3 == 0})
		})
	}
	for _, n := range counts {
		n := n
		run("members", n, func() []mem { return append(nfiles(n, func(i int) string { return fmt.Sprintf("p/f%05d", i) }), ep) })
		run("modules", n, func() []mem {
			return append(nfiles(n, func(i int) string { return fmt.Sprintf("p%d/f%05d.py", i%7, i) }), ep)
		})
		run("data", n, func() []mem {
			return append(nfiles(n, func(i int) string { return fmt.Sprintf("%s/data/f%05d", data, i) }), ep)
		})
		run("name", n, func() []mem {
			return []mem{file("p/"+strings.Repeat("n", n), "x"), file("p/"+strings.Repeat("\"", n), "x"), ep}
		})
		run("levels", n, func() []mem { return []mem{file(strings.Repeat("d/", n)+"m.py", "x"), ep} })
	}
}

func c11lengths(t *mc.T) {
	counts := lengthValues(t, 1100)
	t.Section("lengths", fmt.Sprintf("names with %d numbers of levels up and down, up to 1100", len(counts)))
	for _, n := range counts {
		for k, name := range []string{
			strings.Repeat("../", n) + "x", strings.Repeat("a/", n) + strings.Repeat("../", n+1) + "x", strings.Repeat("a/../", n) + "../x", strings.Repeat("a/../", n) + "x",
			strings.Repeat("./", n) + "../x", strings.Repeat("/", n) + "x", strings.Repeat("a", n) + "/../../x", strings.Repeat("a/", n) + "x", strings.Repeat("/../", n) + "x",
			data + "/scripts/" + strings.Repeat("../", n) + "x", data + "/data/" + strings.Repeat("a/", n) + strings.Repeat("../", n) + "../x",
			strings.Repeat("a/", n) + strings.Repeat("../", n) + "x", info + "/" + strings.Repeat("../", n) + "x",
		} {
			n, k, name := n, k, name
			t.Case(func() string { return fmt.Sprintf("name %d with %d", k, n) }, func(c *mc.C) {
				contained(c, file(name, "evil"), plats[n%len(plats)], "true", name)
			})
		}
	}
}

func c12lengths(t *mc.T) {
	counts := lengthValues(t, int64(t.Pick(260, 1100)))
	t.Section("lengths", fmt.Sprintf("%d numbers of entries, sections, comments; lengths of names, modules, attributes, extras up to %d", len(counts), counts[len(counts)-1]))
	sec := "console_scripts"
	for _, n := range counts {
		rep := func(s string, n int) string { return strings.TrimSuffix(strings.Repeat(s+".", n), ".") }
		var many, mixed []entry
		for i := 0; i < n; i++ {
			many = append(many, entry{sec, fmt.Sprintf("s%04d", i), []string{"m:f", "pkg.sub:C.g", "_m1:main"}[i%3]})
			mixed = append(mixed, entry{[]string{sec, "gui_scripts", fmt.Sprintf("other%d", i)}[i%3], fmt.Sprintf("s%04d", i), "m:f"})
		}
		for k, es := range [][]entry{
			many, mixed, {{sec, strings.Repeat("k", n), "m:f"}}, {{sec, "a", rep("mm", n) + ":f"}}, {{sec, "a", "m:" + rep("cc", n)}},
			{{sec, "a", strings.Repeat("m", n) + ":f"}}, {{sec, "a", "m:" + strings.Repeat("f", n)}}, {{sec, "a", "m:f [" + strings.Repeat("x,", n) + "y]"}},
			{{sec, "a", "m:f" + strings.Repeat(" ", n) + "[x]"}}, append(append([]entry{}, many...), entry{sec, "bad", "m:"}), append([]entry{{sec, "bad", "m"}}, many...),
		} {
			n, k, es := n, k, es
			if k == 2 && n > 240 {
				continue
			}
			t.Case(func() string { return fmt.Sprintf("%d of kind %d", n, k) }, func(c *mc.C) {
				text := render(es, n%4)
				if n%2 == 0 {
					text = strings.Repeat("# comment\n", n) + text
				}
				c12case(c, text, es, n%len(plats))
			})
		}
	}
}
