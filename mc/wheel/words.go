package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/datawire/ocibuild/verifmc/mc"
)

// memberWords can be names of members.
func memberWords(t *mc.T) []string {
	var ret []string
	for _, w := range t.Words(lengthDirs...) {
		if strings.ContainsAny(w, "\n\r\\:") || strings.HasSuffix(w, ".dist-info") || strings.HasSuffix(w, ".data") {
			continue
		}
		ret = append(ret, w)
	}
	return ret
}

func c08words(t *mc.T) {
	words := memberWords(t)
	t.Section("words", fmt.Sprintf("members whose names have one of %d words (the code's own strings, with a character more or less), altered, unrecorded, missing", len(words)))
	for _, w := range words {
		for place, name := range []string{w, "p/" + w, w + "/x", info + "/" + w, info + "/sub/" + w, data + "/data/" + w, data + "/scripts/" + w} {
			switch name {
			case info + "/RECORD", info + "/WHEEL", info + "/METADATA":
				continue
			}
			for _, what := range []string{"good", "altered", "unrecorded", "missing", "no hash"} {
				w, name, place, what := w, name, place, what
				t.Case(func() string { return fmt.Sprintf("%q in place %d, %s", w, place, what) }, func(c *mc.C) {
					good := []mem{file(name, "content"), file("after", "x"), file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta("true"))}
					rows := records(good, "sha256")
					bad := append([]mem(nil), good...)
					switch what {
					case "altered":
						bad[0].data = "Content"
					case "unrecorded":
						rows = rows[1:]
					case "missing":
						bad = bad[1:]
					case "no hash":
						rows[0].hash, rows[0].size = "", ""
					}
					bad = append(bad, file(info+"/RECORD", recordText(rows)))
					decide(c, bad, rows, plats[place%len(plats)], options{}, false)
				})
			}
		}
	}
}

// c08blanks: names that are easily taken for other names when reading RECORD.
func c08blanks(t *mc.T) {
	edges := []string{" ", "\t", "\u00a0", "\ufeff", "#", ";", "'", "\"", ",", "\"\"", "=", "%", "%20", "+", "~", "$", "*", "\u2028", "\u3000", "\v", "\f", "\x7f"}
	t.Section("blanks", fmt.Sprintf("members whose names begin or end with one of %d characters, good, altered, unrecorded, missing, recorded without it, with and without quotes", len(edges)))
	for _, e := range edges {
		for place, name := range []string{e + "m.py", "m.py" + e, "p/" + e + "m.py", e + "p/m.py", "p" + e + "/m.py", "m" + e + "m.py", e, e + e} {
			plain := strings.ReplaceAll(name, e, "")
			for _, what := range []string{"good", "altered", "unrecorded", "missing", "other", "both", "both, swapped"} {
				for _, quoted := range []bool{false, true} {
					name, what, quoted, place := name, what, quoted, place
					t.Case(func() string { return fmt.Sprintf("%q %s, quoted %v", name, what, quoted) }, func(c *mc.C) {
						if plain == "" && what != "good" && what != "altered" && what != "unrecorded" && what != "missing" {
							c.Trivial()
							return
						}
						good := []mem{file(name, "content"), file("after", "x"), file(info+"/METADATA", metadataText), file(info+"/WHEEL", wheelMeta("true"))}
						if what == "both" || what == "both, swapped" {
							good = append(good, file(plain, "other"))
						}
						rows := records(good, "sha256")
						bad := append([]mem(nil), good...)
						switch what {
						case "altered":
							bad[0].data = "Content"
						case "unrecorded":
							for i := range rows {
								if rows[i].name == name {
									rows = append(rows[:i:i], rows[i+1:]...)
									break
								}
							}
						case "missing":
							bad = bad[1:]
						case "other":
							bad[0].name = plain
						case "both, swapped":
							bad[0].data, bad[len(bad)-1].data = bad[len(bad)-1].data, bad[0].data
						}
						text := recordText(rows)
						if quoted {
							text = ""
							for _, r := range rows {
								q := func(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }
								text += q(r.name) + "," + q(r.hash) + "," + q(r.size) + "\n"
							}
						}
						bad = append(bad, file(info+"/RECORD", text))
						decide(c, bad, rows, plats[place%len(plats)], options{}, false)
					})
				}
			}
		}
	}
}

func c10words(t *mc.T, ep mem) {
	words := memberWords(t)
	t.Section("words", fmt.Sprintf("members whose names have one of %d words", len(words)))
	for k, w := range words {
		k, w := k, w
		t.Case(func() string { return fmt.Sprintf("%q", w) }, func(c *mc.C) {
			ms := []mem{file("p/"+w, "x"), file("q/"+w+"/m.py", "y"), file(data+"/data/"+w, "z"), file(data+"/scripts/s-"+w, "#!python\n"), ep}
			switch w {
			case "RECORD", "RECORD.jws", "RECORD.p7s", "WHEEL", "METADATA", "entry_points.txt", "INSTALLER", "REQUESTED", "direct_url.json":
			default:
				ms = append(ms, file(info+"/"+w, "i"))
			}
			pure := []string{"true", "false"}[k%2]
			checkRecord(c, full(ms, pure), pure, plats[k%len(plats)], c10opts{hash: "sha256", installer: "i", compile: k%3 == 0})
		})
	}
}

var nameWord = regexp.MustCompile(`^[A-Za-z0-9_][A-Za-z0-9_.-]*$`)
var moduleWord = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

func c12words(t *mc.T) {
	words := t.Words(append([]string{"pkg/python/configparser.go"}, lengthDirs...)...)
	t.Section("words", fmt.Sprintf("%d words as names of scripts, modules, attributes, groups", len(words)))
	sec := "console_scripts"
	for k, w := range words {
		var all [][]entry
		if nameWord.MatchString(w) {
			all = append(all, []entry{{sec, w, "m:f"}}, []entry{{"gui_scripts", w, "m:f"}, {sec, "b", "m:g"}})
			if w != "gui_scripts" && w != "console_scripts" && w != "DEFAULT" { // whose entries are those of every group
				all = append(all, []entry{{w, "a", "m:f"}, {sec, "b", "m:g"}}, []entry{{sec, "a", "m:f"}, {w, "b", "not an object"}})
			}
		}
		if moduleWord.MatchString(w) && !pyKeyword[w] {
			all = append(all, []entry{{sec, "a", w + ":f"}}, []entry{{sec, "a", "m." + w + ":C." + w}}, []entry{{sec, "a", "m:f [" + w + "]"}}, []entry{{sec, "a", "m:" + w + ".g"}})
		}
		for j, es := range all {
			k, j, w, es := k, j, w, es
			t.Case(func() string { return fmt.Sprintf("%q of kind %d", w, j) }, func(c *mc.C) { c12case(c, render(es, k%4), es, k%len(plats)) })
		}
	}
}

var pyKeyword = map[string]bool{}

func init() {
	for _, k := range strings.Fields("False None True and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield") {
		pyKeyword[k] = true
	}
}
