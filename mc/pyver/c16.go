package main

import (
	"context"
	"fmt"
	"net/http"
	"strings"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep345"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c16 = mc.Suite{
	ID:    "C16",
	Level: "model_checking",
	Rule: "all (clause, interpreter version) pairs of a product, all conjunctions of up to 2 (3) clauses, all clause texts over operators, spacing and versions, " +
		"and index listings x client interpreters through the real client, against a reference; non-trivial: every case",
	Assumptions: []string{"requirements with local version parts, and empty clauses between commas, are not covered"},
	Body:        runC16,
}

// ref345 decides one clause (operator "" is "==").
func ref345(op string, spec, v rv) bool {
	switch op {
	case "<":
		if refCmp(v, spec) >= 0 {
			return false
		}
		return spec.dev != "" || !refPrefix(spec, v) // a pre-release of the version itself
	case "<=":
		return refCmp(v, spec) <= 0
	case ">":
		return refCmp(v, spec) > 0
	case ">=":
		return refCmp(v, spec) >= 0
	case "!=":
		return !ref345("==", spec, v)
	}
	if spec.dev != "" {
		return publicCmp(spec, v) == 0
	}
	if !refPrefix(spec, v) || v.dev != "" {
		return false
	}
	return (spec.post != "" || v.post == "") && (spec.preL != "" || spec.post != "" && spec.preL == v.preL || v.preL == "")
}

func check345(c *mc.C, req string, ops []string, specs []rv, vers []pair) {
	for _, v := range vers {
		want := true
		for i := range ops {
			want = want && ref345(ops[i], specs[i], v.ref)
		}
		got, err := pep345.HaveRequiredPython(v.real, req)
		if err != nil {
			c.Failf("HaveRequiredPython(%s, %q): %v", v.ref, req, err)
			return
		}
		if got != want {
			c.Failf("HaveRequiredPython(%s, %q) is %v, want %v", v.ref, req, got, want)
			return
		}
	}
	c.Inner(len(vers))
	c.Outcome(req)
}

func runC16(t *mc.T) {
	ops := []string{"", "==", "!=", "<", "<=", ">", ">="}
	rels := []string{"2.7", "3", "3.0", "3.1", "3.1.0", "3.1.5", "3.10", "4"}
	pres := []string{"", "a1", "rc1", "rc2"}
	posts := []string{"", ".post1", ".post2"}
	devs := []string{"", ".dev1", ".dev2"}
	epochs := []string{"", "1!"}
	rels = append(rels, "0", "3.1.0.1", "3.11", "2")
	pres = append(pres, "b1", "a2")
	posts = append(posts, ".post10")
	stexts := product(epochs, rels, pres, posts, devs)
	vtexts := product(epochs, rels, pres, posts, devs, []string{"", "+1"})
	var vers []pair
	t.Section("clauses", fmt.Sprintf("%d operators x %d requirement versions x %d interpreter versions", len(ops), len(stexts), len(vtexts)))
	for _, s := range stexts {
		if t.Stopped() {
			return
		}
		s := s
		t.Case(func() string { return "every operator on " + s }, func(c *mc.C) {
			if vers == nil {
				vers = parseAll(c, vtexts)
			}
			for _, op := range ops {
				// parse once, match all
				spec, err := pep345.ParseVersionSpecifier(op + s)
				if err != nil {
					c.Failf("%q: %v", op+s, err)
					return
				}
				sr := mustRef(s)
				for _, v := range vers {
					if got, want := spec.Match(v.real), ref345(op, sr, v.ref); got != want {
						c.Failf("%q matches %s: %v, want %v", op+s, v.ref, got, want)
						return
					}
				}
				check345(c, op+s, []string{op}, []rv{sr}, vers[:50])
				c.Inner(len(vers))
			}
		})
	}
	small := product([]string{""}, []string{"2.7", "3", "3.1", "3.1.5", "3.2", "4"}, []string{"", "a1"}, []string{"", ".post1"}, []string{"", ".dev1"})
	base := []string{"3", "3.1", "3.1.5", "3.2a1", "3.1.post1", "3.1.dev1"}
	type cl struct{ op, ver string }
	var cls []cl
	for _, b := range base {
		for _, o := range ops {
			cls = append(cls, cl{o, b})
		}
	}
	var sv []pair
	t.Section("conjunctions", "all requirements of 2 (3) clauses over a reduced alphabet x interpreter versions")
	conj := func(list ...cl) {
		t.Case(func() string { return fmt.Sprint(list) }, func(c *mc.C) {
			if sv == nil {
				sv = parseAll(c, small)
			}
			var ts, o []string
			var rs []rv
			for _, x := range list {
				ts = append(ts, x.op+x.ver)
				o = append(o, x.op)
				rs = append(rs, mustRef(x.ver))
			}
			check345(c, strings.Join(ts, ","), o, rs, sv)
		})
	}
	t.Case(func() string { return "the empty requirement" }, func(c *mc.C) { check345(c, "", nil, nil, parseAll(c, small)) })
	for _, a := range cls {
		for _, b := range cls {
			conj(a, b)
			if t.Thorough() {
				for _, d := range cls {
					conj(a, b, d)
				}
			}
		}
	}
	c16Lengths(t)
	t.Section("texts", "operators x spacing x version texts: accepted exactly if valid")
	allops := []string{"", "==", "!=", "<", "<=", ">", ">=", "~=", "===", "=", "=>", "=<", "<>", "!", "~", "<==", ">>", "^"}
	forms := []string{"3", "3.1", "v3.1", "3.1a1", "3.1-alpha-1", "3.1RC", "3.1.post1", "3.1.dev1", "1!3", "", "x", "3.", ".3", "3.*", "3.1.*", "3..1", "*", "3 1", "3x", "py3"}
	for _, op := range allops {
		for _, f := range forms {
			op, f := op, f
			t.Case(func() string { return fmt.Sprintf("operator %q, version %q", op, f) }, func(c *mc.C) {
				tv := parseAll(c, small)
				for _, sp := range [][3]string{{"", "", ""}, {"", " ", ""}, {" ", "", " "}, {"\t", "\t ", "\n"}} {
					txt := sp[0] + op + sp[1] + f + sp[2]
					if strings.TrimSpace(txt) == "" && txt != "" {
						continue
					}
					v, ok := refParse(f)
					valid := ok
					switch op {
					case "", "==", "!=", "<", "<=", ">", ">=":
					default:
						valid = false
					}
					switch {
					case txt == "":
						check345(c, "", nil, nil, tv)
					case valid:
						check345(c, txt, []string{op}, []rv{v}, tv)
					default:
						if got, err := pep345.HaveRequiredPython(tv[0].real, txt); err == nil {
							c.Failf("%q is not a valid requirement, but is accepted (%v)", txt, got)
						}
						if got, err := pep345.HaveRequiredPython(tv[0].real, ">=2,"+txt); err == nil {
							c.Failf("%q is not a valid requirement, but is accepted (%v)", ">=2,"+txt, got)
						}
						c.Outcome(txt)
					}
				}
			})
		}
	}
	t.Section("interpreters", "version_info values: release levels x serials x numbers")
	for _, lv := range []struct{ level, l string }{{"alpha", "a"}, {"beta", "b"}, {"candidate", "rc"}, {"final", ""}, {"gamma", "-"}, {"", "-"}} {
		for _, n := range [][3]int{{3, 9, 0}, {2, 7, 18}, {3, 10, 11}} {
			for serial := 0; serial < 12; serial++ {
				lv, n, serial := lv, n, serial
				t.Case(func() string { return fmt.Sprint(n, lv.level, serial) }, func(c *mc.C) {
					vi := python.VersionInfo{Major: n[0], Minor: n[1], Micro: n[2], ReleaseLevel: lv.level, Serial: serial}
					got, err := vi.PEP440()
					c.Outcome(fmt.Sprint(n, lv.level, serial))
					if lv.l == "-" {
						if err == nil {
							c.Failf("%v is accepted as %s", vi, got)
						}
						return
					}
					want := fmt.Sprintf("%d.%d.%d", n[0], n[1], n[2])
					if lv.l != "" {
						want += fmt.Sprintf("%s%d", lv.l, serial)
					}
					if err != nil || got.String() != want {
						c.Failf("%v is %v, %v; want %s", vi, got, err, want)
					}
				})
			}
		}
	}
	reqs := []string{"-", "", ">=3.6", "<3", ">=2.7, !=3.0.*", ">=2.7,!=3.0", "==3", "3.8", ">3.8,<3.10", "~=3.6", "garbage", "<=3.9", "!=3.9", "<3.9"}
	pys := []string{"-", "2.7.18", "3", "3.0", "3.6.0", "3.8.1", "3.9", "3.9.0rc1", "3.9.1", "3.10.0a1", "3.10"}
	k := t.Pick(2, 3)
	t.Section("listing", fmt.Sprintf("all listings of up to %d files over %d requirements x %d interpreters x 2 clients", k, len(reqs), len(pys)))
	var rec func(list []string)
	rec = func(list []string) {
		if len(list) > 0 {
			lst := append([]string(nil), list...)
			t.Case(func() string { return fmt.Sprintf("files requiring %q", lst) }, func(c *mc.C) { listing345(c, lst, pys) })
		}
		if len(list) < k {
			for _, r := range reqs {
				rec(append(list, r))
			}
		}
	}
	rec(nil)
}

func listing345(c *mc.C, reqs, pys []string) {
	var doc strings.Builder
	doc.WriteString("<!DOCTYPE html><html><body>\n")
	for i, r := range reqs {
		attr := ""
		if r != "-" {
			attr = fmt.Sprintf(" data-requires-python=\"%s\"", esc(r))
		}
		fmt.Fprintf(&doc, "<a href=\"f%d.whl\"%s>f%d</a>\n", i, attr, i)
	}
	doc.WriteString("</body></html>")
	pg := page{body: doc.String()}
	s := &site{pages: map[string]page{"http://idx/simple/foo/": pg, "http://idx/simple/foo": {status: 301, location: "/simple/foo/"}}}
	for _, py := range pys {
		var pv *pep440.Version
		if py != "-" {
			x := mustReal(py)
			pv = &x
		}
		var want []string
		for i, r := range reqs {
			keep := true
			if r != "-" && r != "" && py != "-" {
				valid := true
				m := true
				for _, cl := range strings.Split(r, ",") {
					cl = strings.TrimSpace(cl)
					op := ""
					for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
						if strings.HasPrefix(cl, o) {
							op = o
							break
						}
					}
					v, ok := refParse(cl[len(op):])
					if !ok {
						valid = false
						break
					}
					m = m && ref345(op, v, mustRef(py))
				}
				keep = !valid || m
			}
			if keep {
				want = append(want, fmt.Sprintf("f%d", i))
			}
		}
		for _, kind := range []string{"pep503", "simple_repo_api"} {
			var links []pep503.FileLink
			var err error
			if kind == "pep503" {
				links, err = pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}, Python: pv}.ListPackageFiles(context.Background(), "foo")
			} else {
				cl := simple_repo_api.NewClient(pv, nil)
				cl.BaseURL = "http://idx/simple/"
				cl.HTTPClient = &http.Client{Transport: s}
				links, err = cl.ListPackageFiles(context.Background(), "foo")
			}
			if err != nil {
				c.Failf("Python %s: %v", py, err)
				continue
			}
			var got []string
			for _, l := range links {
				got = append(got, l.Text)
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Failf("Python %s: listing is %v, want %v", py, got, want)
			}
			c.AddOutcome(py + fmt.Sprint(got))
		}
	}
	c.Inner(2 * len(pys))
	c.Outcome("listing")
}
