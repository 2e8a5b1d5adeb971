package main

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c15 = mc.Suite{
	ID:    "C15",
	Level: "model_checking",
	Rule: "all sequences of up to 4 (5) candidate versions x specifiers x exclusion behaviours; all index listings of up to 3 (4) wheels over alphabets of " +
		"versions, tags, build tags and yank marks x specifiers x installers, served by an in-process transport to the real client; " +
		"the result must be one of the reference's optimal candidates; non-trivial: every case",
	Assumptions: []string{"ties between files that agree in version, yanking, tag preference and build tag may go either way"},
	Body:        runC15,
}

type exclSet map[string]bool

func (e exclSet) Allow(v pep440.Version) bool { return !e[v.String()] }

type behaviour struct {
	name string
	real pep440.ExclusionBehavior
	ref  func(v rv) bool // allowed
}

func mustReal(s string) pep440.Version {
	v, err := pep440.ParseVersion(s)
	if err != nil {
		panic(err)
	}
	return *v
}

func runC15(t *mc.T) {
	vtexts := []string{"1.0", "1.0.0", "1.1", "2.0a1", "2.0", "2.0.post1", "2.0.dev1", "1.0+a", "3rc1", "0.9"}
	specs := []string{"", "==1.0", "==1.0.0+a", "!=2.0", ">=1.0", "<2.0", "~=1.0", "==2.*", ">=2.0a1", ">3", "<=1.0", "!=2.*,!=3rc1", ">1.0"}
	notPre := func(v rv) bool { return !v.isPre() }
	in := func(list ...string) func(rv) bool {
		return func(v rv) bool {
			for _, l := range list {
				if refCmp(mustRef(l), v) == 0 {
					return true
				}
			}
			return false
		}
	}
	or := func(a, b func(rv) bool) func(rv) bool { return func(v rv) bool { return a(v) || b(v) } }
	not := func(a func(rv) bool) func(rv) bool { return func(v rv) bool { return !a(v) } }
	and := func(a, b func(rv) bool) func(rv) bool { return func(v rv) bool { return a(v) && b(v) } }
	any := func(rv) bool { return true }
	behs := []behaviour{
		{"nil", nil, any},
		{"AllowAll", pep440.AllowAll{}, any},
		{"ExcludePreReleases{}", pep440.ExcludePreReleases{}, notPre},
		{"ExcludePreReleases{2.0.0a1}", pep440.ExcludePreReleases{AllowList: []pep440.Version{mustReal("2.0.0a1")}}, or(notPre, in("2.0a1"))},
		{"ExcludePreReleases{9rc1,3.0rc1}", pep440.ExcludePreReleases{AllowList: []pep440.Version{mustReal("9rc1"), mustReal("3.0rc1")}}, or(notPre, in("3rc1"))},
		{"MultiExcluder{}", pep440.MultiExcluder{}, any},
		{"exclude 2.0 1.1", exclSet{"2.0": true, "1.1": true}, not(in("2.0", "1.1"))},
		{"Multi{pre, exclude 2.0}", pep440.MultiExcluder{pep440.ExcludePreReleases{}, exclSet{"2.0": true}}, and(notPre, not(in("2.0")))},
		{"Multi{exclude 1.1, AllowAll}", pep440.MultiExcluder{exclSet{"1.1": true}, pep440.AllowAll{}}, not(in("1.1"))},
	}
	refs := map[string]rv{}
	for _, v := range vtexts {
		refs[v] = mustRef(v)
	}
	max := t.Pick(4, 5)
	t.Section("select", fmt.Sprintf("all sequences of up to %d candidates over %d versions x %d specifiers x %d behaviours", max, len(vtexts), len(specs), len(behs)))
	var rspecs []pep440.Specifier
	var rcl [][]rclause
	for _, s := range specs {
		spec, err := pep440.ParseSpecifier(s)
		if err != nil {
			spec = nil
		}
		rspecs = append(rspecs, spec)
		cl, _, _ := refClause(s)
		rcl = append(rcl, cl)
	}
	matches := map[string]map[string]bool{}
	for i, s := range specs {
		matches[s] = map[string]bool{}
		for _, v := range vtexts {
			m := yes
			for _, cl := range rcl[i] {
				m = m.and(cl.match(refs[v]))
			}
			if m == open {
				panic("open question in C15 alphabet: " + s + " " + v)
			}
			matches[s][v] = m == yes
		}
	}
	var rec func(list []string)
	rec = func(list []string) {
		if t.Stopped() {
			return
		}
		lst := append([]string(nil), list...)
		t.Case(func() string { return fmt.Sprintf("select from %v", lst) }, func(c *mc.C) {
			var cands []pep440.Version
			for _, v := range lst {
				cands = append(cands, mustReal(v))
			}
			for si, spec := range specs {
				for _, b := range behs {
					want, any := "", false
					for _, tier := range []bool{true, false} {
						for _, v := range lst {
							if matches[spec][v] && b.ref(refs[v]) == tier && (!any || refCmp(refs[want], refs[v]) < 0) {
								want, any = v, true
							}
						}
						if any {
							break
						}
					}
					got := rspecs[si].Select(append([]pep440.Version(nil), cands...), b.real)
					switch {
					case got == nil && any:
						c.Failf("Select(%q, %v, %s) finds nothing, want %s", spec, lst, b.name, want)
					case got != nil && !any:
						c.Failf("Select(%q, %v, %s) is %s, want none", spec, lst, b.name, got)
					case got != nil:
						gr, ok := refParse(got.String())
						if !ok || refCmp(gr, refs[want]) != 0 {
							c.Failf("Select(%q, %v, %s) is %s, want %s", spec, lst, b.name, got, want)
						}
						found := false
						for _, v := range lst {
							found = found || v == got.String() || refs[v].String() == got.String()
						}
						if !found {
							c.Failf("Select(%q, %v, %s) is %s, which is not a candidate", spec, lst, b.name, got)
						}
					}
				}
			}
			c.Inner(len(specs) * len(behs))
			c.Outcome(fmt.Sprint(lst))
		})
		if len(list) < max {
			for _, v := range vtexts {
				rec(append(list, v))
			}
		}
	}
	rec(nil)

	installers := [][]string{
		{"cp39-cp39-linux_x86_64", "cp39-abi3-linux_x86_64", "py3-none-any", "py2-none-any"},
		{"py2-none-any", "cp39-cp39-linux_x86_64", "py3-none-any"},
		{"py3-none-any"},
		{"py2.py3-none-any", "cp39.cp38-cp39.abi3-linux_x86_64"},
	}
	vers := []string{"1.0", "1.0.0", "1.1", "2.0a1", "2.0", "1.0+l"}
	tags := []string{"cp39-cp39-linux_x86_64", "py3-none-any", "py2.py3-none-any", "cp310-cp310-win32"}
	builds := []string{"", "-1", "-2", "-10", "-2a"}
	yanks := []string{"", `data-yanked`, `data-yanked="broken"`}
	mk := func(vers, tags, builds, yanks []string) []wheelLink {
		var ret []wheelLink
		for _, v := range vers {
			for _, tg := range tags {
				for _, b := range builds {
					for _, y := range yanks {
						ret = append(ret, wheelLink{fmt.Sprintf("foo-%s%s-%s.whl", v, b, tg), v, strings.TrimPrefix(b, "-"), tg, y, true})
					}
				}
			}
		}
		return ret
	}
	junk := []wheelLink{{name: "foo-3.0.tar.gz"}, {name: "foo-3.0-py3-none.whl"}, {name: "foo-x-py3-none-any.whl"}}
	ispecs := []string{"", "==1.0", ">=2.0a1", ">=1.1", "<1.1", "==9"}
	full := append(mk(vers, tags, builds, yanks), junk...)
	t.Section("index-pairs", fmt.Sprintf("all ordered listings of up to 2 files over %d x %d specifiers x %d installers", len(full), len(ispecs), len(installers)))
	listing := func(list []wheelLink, specs []string) {
		t.Case(func() string { return fmt.Sprintf("index %v", list) }, func(c *mc.C) {
			indexCase(c, list, specs, installers)
		})
	}
	for _, a := range full {
		listing([]wheelLink{a}, ispecs)
	}
	for _, a := range full {
		for _, b := range full {
			if t.Stopped() {
				return
			}
			if !t.Thorough() && a.yank != "" && b.yank != "" && a.yank != b.yank {
				continue
			}
			listing([]wheelLink{a, b}, ispecs[:4])
		}
	}
	some := mk([]string{"1.0", "1.0.0", "2.0"}, []string{"cp39-cp39-linux_x86_64", "py3-none-any"}, []string{"", "-2"}, yanks[:2])
	some = append(some, mk([]string{"1.0+l"}, []string{"py3-none-any"}, []string{""}, yanks[:2])...)
	some = append(some, wheelLink{"foo-2.0a1-py3-none-any.whl", "2.0a1", "", "py3-none-any", "", true}, junk[0])
	n := t.Pick(3, 4)
	t.Section("index-lists", fmt.Sprintf("all ordered listings of 3 to %d files over %d", n, len(some)))
	var rec2 func(list []wheelLink)
	rec2 = func(list []wheelLink) {
		if t.Stopped() {
			return
		}
		if len(list) >= 3 {
			listing(append([]wheelLink(nil), list...), []string{"", "==1.0"})
		}
		if len(list) < n {
			for _, x := range some {
				rec2(append(list, x))
			}
		}
	}
	rec2(nil)
	many := mk([]string{"1.0", "1.1"}, []string{"py3-none-any", "cp39-cp39-linux_x86_64"}, []string{"", "-2"}, yanks[:1])
	t.Section("index-masks", fmt.Sprintf("%d files, each absent, available or yanked, in either order", len(many)))
	total := 1
	for range many {
		total *= 3
	}
	for code := 0; code < total; code++ {
		for _, down := range []bool{false, true} {
			if t.Stopped() {
				return
			}
			var list []wheelLink
			for i, k := 0, code; i < len(many); i, k = i+1, k/3 {
				l := many[i]
				if down {
					l = many[len(many)-1-i]
				}
				switch k % 3 {
				case 0:
					continue
				case 1:
					l.yank = ""
				case 2:
					l.yank = yanks[1]
				}
				list = append(list, l)
			}
			if len(list) > 2 {
				listing(list, []string{"", "==1.0"})
			}
		}
	}
	c15Lengths(t)
}

type wheelLink struct {
	name, ver, build, tag, yank string
	wheel                       bool
}

func (l wheelLink) String() string { return strings.TrimSpace(l.name + " " + l.yank) }

func expand(tag string) []string {
	p := strings.Split(tag, "-")
	var ret []string
	for _, a := range strings.Split(p[0], ".") {
		for _, b := range strings.Split(p[1], ".") {
			for _, d := range strings.Split(p[2], ".") {
				ret = append(ret, a+"-"+b+"-"+d)
			}
		}
	}
	return ret
}

// rank is the position of the first installer tag that tag matches, or -1.
func rank(inst []string, tag string) int {
	for i, it := range inst {
		for _, a := range expand(it) {
			for _, b := range expand(tag) {
				if a == b {
					return i
				}
			}
		}
	}
	return -1
}

func buildKey(b string) (string, string) {
	if b == "" {
		return "", ""
	}
	i := 0
	for i < len(b) && b[i] >= '0' && b[i] <= '9' {
		i++
	}
	return num(b[:i]), b[i:]
}

func buildCmp(a, b string) int {
	an, as := buildKey(a)
	bn, bs := buildKey(b)
	switch {
	case a == "" && b == "":
		return 0
	case a == "":
		return -1
	case b == "":
		return 1
	}
	if d := numCmp(an, bn); d != 0 {
		return d
	}
	return strings.Compare(as, bs)
}

// optimal returns the indices of the best links.
func optimal(list []wheelLink, cls []rclause, inst []string) []int {
	var ok []int
	for i, l := range list {
		if !l.wheel || rank(inst, l.tag) < 0 {
			continue
		}
		m := yes
		for _, cl := range cls {
			m = m.and(cl.match(mustRef(l.ver)))
		}
		if m == yes {
			ok = append(ok, i)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	allowed := func(i int) bool {
		if mustRef(list[i].ver).isPre() {
			return false
		}
		for _, j := range ok {
			if refCmp(mustRef(list[i].ver), mustRef(list[j].ver)) == 0 && list[j].yank == "" {
				return true
			}
		}
		return false
	}
	filter := func(in []int, f func(int) bool) []int {
		var ret []int
		for _, i := range in {
			if f(i) {
				ret = append(ret, i)
			}
		}
		if len(ret) == 0 {
			return in
		}
		return ret
	}
	best := func(in []int, less func(i, j int) bool) []int {
		m := in[0]
		for _, i := range in {
			if less(m, i) {
				m = i
			}
		}
		return filter(in, func(i int) bool { return !less(i, m) && !less(m, i) })
	}
	set := filter(ok, allowed)
	set = best(set, func(i, j int) bool { return refCmp(mustRef(list[i].ver), mustRef(list[j].ver)) < 0 })
	set = filter(set, func(i int) bool { return list[i].yank == "" })
	set = best(set, func(i, j int) bool { return rank(inst, list[i].tag) > rank(inst, list[j].tag) })
	set = best(set, func(i, j int) bool { return buildCmp(list[i].build, list[j].build) < 0 })
	sort.Ints(set)
	return set
}

func indexCase(c *mc.C, list []wheelLink, specs []string, installers [][]string) {
	var doc strings.Builder
	doc.WriteString("<!DOCTYPE html><html><body>\n")
	for i, l := range list {
		fmt.Fprintf(&doc, "<a href=\"../../f/%d/%s\" %s>%s</a><br>\n", i, l.name, l.yank, l.name)
	}
	doc.WriteString("</body></html>")
	pg := page{body: doc.String()}
	s := &site{pages: map[string]page{"http://idx/simple/foo/": pg, "http://idx/simple/foo": {status: 301, location: "/simple/foo/"}}}
	for _, inst := range installers {
		var it pep425.Installer
		for _, x := range inst {
			tg, err := pep425.ParseTag(x)
			if err != nil {
				c.Failf("ParseTag(%q): %v", x, err)
				return
			}
			it = append(it, tg)
		}
		for _, spec := range specs {
			rs, err := pep440.ParseSpecifier(spec)
			if err != nil {
				c.Failf("ParseSpecifier(%q): %v", spec, err)
				return
			}
			cls, _, _ := refClause(spec)
			want := optimal(list, cls, inst)
			cl := simple_repo_api.NewClient(nil, it)
			cl.BaseURL = "http://idx/simple/"
			cl.HTTPClient = &http.Client{Transport: s}
			got, err := cl.SelectWheel(context.Background(), "foo", rs)
			if err != nil {
				if len(want) > 0 {
					c.Failf("spec %q, installer %v: fails with %v, want %s", spec, inst, err, list[want[0]])
				}
				continue
			}
			if len(want) == 0 {
				c.Failf("spec %q, installer %v: selects %s, want an error", spec, inst, got.Text)
				continue
			}
			ok := false
			for _, i := range want {
				ok = ok || got.HRef == fmt.Sprintf("http://idx/f/%d/%s", i, list[i].name)
			}
			if !ok {
				c.Failf("spec %q, installer %v: selects %s (%s), want %s", spec, inst, got.Text, got.HRef, list[want[0]])
			}
			c.AddOutcome(got.Text)
		}
	}
	c.Inner(len(specs) * len(installers))
	c.Outcome("listing")
}
