package main

import (
	"fmt"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c14 = mc.Suite{
	ID:    "C14",
	Level: "model_checking",
	Rule: "all (clause, version) pairs of a product of operators, spec versions and candidate versions; all conjunctions of up to 2 (3) clauses; " +
		"all clause texts over operators, spacing, versions and wildcards, with string round trips; against a reference matcher; " +
		"non-trivial: the reference defines the answer",
	Assumptions: []string{
		"open: for '>V' with V a pre- or dev-release, post-releases and local versions of the final release (PEP 440 and the packaging library disagree)",
		"'<=', '>=' and '<' compare by the full version order, local part included",
		"'===' and empty clauses between commas are not covered",
	},
	Body: runC14,
}

type clause struct {
	text string
	ref  rclause
}

// clausesFor lists every valid clause over version text s.
func clausesFor(s string) []clause {
	v := mustRef(s)
	var ret []clause
	add := func(op string) {
		txt := strings.TrimSuffix(op, "*") + s
		if strings.HasSuffix(op, "*") {
			txt += ".*"
		}
		ret = append(ret, clause{txt, rclause{op, v}})
	}
	add("==")
	add("!=")
	if len(v.local) == 0 {
		if v.dev == "" {
			add("==*")
			add("!=*")
		}
		add("<=")
		add(">=")
		add("<")
		add(">")
		if len(v.rel) > 1 {
			add("~=")
		}
	}
	return ret
}

// matchRow checks one specifier against every version, and its string form too.
func matchRow(c *mc.C, txt string, cls []rclause, vers []pair) {
	spec, err := pep440.ParseSpecifier(txt)
	if err != nil {
		c.Failf("%q is a valid specifier, but is rejected: %v", txt, err)
		return
	}
	if len(spec) != len(cls) {
		c.Failf("%q: parsed into %d clauses, want %d", txt, len(spec), len(cls))
		return
	}
	str := spec.String()
	again, err := pep440.ParseSpecifier(str)
	if err != nil {
		c.Failf("%q: its string form %q does not parse: %v", txt, str, err)
		return
	}
	if s := again.String(); s != str {
		c.Failf("%q: string form %q becomes %q", txt, str, s)
	}
	for _, v := range vers {
		want := yes
		for _, cl := range cls {
			want = want.and(cl.match(v.ref))
		}
		got := spec.Match(v.real)
		if want != open && got != (want == yes) {
			c.Failf("(%s).Match(%s) is %v, want %s", txt, v.ref, got, want)
			return
		}
		if g2 := again.Match(v.real); g2 != got {
			c.Failf("(%s).Match(%s) is %v, but %v after printing it as %q and parsing that", txt, v.ref, got, g2, str)
			return
		}
		if want != open {
			c.Outcome("defined")
		}
	}
	c.Inner(2 * len(vers))
}

func runC14(t *mc.T) {
	epochs := []string{"", "1!"}
	rels := []string{"0.9", "1", "1.0", "1.0.1", "1.1", "1.10", "2", "1.1.0"}
	pres := []string{"", "a1", "a2", "rc1"}
	posts := []string{"", ".post1", ".post2"}
	devs := []string{"", ".dev0", ".dev1"}
	locals := []string{"", "+a", "+1"}
	if t.Thorough() {
		rels = append(rels, "0", "1.0.0", "1.1.1", "10", "1.0.0.1")
		pres = append(pres, "b1", "rc10")
		posts = append(posts, ".post0", ".post10")
		locals = append(locals, "+a.1", "+2")
	}
	vtexts := product(epochs, rels, pres, posts, devs, locals)
	var vers []pair
	load := func(c *mc.C) bool {
		if vers == nil {
			vers = parseAll(c, vtexts)
		}
		return !c.Failed()
	}
	t.Section("match", fmt.Sprintf("every clause over a product of spec versions x %d versions", len(vtexts)))
	for _, s := range vtexts {
		if t.Stopped() {
			return
		}
		s := s
		t.Case(func() string { return "every operator on " + s }, func(c *mc.C) {
			if !load(c) {
				return
			}
			for _, cl := range clausesFor(s) {
				matchRow(c, cl.text, []rclause{cl.ref}, vers)
				if c.Failed() {
					return
				}
				c.AddOutcome(cl.text)
			}
		})
	}

	t.Section("magnitude", "every clause over versions of every size of number, against each other")
	mags := magnitudes(t)
	for _, form := range []string{"%s!1.0", "%s.0", "1.%s", "1.0a%s", "1.0.post%s", "1.0.dev%s", "1.0+%s"} {
		form := form
		t.Case(func() string { return "clauses over " + form }, func(c *mc.C) {
			var texts []string
			for _, m := range mags {
				texts = append(texts, fmt.Sprintf(form, m))
			}
			vs := parseAll(c, texts)
			for _, s := range texts {
				for _, cl := range clausesFor(s) {
					matchRow(c, cl.text, []rclause{cl.ref}, vs)
				}
			}
		})
	}

	t.Section("conjunctions", "all specifiers of 2 (3) clauses over a reduced alphabet x versions")
	var cls []clause
	for _, s := range []string{"1.0", "1", "1.1", "2.0a1", "1.0.post1", "1.1.dev1", "1.0+a"} {
		cls = append(cls, clausesFor(s)...)
	}
	small := product([]string{""}, []string{"0.9", "1", "1.0.1", "1.1", "2"}, []string{"", "a1"}, []string{"", ".post1", ".post2"}, []string{"", ".dev1"}, []string{"", "+a"})
	var sv []pair
	conj := func(list ...clause) {
		t.Case(func() string { return fmt.Sprint("clauses ", list) }, func(c *mc.C) {
			if sv == nil {
				sv = parseAll(c, small)
			}
			var texts []string
			var rs []rclause
			for _, x := range list {
				texts = append(texts, x.text)
				rs = append(rs, x.ref)
			}
			matchRow(c, strings.Join(texts, ","), rs, sv)
			if !c.Failed() {
				matchRow(c, " "+strings.Join(texts, " , ")+" ", rs, sv)
			}
		})
	}
	t.Case(func() string { return "the empty specifier" }, func(c *mc.C) {
		vs := parseAll(c, small)
		matchRow(c, "", nil, vs)
	})
	for _, a := range cls {
		for _, b := range cls {
			conj(a, b)
			if t.Thorough() {
				for _, d := range cls {
					conj(a, b, d)
				}
			}
		}
	}

	c14Lengths(t)
	t.Section("texts", "operators x spacing x version texts x wildcards: accepted exactly if valid, and with the right meaning")
	ops := []string{"~=", "==", "!=", "<=", ">=", "<", ">", "===", "=", "~", "!", "", "=>", "=<", "<>", "= =", "> =", "<==", ">>", "~==", "!==", "^", "><"}
	forms := []string{"1", "1.0", "10", "10.2", "1.0.0", "2!1.0", "v1.0", "1.0a1", "1.0-alpha-1", "1.0RC", "1.0.post1", "1.0-1", "1.0rev2", "1.0.dev1", "1.0.DEV", "1.0+a", "1.0+A-1", "1.0a1.post1.dev1",
		"", "x", "1.", ".1", "1.0.x", "1..0", "1.0+", "*", "1.0a1.dev1", "1!", "!1", "1,0", "1 0"}
	wild := []string{"", ".*", "*", ".*.*", ".**", ".*.1", ".*+a", ".*a1"}
	sv2 := product([]string{"", "2!"}, []string{"0", "1", "1.0.1", "1.1", "2", "0.2", "10.2", "10"}, []string{"", "a1", "rc0"}, []string{"", ".post1", ".post2"}, []string{"", ".dev1", ".dev0"}, []string{"", "+a", "+a.1"})
	var tv []pair
	for _, op := range ops {
		for _, f := range forms {
			op, f := op, f
			t.Case(func() string { return fmt.Sprintf("operator %q, version %q, with spacing and wildcards", op, f) }, func(c *mc.C) {
				if tv == nil {
					tv = parseAll(c, sv2)
				}
				for _, w := range wild {
					for _, sp := range [][3]string{{"", "", ""}, {"", " ", ""}, {" ", "", " "}, {"\t", "\t", "\n"}} {
						txt := sp[0] + op + sp[1] + f + w + sp[2]
						cl, valid, unspec := refClause(txt)
						if unspec {
							continue
						}
						if valid {
							matchRow(c, txt, cl, tv)
						} else if spec, err := pep440.ParseSpecifier(txt); err == nil {
							c.Failf("%q is not a valid specifier, but is accepted as %s", txt, spec)
						}
						c.AddOutcome(txt)
					}
				}
				c.Outcome("texts")
			})
		}
	}
}

// refClause parses a specifier text.
func refClause(txt string) (ret []rclause, valid, unspec bool) {
	if strings.TrimSpace(txt) == "" {
		return nil, true, false
	}
	for _, s := range strings.Split(txt, ",") {
		s = strings.TrimSpace(s)
		if s == "" {
			return nil, false, true
		}
		op := ""
		for _, o := range []string{"===", "~=", "==", "!=", "<=", ">=", "<", ">"} {
			if strings.HasPrefix(s, o) {
				op = o
				break
			}
		}
		if op == "" || op == "===" {
			return nil, false, false
		}
		s = s[len(op):]
		if op == "==" || op == "!=" {
			if strings.HasSuffix(s, ".*") {
				op += "*"
				s = strings.TrimSuffix(s, ".*")
				if s != strings.TrimRight(s, " \t\n\r\f") {
					return nil, false, true
				}
			}
		}
		v, ok := refParse(s)
		if !ok {
			return nil, false, false
		}
		if len(v.local) > 0 && op != "==" && op != "!=" || v.dev != "" && strings.HasSuffix(op, "*") || op == "~=" && len(v.rel) < 2 {
			return nil, false, false
		}
		ret = append(ret, rclause{op, v})
	}
	return ret, true, false
}
