package main

import (
	"fmt"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c13 = mc.Suite{
	ID:    "C13",
	Level: "model_checking",
	Rule: "all token strings up to a length against a backtracking reference parser of the PEP 440 grammar (acceptance, normal form, reparse), " +
		"all spellings of each part, and all ordered pairs of versions of several products against the canonical order of PEP 440 " +
		"(agreement with a total order on all pairs implies antisymmetry and transitivity); non-trivial: accepted by the reference, or a pair",
	Assumptions: []string{
		"ASCII texts, without vertical tab (the two regular expression dialects disagree there)",
		"numbers of more than 18 digits outside the local part may be rejected, but not misread",
	},
	Body: runC13,
}

// text checks one version text; it returns the parsed version if both accept it.
func text(c *mc.C, s string) {
	want, ok := refParse(s)
	got, err := pep440.ParseVersion(s)
	switch {
	case err != nil && ok && !want.big():
		c.Failf("%q is a valid version (%s), but is rejected: %v", s, want, err)
		return
	case err == nil && !ok:
		c.Failf("%q is not a valid version, but is accepted as %s", s, got)
		return
	case err != nil:
		return
	}
	str := got.String()
	if str != want.String() {
		c.Failf("%q: normal form is %q, want %q", s, str, want)
		return
	}
	again, err := pep440.ParseVersion(str)
	if err != nil || again.String() != str || again.Cmp(*got) != 0 || got.Cmp(*again) != 0 {
		c.Failf("%q: its normal form %q does not parse back to an equal version (%v, %v)", s, str, again, err)
	}
	n, err := got.Normalize()
	if err != nil || n.String() != str {
		c.Failf("%q: Normalize gives %v, %v, want %q", s, n, err, str)
	}
	if p := got.PublicVersion.String(); p != want.public() {
		c.Failf("%q: public version is %q, want %q", s, p, want.public())
	}
	if got.IsPreRelease() != want.isPre() {
		c.Failf("%q: IsPreRelease is %v", s, got.IsPreRelease())
	}
	final := want.preL == "" && want.post == "" && want.dev == ""
	if got.PublicVersion.IsFinal() != final || got.IsFinal() != (final && len(want.local) == 0) {
		c.Failf("%q: IsFinal is %v, %v for the public version", s, got.IsFinal(), got.PublicVersion.IsFinal())
	}
	seg := func(i int) string {
		if i < len(want.rel) {
			return want.rel[i]
		}
		return "0"
	}
	for i, x := range []int{got.Major(), got.Minor(), got.Micro()} {
		if fmt.Sprint(x) != seg(i) {
			c.Failf("%q: release segment %d is %d, want %s", s, i, x, seg(i))
		}
	}
	c.Outcome("accepted")
	c.AddOutcome(str)
}

// sequences runs text on every sequence of up to max tokens; one case per prefix of max-2 tokens.
func sequences(t *mc.T, tokens []string, max int) {
	var rec func(prefix string, depth int)
	rec = func(prefix string, depth int) {
		if t.Stopped() {
			return
		}
		if depth == max-2 {
			t.Case(func() string { return fmt.Sprintf("%q + up to 2 more tokens", prefix) }, func(c *mc.C) {
				text(c, prefix)
				for _, a := range tokens {
					text(c, prefix+a)
					for _, b := range tokens {
						text(c, prefix+a+b)
					}
				}
				c.Inner(1 + len(tokens) + len(tokens)*len(tokens))
			})
			return
		}
		if depth < max-2 {
			t.Case(func() string { return fmt.Sprintf("%q", prefix) }, func(c *mc.C) { text(c, prefix) })
		}
		for _, a := range tokens {
			rec(prefix+a, depth+1)
		}
	}
	rec("", 0)
}

func product(parts ...[]string) []string {
	ret := []string{""}
	for _, p := range parts {
		var next []string
		for _, r := range ret {
			for _, x := range p {
				next = append(next, r+x)
			}
		}
		ret = next
	}
	return ret
}

func cases(words ...string) []string {
	var ret []string
	for _, w := range words {
		ret = append(ret, w, strings.ToUpper(w), strings.ToUpper(w[:1])+w[1:])
	}
	return ret
}

type pair struct {
	ref  rv
	real pep440.Version
}

func parseAll(c *mc.C, texts []string) []pair {
	ret := make([]pair, 0, len(texts))
	for _, s := range texts {
		v, err := pep440.ParseVersion(s)
		if err != nil {
			if c != nil {
				c.Failf("%q is a valid version, but is rejected: %v", s, err)
			}
			continue
		}
		ret = append(ret, pair{mustRef(s), *v})
	}
	return ret
}

// allPairs compares every ordered pair.
func allPairs(t *mc.T, texts []string) {
	var list []pair
	for i := range texts {
		if t.Stopped() {
			return
		}
		i := i
		t.Case(func() string { return fmt.Sprintf("%q against each of %d versions", texts[i], len(texts)) }, func(c *mc.C) {
			if list == nil {
				list = parseAll(c, texts)
				if c.Failed() {
					return
				}
			}
			a := list[i]
			for j := range list {
				b := list[j]
				want, got := refCmp(a.ref, b.ref), sign(a.real.Cmp(b.real))
				if got != want {
					c.Failf("Cmp(%s, %s) has sign %d, want %d", texts[i], texts[j], got, want)
					return
				}
				if pw, pg := publicCmp(a.ref, b.ref), sign(a.real.PublicVersion.Cmp(b.real.PublicVersion)); pw != pg {
					c.Failf("public Cmp(%s, %s) has sign %d, want %d", texts[i], texts[j], pg, pw)
					return
				}
			}
			c.Inner(2 * len(list))
			c.Outcome("row")
			c.AddOutcome(texts[i])
		})
	}
}

// magnitudes are the numbers used where size matters: boundaries of machine types, and of whatever
// literals the code has.
func magnitudes(t *mc.T) []string {
	set := map[string]bool{}
	var ret []string
	add := func(s string) {
		if !set[s] {
			set[s] = true
			ret = append(ret, s)
		}
	}
	for _, s := range []string{"0", "1", "2", "3", "4", "5", "9", "10", "11", "19", "20", "99", "100", "101", "127", "128", "255", "256", "999", "1000", "20130313144700",
		"32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "6442450944", "999999999999999999"} {
		add(s)
	}
	ints, _ := t.Literals("pkg/python/pep440")
	for _, n := range ints {
		for d := int64(-1); d <= 1; d++ {
			if n+d >= 0 && n+d < 1e18 {
				add(fmt.Sprint(n + d))
			}
		}
	}
	return ret
}

func runC13(t *mc.T) {
	digitsT := []string{"0", "1", "10", "007"}
	seps := []string{".", "-", "_", "!", "+", " ", "v", "V", "x", "*"}
	words := []string{"a", "b", "c", "rc", "alpha", "beta", "pre", "preview", "post", "rev", "r", "dev", "POST", "rC"}
	all := append(append(append([]string{}, digitsT...), seps...), words...)
	_, lits := t.Literals("pkg/python/pep440")
	seen := map[string]bool{}
	for _, x := range all {
		seen[x] = true
	}
	for _, l := range lits {
		ascii := l != "" && len(l) <= 8 && !seen[l]
		for i := 0; i < len(l); i++ {
			if l[i] <= ' ' || l[i] >= 127 || l[i] == '%' {
				ascii = false
			}
		}
		if ascii && len(all) < 45 {
			seen[l] = true
			all = append(all, l)
		}
	}
	k := t.Pick(4, 5)
	t.Section("tokens", fmt.Sprintf("all strings of up to %d tokens over %d tokens", k, len(all)))
	sequences(t, all, k)
	core := []string{"1", ".", "-", "_", "a", "post", "dev", "+", "!"}
	k = t.Pick(6, 7)
	t.Section("tokens-core", fmt.Sprintf("all strings of up to %d tokens over %d core tokens", k, len(core)))
	sequences(t, core, k)

	sep := []string{"", ".", "-", "_"}
	nums := []string{"", "0", "3", "007"}
	pres := append([]string{""}, product(sep, cases("a", "b", "c", "rc", "alpha", "beta", "pre", "preview"), sep, nums)...)
	posts := append([]string{"", "-0", "-3", "-007"}, product(sep, cases("post", "rev", "r"), sep, nums)...)
	devs := append([]string{""}, product(sep, cases("dev"), sep, nums)...)
	segs := []string{"0", "1", "007", "a", "A", "1a", "a1", "abc", "2147483648", "99999999999999999999", "00"}
	locals := append([]string{""}, product([]string{"+"}, segs)...)
	locals = append(locals, product([]string{"+"}, segs, sep[1:], segs)...)
	rels := []string{"0", "1", "1.0", "01.02", "1.0.0", "2012.4", "1.2.3.4.5.6", "10.010"}
	epochs := []string{"", "0!", "1!", "007!"}
	pads := []string{"", " ", "\t\n", "v", "V", " v"}
	t.Section("spelling", "every spelling of each part x few of the others")
	run := func(group string, texts []string) {
		for i := 0; i < len(texts) && !t.Stopped(); i += 64 {
			i, end := i, i+64
			if end > len(texts) {
				end = len(texts)
			}
			t.Case(func() string { return fmt.Sprintf("%s: %q ... %q", group, texts[i], texts[end-1]) }, func(c *mc.C) {
				for _, s := range texts[i:end] {
					text(c, s)
				}
				c.Inner(end - i)
			})
		}
	}
	fewPost, fewDev, fewLocal, fewPre := []string{"", ".post1", "-1", "r", "-post"}, []string{"", ".dev2", "dev", "-dev3"}, []string{"", "+x.1", "+A-b"}, []string{"", "a1", ".rc", "-Beta_2"}
	run("pre", product([]string{"1.0"}, pres, fewPost, fewDev, fewLocal))
	run("post", product([]string{"1.0"}, fewPre, posts, fewDev, fewLocal))
	run("dev", product([]string{"1.0"}, fewPre, fewPost, devs, fewLocal))
	run("local", product([]string{"1.0"}, fewPre, fewPost, fewDev, locals))
	run("front", product(pads, epochs, rels, fewPre, fewPost, fewDev, fewLocal, []string{"", " ", "\n", "\r\n"}))
	mags := magnitudes(t)
	bigs := append(append([]string{}, mags...), "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999")
	run("numbers", append(product([]string{""}, bigs, []string{"", "!1", ".1"}),
		append(product([]string{"1."}, bigs), append(product([]string{"1a", "1.post", "1-", "1.dev", "1+", "1+a.", "1+00"}, bigs), product([]string{"1."}, bigs, []string{"."}, bigs)...)...)...))

	t.Section("order", "all ordered pairs of a product of epochs, releases, pre, post, dev and local parts")
	reps := product([]string{"", "1!"}, []string{"0", "0.1", "1", "1.0", "1.0.1", "1.1", "2", "10"}, []string{"", "a0", "a1", "b1", "rc0", "rc1", "rc10"},
		[]string{"", ".post0", ".post1", ".post10"}, []string{"", ".dev0", ".dev1", ".dev10"}, []string{"", "+1"})
	allPairs(t, reps)
	t.Section("order-local", "all ordered pairs of local labels of up to 3 segments on a few public versions")
	ls := []string{"0", "1", "2", "10", "a", "ab", "b", "z", "1a", "0a", "2147483648", "4294967297", "20130313144700", "99999999999999999999", "99999999999999999998"}
	lab := append([]string{"", "+a.b.c", "+a.b.1", "+1.1.1", "+1.1", "+a.1.a"}, product([]string{"+"}, ls)...)
	lab = append(lab, product([]string{"+"}, ls, []string{"."}, ls)...)
	allPairs(t, product([]string{"1.0", "1", "1.0.dev1", "1.0.post1", "1.0a1"}, lab))
	t.Section("order-magnitude", fmt.Sprintf("all ordered pairs of each part over %d numbers", len(mags)))
	for _, form := range []string{"%s!1", "%s", "1.%s", "1.0.0.%s", "1a%s", "1rc%s", "1.post%s", "1a1.post%s", "1.dev%s", "1.post1.dev%s", "1+%s", "1+a.%s"} {
		var l []string
		for _, m := range mags {
			l = append(l, fmt.Sprintf(form, m))
		}
		allPairs(t, append(l, "1", "1.0.1", "1rc1", "1.post1.dev1", "1+a", "1!0"))
	}

	c13Lengths(t)
	t.Section("structs", "versions built field by field with every spelling of the pre-release letter")
	lets := map[string]string{"a": "a", "alpha": "a", "b": "b", "beta": "b", "rc": "rc", "c": "rc", "pre": "rc", "preview": "rc"}
	order := []string{"a", "alpha", "b", "beta", "rc", "c", "pre", "preview"}
	base := []string{"1", "1.1", "1!1"}
	for _, l1 := range order {
		l1 := l1
		t.Case(func() string { return "pre-release letter " + l1 }, func(c *mc.C) {
			for _, b := range base {
				for _, n := range []int{0, 1, 12} {
					for _, tail := range []string{"", ".post1", ".dev1", "+x"} {
						s1 := fmt.Sprintf("%s%s%d%s", b, lets[l1], n, tail)
						v1, err := pep440.ParseVersion(s1)
						if err != nil {
							c.Failf("%q: %v", s1, err)
							return
						}
						if v1.Pre == nil {
							c.Failf("%q: no pre-release part", s1)
							return
						}
						v1.Pre.L = l1
						nn, err := v1.Normalize()
						if err != nil || nn.String() != s1 {
							c.Failf("Normalize(%s) is %v, %v; want %s", v1, nn, err, s1)
						}
						np, err := v1.PublicVersion.Normalize()
						if err != nil || np.String() != mustRef(s1).public() {
							c.Failf("public Normalize(%s) is %v, %v", v1, np, err)
						}
						for _, l2 := range order {
							for _, n2 := range []int{0, 1} {
								s2 := fmt.Sprintf("1%s%d", lets[l2], n2)
								v2, err := pep440.ParseVersion(s2)
								if err != nil || v2.Pre == nil {
									c.Failf("%q: %v", s2, err)
									return
								}
								v2.Pre.L = l2
								w := refCmp(mustRef(s1), mustRef(s2))
								if g := sign(v1.Cmp(*v2)); g != w {
									c.Failf("Cmp(%s, %s) has sign %d, want %d", v1, v2, g, w)
								}
								if g := sign(v2.Cmp(*v1)); g != -w {
									c.Failf("Cmp(%s, %s) has sign %d, want %d", v2, v1, g, -w)
								}
								c.Inner(2)
							}
						}
					}
				}
			}
			c.Outcome(l1)
		})
	}
}

// dump prints the reference's answers (used while developing, to compare it with Python's packaging).
func dump() {
	toks := []string{"1", "0", ".", "-", "_", "a", "rc", "c", "post", "r", "rev", "dev", "+", "!", "v", "x", "pre"}
	var rec func(p string, d int)
	rec = func(p string, d int) {
		v, ok := refParse(p)
		if ok {
			fmt.Printf("%q %s\n", p, v)
		} else {
			fmt.Printf("%q -\n", p)
		}
		if d == 0 {
			return
		}
		for _, x := range toks {
			rec(p+x, d-1)
		}
	}
	rec("", 4)
	vs := product([]string{"", "1!"}, []string{"0", "1", "1.0", "1.0.1", "1.1", "10"}, []string{"", "a0", "b1", "rc10"},
		[]string{"", ".post0", ".post2"}, []string{"", ".dev0", ".dev2"}, []string{"", "+1", "+a"})
	for _, a := range vs {
		for _, b := range vs {
			fmt.Println("cmp", a, b, refCmp(mustRef(a), mustRef(b)))
		}
	}
	for _, a := range vs {
		for _, b := range vs {
			for _, cl := range clausesFor(b) {
				fmt.Println("match", a, cl.text, cl.ref.match(mustRef(a)))
			}
		}
	}
}
