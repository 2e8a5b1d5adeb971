package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c18 = mc.Suite{
	ID:    "C18",
	Level: "model_checking",
	Rule: "all file names of up to 7 dash-separated components over an alphabet x extensions; all combinations of parts for generating; all ordered pairs of build tags; " +
		"all pairs of compressed tags and all installer lists of up to 3 (4) tags against set-based references; non-trivial: the expected answer is defined",
	Assumptions: []string{
		"components consist of letters, digits, '_', '.', '+' and '!'; empty parts of compressed tags are not covered",
		"versions are compared by PEP 440 equality (C13)",
	},
	Body: runC18,
}

var c18versions = map[string]string{ // text -> normal form; "" is invalid
	"1.0": "1.0", "1": "1", "2012.4": "2012.4", "1.0a1": "1.0a1", "1.0.post1": "1.0.post1", "1.0_1": "", "1.0+local.1": "1.0+local.1", "1!2.0": "1!2.0", "1.0.dev0": "1.0.dev0",
	"v1.0": "1.0", "1.0_rc1": "1.0rc1", "1.0_post1": "1.0.post1", "x": "", "py3": "", "none": "", "any": "", "": "", "1.0b": "1.0b0", "2a": "2a0", "1_x": "", "7": "7", "foo": "", "Foo_Bar.x": "", "cp39": "",
	"99999999999999999999": "", "2b": "2b0", "10": "10", "007": "7",
}

func splitBuild(s string) (n, rest string, ok bool) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 {
		return "", "", false
	}
	n = strings.TrimLeft(s[:i], "0")
	if n == "" {
		n = "0"
	}
	return n, s[i:], true
}

func runC18(t *mc.T) {
	comps := []string{"foo", "Foo_Bar.x", "1.0", "1.0a1", "1.0_rc1", "1.0+local.1", "1!2.0", "x", "py3", "none", "any", "", "1", "2b", "007", "1_x", "99999999999999999999"}
	if t.Thorough() {
		comps = append(comps, "v1.0", "1.0_1", "2012.4", "cp39")
	}
	exts := []string{".whl", ".WHL", "", ".zip", ".whl.asc", ".whlx", ".tar.gz", "whl"}
	t.Section("parse", fmt.Sprintf("all names of up to 6 (thorough: and 7) components over %d, x %d extensions", len(comps), len(exts)))
	var rec func(parts []string, max int)
	leaf := func(parts []string) {
		for _, last := range comps {
			for _, ext := range exts {
				_ = last
				_ = ext
			}
		}
	}
	_ = leaf
	check := func(c *mc.C, parts []string, ext string) {
		name := strings.Join(parts, "-") + ext
		c.Inner(1)
		got, err := bdist.ParseFilename(name)
		dist, ver, build, tags, ok := "", "", "", []string(nil), ext == ".whl"
		switch len(parts) {
		case 5:
			dist, ver, tags = parts[0], parts[1], parts[2:]
		case 6:
			dist, ver, build, tags = parts[0], parts[1], parts[2], parts[3:]
			if _, _, isBuild := splitBuild(build); !isBuild {
				ok = false
			}
		default:
			ok = false
		}
		for _, p := range parts {
			ok = ok && p != ""
		}
		norm := ""
		if ok {
			norm = c18versions[ver]
			if ver == "99999999999999999999" {
				if err == nil && got.Version.String() != ver {
					c.Failf("%q: version is %s", name, got.Version)
				}
				return // versions that large may be refused
			}
			ok = norm != ""
		}
		if !ok {
			if err == nil {
				c.Failf("%q is not a wheel file name, but is accepted as %v", name, *got)
			}
			return
		}
		n, rest, _ := splitBuild(build)
		if err != nil {
			if len(n) <= 18 {
				c.Failf("%q is a wheel file name, but is rejected: %v", name, err)
			}
			return
		}
		c.Outcome("accepted")
		c.AddOutcome(name)
		if got.Distribution != dist || got.Version.String() != norm {
			c.Failf("%q: distribution %q, version %s", name, got.Distribution, got.Version)
		}
		switch {
		case build == "":
			if got.BuildTag != nil {
				c.Failf("%q: build tag %v, want none", name, got.BuildTag)
			}
		case got.BuildTag == nil || fmt.Sprint(got.BuildTag.Int) != n || got.BuildTag.Str != rest:
			c.Failf("%q: build tag %v, want %s %q", name, got.BuildTag, n, rest)
		}
		if got.CompatibilityTag != (pep425.Tag{Python: tags[0], ABI: tags[1], Platform: tags[2]}) {
			c.Failf("%q: tag %v, want %v", name, got.CompatibilityTag, tags)
		}
		// generate it again
		again, err := bdist.GenerateFilename(*got)
		if err != nil {
			c.Failf("%q: cannot be generated from its parts: %v", name, err)
			return
		}
		want := strings.NewReplacer(".", "_").Replace(dist) + "-" + norm
		if build != "" {
			want += "-" + n + rest
		}
		want += "-" + strings.Join(tags, "-") + ".whl"
		if again != want {
			c.Failf("%q: generated as %q, want %q", name, again, want)
		}
	}
	max := t.Pick(6, 7)
	small := []string{"foo", "1.0", "1", "py3", ""}
	rec = func(parts []string, max int) {
		if t.Stopped() {
			return
		}
		alpha := comps
		if len(parts) == 3 {
			p := append([]string(nil), parts...)
			t.Case(func() string { return fmt.Sprintf("names that start with %q", p) }, func(c *mc.C) {
				var deep func(q []string)
				deep = func(q []string) {
					for _, e := range exts {
						if e == ".whl" || len(q) == 5 {
							check(c, q, e)
						}
					}
					if len(q) < max {
						al := comps
						if len(q) >= 4 {
							al = small
						}
						for _, x := range al {
							deep(append(q[:len(q):len(q)], x))
						}
					}
				}
				deep(p)
			})
			return
		}
		p := append([]string(nil), parts...)
		t.Case(func() string { return fmt.Sprintf("%q", p) }, func(c *mc.C) {
			for _, e := range exts {
				check(c, p, e)
			}
		})
		for _, x := range alpha {
			rec(append(parts, x), max)
		}
	}
	rec(nil, max)

	dists := []string{"foo", "Foo-Bar", "a.b_c--d", "a__b", "", "-", "foo+x"}
	vers := []string{"1.0", "1!2.0a1.post2.dev3+x.1"}
	builds := []*bdist.BuildTag{nil, {Int: 0}, {Int: 1}, {Int: 12, Str: "a"}, {Int: 1, Str: "_2"}, {Int: 1, Str: "2"}, {Int: 1, Str: "2x"}, {Int: -1}, {Int: -1, Str: "a"}, {Int: 1, Str: "a-b"}, {Int: 0, Str: "x.y"}, {Int: 1, Str: "-"}}
	tagParts := []string{"py3", "py2.py3", "none", "linux_x86_64", "", "a-b", "-"}
	t.Section("generate", "all combinations of distributions, versions, build tags and tag components")
	for _, d := range dists {
		for _, v := range vers {
			for _, b := range builds {
				for _, p1 := range tagParts {
					d, v, b, p1 := d, v, b, p1
					t.Case(func() string { return fmt.Sprint(d, " ", v, " ", b, " ", p1, "-*-*") }, func(c *mc.C) {
						for _, p2 := range tagParts {
							for _, p3 := range tagParts {
								ver, err := pep440.ParseVersion(v)
								if err != nil {
									c.Failf("%q: %v", v, err)
									return
								}
								in := bdist.FileNameData{Distribution: d, Version: *ver, BuildTag: b, CompatibilityTag: pep425.Tag{Python: p1, ABI: p2, Platform: p3}}
								name, err := bdist.GenerateFilename(in)
								valid := d != "" && d != "-"
								for _, p := range []string{p1, p2, p3} {
									valid = valid && p != "" && !strings.Contains(p, "-")
								}
								if b != nil {
									valid = valid && b.Int >= 0 && !strings.Contains(b.Str, "-") && (b.Str == "" || b.Str[0] < '0' || b.Str[0] > '9')
								}
								if !valid {
									if d == "-" {
										continue // becomes "_"
									}
									if err == nil {
										c.Failf("%+v cannot be represented, but is generated as %q", in, name)
									}
									continue
								}
								if err != nil {
									c.Failf("%+v: %v", in, err)
									continue
								}
								got, err := bdist.ParseFilename(name)
								if err != nil {
									c.Failf("%+v: generated as %q, which does not parse: %v", in, name, err)
									continue
								}
								nd := ""
								for i := 0; i < len(d); i++ {
									if strings.IndexByte("-_.", d[i]) < 0 {
										nd += d[i : i+1]
									} else if !strings.HasSuffix(nd, "_") {
										nd += "_"
									}
								}
								if got.Distribution != nd || got.Version.Cmp(*ver) != 0 || got.CompatibilityTag != in.CompatibilityTag || (got.BuildTag == nil) != (b == nil) || b != nil && *got.BuildTag != *b {
									c.Failf("%+v: generated as %q, which parses as %+v", in, name, *got)
								}
								c.AddOutcome(name)
							}
						}
						c.Inner(len(tagParts) * len(tagParts))
						c.Outcome("generated")
					})
				}
			}
		}
	}

	c18lengths(t)
	c18words(t)

	t.Section("build-tags", "all ordered pairs of build tags")
	var bts []*bdist.BuildTag
	bts = append(bts, nil)
	ints, _ := t.Literals("pkg/python/pypa/bdist")
	nums := map[int]bool{}
	for _, n := range append(ints, 0, 1, 2, 3, 9, 10, 11, 20, 99, 100, 1<<31-1, 1<<31, 1<<32, 1<<63-1) {
		if n >= 0 {
			nums[int(n)] = true
		}
	}
	var nl []int
	for n := range nums {
		nl = append(nl, n)
	}
	sort.Ints(nl)
	for _, n := range nl {
		for _, s := range []string{"", "a", "b", "ab", "A", "_1", "a2", "a10"} {
			bts = append(bts, &bdist.BuildTag{Int: n, Str: s})
		}
	}
	for i := range bts {
		i := i
		t.Case(func() string { return fmt.Sprint("build tag ", bts[i], " against each other") }, func(c *mc.C) {
			for _, b := range bts {
				a := bts[i]
				want := 0
				switch {
				case a == nil && b == nil:
				case a == nil:
					want = -1
				case b == nil:
					want = 1
				case a.Int != b.Int:
					want = 1
					if a.Int < b.Int {
						want = -1
					}
				default:
					want = strings.Compare(a.Str, b.Str)
				}
				if g := a.Cmp(b); (g < 0) != (want < 0) || (g > 0) != (want > 0) {
					c.Failf("Cmp(%v, %v) is %d, want sign %d", a, b, g, want)
				}
			}
			c.Inner(len(bts))
			c.Outcome(fmt.Sprint(bts[i]))
		})
	}

	// compressed tags
	var tags []pep425.Tag
	for _, p := range []string{"py3", "py2.py3", "cp39", "cp39.cp38.py3", "py2"} {
		for _, a := range []string{"none", "cp39", "abi3.none", "cp39.abi3"} {
			for _, f := range []string{"any", "linux_x86_64", "linux_x86_64.any", "manylinux1_x86_64.manylinux2014_x86_64"} {
				tags = append(tags, pep425.Tag{Python: p, ABI: a, Platform: f})
			}
		}
	}
	expand := func(tg pep425.Tag) map[string]bool {
		ret := map[string]bool{}
		for _, a := range strings.Split(tg.Python, ".") {
			for _, b := range strings.Split(tg.ABI, ".") {
				for _, d := range strings.Split(tg.Platform, ".") {
					ret[a+"-"+b+"-"+d] = true
				}
			}
		}
		return ret
	}
	exps := make([]map[string]bool, len(tags))
	for i, tg := range tags {
		exps[i] = expand(tg)
	}
	meet := func(i, j int) bool {
		for k := range exps[i] {
			if exps[j][k] {
				return true
			}
		}
		return false
	}
	t.Section("tags", "all compressed tags: text forms, expansion, and all pairs of them")
	for i, tg := range tags {
		i, tg := i, tg
		t.Case(func() string { return tg.String() }, func(c *mc.C) {
			want := tg.Python + "-" + tg.ABI + "-" + tg.Platform
			back, err := pep425.ParseTag(want)
			if tg.String() != want || err != nil || back != tg {
				c.Failf("text form %q, parsed as %v, %v", tg.String(), back, err)
			}
			txt, err := tg.MarshalText()
			var un pep425.Tag
			if err2 := un.UnmarshalText([]byte(want)); err != nil || err2 != nil || string(txt) != want || un != tg {
				c.Failf("marshalled as %q (%v), unmarshalled as %v (%v)", txt, err, un, err2)
			}
			got := map[string]bool{}
			for _, x := range tg.Decompress() {
				if got[x.String()] {
					c.Failf("expansion has %v twice", x)
				}
				got[x.String()] = true
			}
			if len(got) != len(exps[i]) {
				c.Failf("expansion has %d tags, want %d", len(got), len(exps[i]))
			}
			for x := range exps[i] {
				if !got[x] {
					c.Failf("expansion lacks %s", x)
				}
			}
			for j, other := range tags {
				if g := pep425.Intersect([]pep425.Tag{tg}, []pep425.Tag{other}); g != meet(i, j) {
					c.Failf("Intersect with %v is %v", other, g)
				}
				if g := (pep425.Installer{tg}).Supports(other); g != meet(i, j) {
					c.Failf("an installer for it supports %v: %v", other, g)
				}
			}
			if pep425.Intersect(nil, []pep425.Tag{tg}) || pep425.Intersect([]pep425.Tag{tg}, nil) || (pep425.Installer{}).Supports(tg) {
				c.Failf("matches the empty set")
			}
			c.Inner(2 * len(tags))
			c.Outcome(want)
		})
	}
	for _, bad := range []string{"", "py3", "py3-none", "py3-none-any-x", "a-b-c-d-e", "py3 none any"} {
		bad := bad
		t.Case(func() string { return bad }, func(c *mc.C) {
			if tg, err := pep425.ParseTag(bad); err == nil {
				c.Failf("%q is accepted as a tag: %v", bad, tg)
			}
			var un pep425.Tag
			if err := un.UnmarshalText([]byte(bad)); err == nil {
				c.Failf("%q is accepted as a tag: %v", bad, un)
			}
			c.Outcome(bad)
		})
	}
	pick := []int{0, 2, 5, 16, 18, 21, 33, 49, 51, 63, 64, 79}
	depth := t.Pick(3, 4)
	t.Section("preference", fmt.Sprintf("all installer lists of up to %d tags over %d x all tags", depth, len(pick)))
	var recI func(list []int)
	recI = func(list []int) {
		lst := append([]int(nil), list...)
		t.Case(func() string { return fmt.Sprintf("installer %v", lst) }, func(c *mc.C) {
			var inst pep425.Installer
			for _, i := range lst {
				inst = append(inst, tags[i])
			}
			ranks := map[int][]int{} // position -> preferences seen
			for j, tg := range tags {
				pos := len(lst)
				for k, i := range lst {
					if meet(i, j) {
						pos = k
						break
					}
				}
				if g := inst.Supports(tg); g != (pos < len(lst)) {
					c.Failf("Supports(%v) is %v", tg, g)
				}
				ranks[pos] = append(ranks[pos], inst.Preference(tg))
			}
			prev := -1
			for p := 0; p <= len(lst); p++ {
				for _, r := range ranks[p] {
					if r != ranks[p][0] {
						c.Failf("tags of position %d have preferences %d and %d", p, r, ranks[p][0])
					}
				}
				if len(ranks[p]) > 0 {
					if prev >= 0 && ranks[p][0] <= ranks[prev][0] {
						c.Failf("position %d has preference %d, the better position %d has %d", p, ranks[p][0], prev, ranks[prev][0])
					}
					prev = p
				}
			}
			c.Inner(len(tags))
			c.Outcome(fmt.Sprint(lst))
		})
		if len(list) < depth {
			for _, p := range pick {
				recI(append(list, p))
			}
		}
	}
	recI(nil)
}
