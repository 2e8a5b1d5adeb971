package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"net/http"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// counts are the numbers of repetitions that matter: all small ones, the neighbours of powers of two, and those
// of the integer literals of the code.
func counts(t *mc.T, max int64, dirs ...string) []int64 {
	base := []int64{}
	for i := int64(1); i <= 20 && i <= max; i++ {
		base = append(base, i)
	}
	for p := int64(32); p-1 <= max; p *= 2 {
		for d := int64(-1); d <= 1; d++ {
			if p+d <= max {
				base = append(base, p+d)
			}
		}
	}
	return t.Sizes(1, max, base, dirs...)
}

func rep(s, sep string, n int64) string {
	return strings.TrimSuffix(strings.Repeat(s+sep, int(n)), sep)
}

// longVersions are versions with a release or local part of n segments, and their neighbours.
func longVersions(n int64) []string {
	one, zero := rep("1", ".", n), "1"+strings.Repeat(".0", int(n)-1)
	return []string{one, one + ".1", one + ".2", one + ".0", one[:len(one)-1] + "2", zero, zero + ".1", zero + ".0.1", zero + ".0.1.dev1", zero + "a1", "2", "1", "1.1", "1." + zero, one + ".post1", one + ".2a1",
		"7" + zero, "0." + one, "0." + one + ".1"}
}

func longLocals(n int64) []string {
	a, d := rep("a", ".", n), rep("1", ".", n)
	return []string{"1+" + a, "1+" + a + ".a", "1+" + a + ".b", "1+" + a + ".1", "1+" + d, "1+" + d + ".1", "1+" + d + ".2", "1+" + d + ".0", "1+" + strings.Repeat("a", int(n)), "1+" + strings.Repeat("a", int(n)) + "b",
		"1+" + strings.Repeat("a", int(n)) + "c", "1+1" + strings.Repeat("0", int(n)), "1+1" + strings.Repeat("0", int(n)) + "1", "1+1" + strings.Repeat("0", int(n)) + "2", "1", "1+0"}
}

func c13Lengths(t *mc.T) {
	ns := counts(t, int64(t.Pick(130, 1030)), "pkg/python/pep440")
	t.Section("lengths", fmt.Sprintf("release parts and local labels of %d lengths: texts, and all ordered pairs", len(ns)))
	for _, n := range ns {
		n := n
		t.Case(func() string { return fmt.Sprintf("parts of %d segments", n) }, func(c *mc.C) {
			for _, l := range [][]string{longVersions(n), longLocals(n)} {
				for _, s := range l {
					text(c, s)
					if c.Failed() {
						return
					}
				}
				for _, a := range parseAll(c, l) {
					for _, b := range parseAll(c, l) {
						if got, want := sign(a.real.Cmp(b.real)), refCmp(a.ref, b.ref); got != want {
							c.Failf("Cmp(%s, %s) has sign %d, want %d", a.ref, b.ref, got, want)
							return
						}
					}
				}
				c.Inner(len(l) * len(l))
			}
			c.AddOutcome(fmt.Sprint(n))
		})
	}
}

func c14Lengths(t *mc.T) {
	ns := counts(t, int64(t.Pick(130, 1030)), "pkg/python/pep440")
	t.Section("lengths", fmt.Sprintf("clauses over releases of %d lengths, and specifiers of as many clauses", len(ns)))
	for _, n := range ns {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d segments or clauses", n) }, func(c *mc.C) {
			l := longVersions(n)
			vs := parseAll(c, l)
			for _, s := range l {
				for _, cl := range clausesFor(s) {
					matchRow(c, cl.text, []rclause{cl.ref}, vs)
					if c.Failed() {
						return
					}
				}
			}
			// only the last clause, or only the first, decides
			var texts []string
			var rs []rclause
			for i := int64(0); i < n; i++ {
				v := fmt.Sprintf("%d.5", 3+i)
				texts = append(texts, "!="+v)
				rs = append(rs, rclause{"!=", mustRef(v)})
			}
			vs = parseAll(c, []string{"3.5", fmt.Sprintf("%d.5", 2+n), fmt.Sprintf("%d.5", 3+n), "1"})
			matchRow(c, strings.Join(texts, ","), rs, vs)
			matchRow(c, strings.Join(texts, " ,\t"), rs, vs)
		})
	}
}

func c15Lengths(t *mc.T) {
	ns := counts(t, int64(t.Pick(130, 1030)), "pkg/python/pep440", "pkg/python/pep425", "pkg/python/pypa/simple_repo_api", "pkg/python/pep503")
	t.Section("lengths", fmt.Sprintf("the best of %d numbers of candidates, at the start, in the middle and at the end; and of as many files and tags", len(ns)))
	for _, n := range ns {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d candidates", n) }, func(c *mc.C) {
			spec, err := pep440.ParseSpecifier(">=1,!=7.0")
			if err != nil {
				c.Failf("%v", err)
				return
			}
			for _, at := range []int64{0, n / 2, n - 1} {
				for _, best := range []string{"2000", "2000a1", "0.1"} {
					var cands []pep440.Version
					var list []wheelLink
					var inst []string
					for i := int64(0); i < n; i++ {
						v := fmt.Sprintf("1.%d", (i*7)%n)
						if i == at {
							v = best
						}
						cands = append(cands, mustReal(v))
						list = append(list, wheelLink{fmt.Sprintf("foo-%s-py3-none-any.whl", v), v, "", "py3-none-any", "", true})
						inst = append(inst, fmt.Sprintf("cp%d-none-any", i))
					}
					want := "2000"
					if best != want {
						// the highest of the others
						want = ""
						for i, v := range cands {
							if int64(i) != at && (want == "" || refCmp(mustRef(want), mustRef(v.String())) < 0) {
								want = v.String()
							}
						}
						if want == "" && best == "2000a1" {
							want = best
						}
					}
					got := spec.Select(cands, pep440.ExcludePreReleases{})
					if (got == nil) != (want == "") || got != nil && got.String() != want {
						c.Failf("selecting from %d candidates (%s at %d) gives %v, want %s", n, best, at, got, want)
						return
					}
					indexCase(c, list, []string{">=1"}, [][]string{append(inst, "py3-none-any")})
					if c.Failed() {
						return
					}
				}
			}
			// files that differ in tags or build tags
			for _, up := range []bool{true, false} {
				var tags, builds []wheelLink
				var inst []string
				for i := int64(0); i < n; i++ {
					k := i
					if !up {
						k = n - 1 - i
					}
					tag := fmt.Sprintf("cp%d-none-any", k)
					tags = append(tags, wheelLink{"foo-1-" + tag + ".whl", "1", "", tag, "", true})
					inst = append(inst, fmt.Sprintf("cp%d-none-any", i))
					builds = append(builds, wheelLink{fmt.Sprintf("foo-1-%d-py3-none-any.whl", k), "1", fmt.Sprint(k), "py3-none-any", "", true})
				}
				indexCase(c, tags, []string{""}, [][]string{inst})
				indexCase(c, builds, []string{""}, [][]string{{"py3-none-any"}})
			}
			c.Inner(10)
			c.Outcome(fmt.Sprint(n))
		})
	}
}

func c16Lengths(t *mc.T) {
	ns := counts(t, int64(t.Pick(130, 1030)), "pkg/python/pep345", "pkg/python/pep440", "pkg/python/pep503", "pkg/python/pypa/simple_repo_api")
	t.Section("lengths", fmt.Sprintf("requirements with releases of %d lengths, and of as many clauses; listings of as many files", len(ns)))
	for _, n := range ns {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d segments, clauses or files", n) }, func(c *mc.C) {
			l := longVersions(n)
			vs := parseAll(c, l)
			for _, s := range l {
				for _, op := range []string{"", "==", "!=", "<", "<=", ">", ">="} {
					check345(c, op+s, []string{op}, []rv{mustRef(s)}, vs)
					if c.Failed() {
						return
					}
				}
			}
			var texts, ops []string
			var rs []rv
			for i := int64(0); i < n; i++ {
				v := fmt.Sprintf("%d.5", 3+i)
				texts, ops, rs = append(texts, "!="+v), append(ops, "!="), append(rs, mustRef(v))
			}
			vs = parseAll(c, []string{"3.5", fmt.Sprintf("%d.5", 2+n), fmt.Sprintf("%d.5", 3+n), "1"})
			check345(c, strings.Join(texts, ","), ops, rs, vs)
			reqs := make([]string, n)
			for i := range reqs {
				reqs[i] = []string{">=3.6", "<3", "-"}[i%3]
			}
			listing345(c, reqs, []string{"3.9", "2.7.18"})
			c.Inner(n2i(n))
		})
	}
}

func n2i(n int64) int { return int(n) }

func c17Lengths(t *mc.T) {
	sizes := t.Sizes(0, int64(t.Pick(300000, 2100000)), []int64{0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385,
		32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 262145}, "pkg/python/pep503", "pkg/python/pypa/simple_repo_api")
	t.Section("sizes", fmt.Sprintf("bodies of %d sizes: intact, and with the first, middle or last byte changed, removed, or one appended", len(sizes)))
	for _, n := range sizes {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d bytes", n) }, func(c *mc.C) {
			bs := make([]byte, n)
			for i := range bs {
				bs[i] = byte(i*7 + i>>8)
			}
			good := string(bs)
			link := "/f.whl#sha256=" + sum(sha256.New, good)
			try := func(served string) {
				s := &site{pages: map[string]page{"http://idx/f.whl": {body: served}}}
				o := getLink(s, link)
				switch {
				case served == good && o.err != nil:
					c.Failf("a file of %d bytes: %v", n, o.err)
				case served == good && string(o.content) != good:
					c.Failf("a file of %d bytes is returned as %d bytes", n, len(o.content))
				case served != good && o.err == nil:
					c.Failf("a file of %d bytes with a wrong checksum is accepted", n)
				}
				s = &site{pages: map[string]page{"http://idx/f.whl": {body: served}}}
				if o := getLink(s, "/f.whl"); o.err != nil || string(o.content) != served {
					c.Failf("a file of %d bytes without checksum is returned as %d bytes, %v", len(served), len(o.content), o.err)
				}
			}
			try(good)
			try(good + "x")
			for _, at := range []int64{0, n / 2, n - 1} {
				if at < 0 || at >= n {
					continue
				}
				x := []byte(good)
				x[at] ^= 1
				try(string(x))
				try(good[:at] + good[at+1:])
			}
			try(good[:n/2])
			c.Outcome(fmt.Sprint(n))
			c.Inner(9)
		})
	}
	ns := counts(t, int64(t.Pick(1030, 5000)), "pkg/python/pep503", "pkg/python/pypa/simple_repo_api", "pkg/htmlutil")
	t.Section("lengths", fmt.Sprintf("listings of %d numbers of links, nesting depths, and lengths of names, texts and attributes", len(ns)))
	for _, n := range ns {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d links, levels or characters", n) }, func(c *mc.C) {
			get := func(doc string) []pep503.FileLink {
				s := &site{pages: map[string]page{"http://idx/simple/foo/": {body: "<!DOCTYPE html><html><body>" + doc + "</body></html>"}}}
				cl := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}
				links, err := cl.ListPackageFiles(context.Background(), "foo")
				if err != nil {
					c.Failf("listing: %v", err)
				}
				return links
			}
			var doc strings.Builder
			for i := int64(0); i < n; i++ {
				fmt.Fprintf(&doc, "<a href=\"f%d.whl\">t%d</a>\n", i, i)
			}
			links := get(doc.String())
			if int64(len(links)) != n {
				c.Failf("%d links of %d are listed", len(links), n)
				return
			}
			for i, l := range links {
				if l.Text != fmt.Sprintf("t%d", i) || l.HRef != fmt.Sprintf("http://idx/simple/foo/f%d.whl", i) {
					c.Failf("link %d of %d is %q to %q", i, n, l.Text, l.HRef)
					return
				}
			}
			long := strings.Repeat("x", int(n))
			depth := n
			if depth > 400 { // the HTML parser itself has a limit
				depth = 400
			}
			links = get(fmt.Sprintf("%s<a href=\"%s.whl\" data-yanked=\"%s y\">%s.whl</a>%s<a href=\"last\">last</a>", strings.Repeat("<div>", int(depth)), long, long, long, strings.Repeat("</div>", int(depth))))
			if len(links) != 2 || links[0].Text != long+".whl" || links[0].HRef != "http://idx/simple/foo/"+long+".whl" || links[0].DataAttrs["data-yanked"] != long+" y" || links[1].Text != "last" {
				c.Failf("a long link (%d) is listed as %v", n, links)
			}
			c.Outcome(fmt.Sprint(n))
			c.Inner(2)
		})
	}
}
