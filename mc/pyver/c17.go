package main

import (
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"

	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/simple_repo_api"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c17 = mc.Suite{
	ID:    "C17",
	Level: "model_checking",
	Rule: "all combinations of up to 2 (3) fragment parameters x server behaviours (every status, every cut point of the body, redirect chains), " +
		"all documents of up to 3 links over an alphabet x page locations, all project names of up to 5 (6) tokens, API versions, signature cases: " +
		"real client with an in-process transport, and the real command against a loopback server; non-trivial: the expected answer is defined",
	Assumptions: []string{
		"success statuses other than 200 and 206 are not covered; unparsable API versions are not covered",
		"checksum names are the lower-case names of the supported algorithms",
		"links are resolved against the location of the page, <base> elements are not covered",
	},
	Body: runC17,
}

var algos = []struct {
	name string
	f    func() hash.Hash
}{{"md5", md5.New}, {"sha1", sha1.New}, {"sha224", sha256.New224}, {"sha256", sha256.New}, {"sha384", sha512.New384}, {"sha512", sha512.New}}

func sum(f func() hash.Hash, s string) string {
	h := f()
	_, _ = io.WriteString(h, s)
	return hex.EncodeToString(h.Sum(nil))
}

// param is one parameter of a fragment; good says whether it agrees with the content.
type param struct {
	text string
	good bool
}

func fragParams(content string, short bool) []param {
	var ret []param
	for _, a := range algos {
		d := sum(a.f, content)
		flip := "0"
		if d[0] == '0' {
			flip = "1"
		}
		last := "0"
		if d[len(d)-1] == '0' {
			last = "1"
		}
		ret = append(ret, param{a.name + "=" + d, true}, param{a.name + "=" + flip + d[1:], false})
		if short {
			continue
		}
		ret = append(ret,
			param{a.name + "=" + strings.ToUpper(d), true},
			param{a.name + "=" + strings.ToUpper(d[:7]) + d[7:], true},
			param{a.name + "=" + d[:len(d)-1] + last, false},
			param{a.name + "=" + d[:len(d)-1], false},
			param{a.name + "=" + d + "0", false},
			param{a.name + "=" + sum(a.f, content+"x"), false},
			param{a.name + "=" + sum(a.f, ""), content == ""},
			param{a.name + "=" + sum(algos[(3)%6].f, content), a.name == "sha256"},
			param{a.name + "=", false},
			param{a.name + "=xyz", false})
	}
	return append(ret, param{"egg=foo", true}, param{"subdirectory=a/b", true}, param{"x=1;y=2", true}, param{"blake2b=00", true}, param{"egg=a%3Db", true}, param{"egg=%25zz", true}, param{"", true})
}

type outcome struct {
	content []byte
	err     error
}

func getLink(s *site, href string) outcome {
	s.pages["http://idx/simple/foo/"] = page{body: fmt.Sprintf("<html><body><a href=\"%s\">f.whl</a></body></html>", esc(href))}
	cl := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}
	links, err := cl.ListPackageFiles(context.Background(), "foo")
	if err != nil {
		return outcome{nil, fmt.Errorf("listing: %w", err)}
	}
	if len(links) != 1 {
		return outcome{nil, fmt.Errorf("listing: %d links", len(links))}
	}
	b, err := links[0].Get(context.Background())
	return outcome{b, err}
}

func runC17(t *mc.T) {
	contents := []string{"", "x", "the content of a wheel\x00\xff\n", strings.Repeat("0123456789", 3000)}
	t.Section("checksums", "fragments of up to 2 (3) parameters over an alphabet x contents x redirects")
	check := func(content string, ps ...param) {
		t.Case(func() string { return fmt.Sprintf("content of %d bytes, fragment %v", len(content), ps) }, func(c *mc.C) {
			var frag []string
			good := true
			for _, p := range ps {
				frag = append(frag, p.text)
				good = good && p.good
			}
			for _, redir := range []bool{false, true} {
				s := &site{pages: map[string]page{"http://idx/f.whl": {body: content}}}
				if redir {
					s.pages["http://idx/f.whl"] = page{status: 302, location: "http://cdn/a/f.whl", body: "moved"}
					s.pages["http://cdn/a/f.whl"] = page{body: content, noLength: true}
				}
				href := "/f.whl"
				if len(frag) > 0 {
					href += "#" + strings.Join(frag, "&")
				}
				o := getLink(s, href)
				if good && o.err != nil {
					c.Failf("redirect=%v: %v", redir, o.err)
				}
				if good && o.err == nil && string(o.content) != content {
					c.Failf("redirect=%v: content differs", redir)
				}
				if !good && o.err == nil {
					c.Failf("redirect=%v: content that does not match the checksum is returned", redir)
				}
			}
			c.Outcome(fmt.Sprint(ps))
		})
	}
	for ci, content := range contents {
		check(content)
		ps := fragParams(content, false)
		for _, a := range ps {
			check(content, a)
		}
		if ci > 2 {
			continue
		}
		sh := fragParams(content, ci != 2)
		for _, a := range sh {
			for _, b := range sh {
				if t.Stopped() {
					return
				}
				check(content, a, b)
			}
		}
		if ci == 1 {
			for _, a := range sh {
				for _, b := range sh {
					for _, d := range sh {
						if t.Thorough() || d.text == "egg=foo" || d.text == "x=1;y=2" {
							check(content, a, b, d)
						}
					}
				}
			}
		}
	}

	t.Section("statuses", "every status code x 3 bodies x with and without checksum x direct or after a redirect, for files, listings and project lists")
	for st := 200; st < 600; st++ {
		st := st
		t.Case(func() string { return fmt.Sprintf("status %d", st) }, func(c *mc.C) {
			if st > 200 && st < 300 && st != 206 {
				c.Trivial()
				return
			}
			for _, redir := range []bool{false, true} {
				for _, content := range []string{"", "content", "<html><body><a href=x>x</a></body></html>"} {
					for _, frag := range []string{"", "#sha256=" + sum(sha256.New, content)} {
						loc := "http://idx/f.whl"
						s := &site{pages: map[string]page{}}
						if redir {
							s.pages[loc] = page{status: 307, location: "/g.whl"}
							loc = "http://idx/g.whl"
						}
						s.pages[loc] = page{status: st, body: content}
						o := getLink(s, "/f.whl"+frag)
						if st == 200 && (o.err != nil || string(o.content) != content) {
							c.Failf("redirect=%v: got %q, %v", redir, o.content, o.err)
						}
						if st != 200 && o.err == nil {
							c.Failf("redirect=%v: the body of a %d answer is returned as content", redir, st)
						}
					}
					s := &site{pages: map[string]page{"http://idx/simple/": {status: st, body: content}, "http://idx/simple/foo/": {status: st, body: content}, "http://idx/simple/foo": {status: st, body: content}}}
					if redir {
						s.pages["http://idx/s2/foo/"] = s.pages["http://idx/simple/foo/"]
						s.pages["http://idx/s2/"] = s.pages["http://idx/simple/"]
						s.pages["http://idx/simple/"] = page{status: 301, location: "/s2/"}
						s.pages["http://idx/simple/foo/"] = page{status: 301, location: "/s2/foo/"}
						s.pages["http://idx/simple/foo"] = page{status: 301, location: "/s2/foo/"}
					}
					cl := simple_repo_api.NewClient(nil, nil)
					cl.BaseURL = "http://idx/simple/"
					cl.HTTPClient = &http.Client{Transport: s}
					if _, err := cl.ListPackageFiles(context.Background(), "foo"); (err == nil) != (st == 200) {
						c.Failf("redirect=%v: listing files with status %d: error %v", redir, st, err)
					}
					if _, err := cl.ListPackages(context.Background()); (err == nil) != (st == 200) {
						c.Failf("redirect=%v: listing projects with status %d: error %v", redir, st, err)
					}
				}
			}
			c.Outcome(fmt.Sprint(st))
		})
	}

	t.Section("cuts", "the body fails after every number of bytes, with 3 errors, with and without checksums")
	wheel := "PK\x03\x04 some wheel content"
	index := "<html><body><a href=\"a.whl\">a.whl</a><a href=\"b.whl\">b.whl</a></body></html>"
	for cut := 0; cut <= len(index); cut++ {
		cut := cut
		t.Case(func() string { return fmt.Sprintf("cut after %d bytes", cut) }, func(c *mc.C) {
			for _, e := range []error{io.ErrUnexpectedEOF, errors.New("connection reset"), context.DeadlineExceeded} {
				if cut <= len(wheel) {
					for _, frag := range []string{"", "#sha256=" + sum(sha256.New, wheel), "#sha256=" + sum(sha256.New, wheel[:cut]), "#egg=x"} {
						s := &site{pages: map[string]page{"http://idx/f.whl": {body: wheel, fail: e, failAt: cut}}}
						if o := getLink(s, "/f.whl"+frag); o.err == nil {
							c.Failf("file cut after %d bytes (%v, fragment %q) is returned as %q", cut, e, frag, o.content)
						}
						s = &site{pages: map[string]page{"http://idx/f.whl": {failDo: e}}}
						if o := getLink(s, "/f.whl"+frag); o.err == nil {
							c.Failf("failing request (%v, fragment %q) is returned as %q", e, frag, o.content)
						}
					}
				}
				s := &site{pages: map[string]page{"http://idx/simple/foo/": {body: index, fail: e, failAt: cut}, "http://idx/simple/foo": {body: index, fail: e, failAt: cut}, "http://idx/simple/": {body: index, fail: e, failAt: cut}}}
				cl := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}
				if l, err := cl.ListPackageFiles(context.Background(), "foo"); err == nil {
					c.Failf("listing cut after %d bytes (%v) is returned: %d links", cut, e, len(l))
				}
				if l, err := cl.ListPackages(context.Background()); err == nil {
					c.Failf("project list cut after %d bytes (%v) is returned: %d links", cut, e, len(l))
				}
			}
			c.Outcome(fmt.Sprint(cut))
		})
	}

	c17Listings(t)
	c17Names(t)
	c17Versions(t)
	c17Signatures(t)
	c17Lengths(t)
	c17Command(t)
}

// el is a piece of a document and the links it yields.
type el struct {
	html  string
	links []elink
}

type elink struct {
	text string
	ref  func(dir, host string) string // expected URL: dir is the page's directory, host its root
	data map[string]string
}

func c17Listings(t *mc.T) {
	rel := func(s string) func(dir, host string) string { return func(dir, _ string) string { return dir + s } }
	host := func(s string) func(dir, host string) string { return func(_, h string) string { return h + s } }
	abs := func(s string) func(dir, host string) string { return func(_, _ string) string { return s } }
	none := map[string]string{}
	els := []el{
		{`<a href="a-1.whl">a-1.whl</a>`, []elink{{"a-1.whl", rel("a-1.whl"), none}}},
		{`<A HREF='b.whl'>b.whl</A><br/>`, []elink{{"b.whl", rel("b.whl"), none}}},
		{`<a href="/p/c.whl#sha256=abc">c.whl</a>`, []elink{{"c.whl", host("/p/c.whl#sha256=abc"), none}}},
		{`<a href="https://cdn/d.whl#md5=1&amp;x=2" data-requires-python="&gt;=3.6">d.whl</a>`, []elink{{"d.whl", abs("https://cdn/d.whl#md5=1&x=2"), map[string]string{"data-requires-python": ">=3.6"}}}},
		{`<a href="e.whl" data-yanked>e.whl</a>`, []elink{{"e.whl", rel("e.whl"), map[string]string{"data-yanked": ""}}}},
		{`<a data-yanked="a &quot;reason&quot;" rel="internal" href="f.whl" data-gpg-sig="true">f.whl</a>`, []elink{{"f.whl", rel("f.whl"), map[string]string{"data-yanked": `a "reason"`, "data-gpg-sig": "true"}}}},
		{`<p>text <a href="g.whl"><b>g</b>.<i>w<u>h</u>l</i></a> more</p>`, []elink{{"g.whl", rel("g.whl"), none}}},
		{`<!-- <a href="no.whl">no.whl</a> -->`, nil},
		{`<a href="h%20i.whl">h i.whl</a>`, []elink{{"h i.whl", rel("h%20i.whl"), none}}},
		{`<ul><li><a href="j.whl">j.whl</a></li><li><a href="./k.whl">k.whl</a></li></ul>`, []elink{{"j.whl", rel("j.whl"), none}, {"k.whl", rel("k.whl"), none}}},
		{`<a href="?q=1">q</a>`, []elink{{"q", nil, none}}},
		{`<a href="//cdn/l.whl">l&amp;&lt;.whl</a>`, []elink{{"l&<.whl", nil, none}}},
		{`<table><tr><td><a href="m.whl">m.whl</a></td></tr></table>`, []elink{{"m.whl", rel("m.whl"), none}}},
		{`<abbr href="no">no</abbr><img href="no" alt="no">`, nil},
		{"<a href=\"n.whl\"> n\n  .whl\t</a>", []elink{{" n\n  .whl\t", rel("n.whl"), none}}},
		{`<a data-x="  v  " href="o.whl" data-requires-python=""></a>`, []elink{{"", rel("o.whl"), map[string]string{"data-x": "  v  ", "data-requires-python": ""}}}},
	}
	locs := []struct{ desc, page, redirect, dir, host string }{
		{"direct", "http://idx/simple/foo/", "", "http://idx/simple/foo/", "http://idx"},
		{"redirected on the same host", "http://idx/simple/foo/", "/other/deep/foo/", "http://idx/other/deep/foo/", "http://idx"},
		{"redirected to another host", "http://idx/simple/foo/", "https://mirror:8443/x/foo/", "https://mirror:8443/x/foo/", "https://mirror:8443"},
		{"redirected to a file", "http://idx/simple/foo/", "/other/foo.html", "http://idx/other/", "http://idx"},
	}
	n := t.Pick(3, 4)
	t.Section("listings", fmt.Sprintf("all documents of up to %d pieces over %d x %d page locations x project pages and root pages", n, len(els), len(locs)))
	var rec func(list []el)
	rec = func(list []el) {
		if t.Stopped() {
			return
		}
		lst := append([]el(nil), list...)
		t.Case(func() string {
			s := ""
			for _, e := range lst {
				s += e.html
			}
			return s
		}, func(c *mc.C) {
			doc := "<!DOCTYPE html>\n<html><head><title>t</title></head><body><h1>x</h1>\n"
			var want []elink
			for _, e := range lst {
				doc += e.html + "\n"
				want = append(want, e.links...)
			}
			doc += "</body></html>"
			for _, loc := range locs {
				for _, root := range []bool{false, true} {
					s := &site{pages: map[string]page{}}
					cl := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}
					if root {
						cl.BaseURL = loc.page
					}
					if loc.redirect == "" {
						s.pages[loc.page] = page{body: doc}
					} else {
						s.pages[loc.page] = page{status: 302, location: loc.redirect}
						full := loc.redirect
						if strings.HasPrefix(full, "/") {
							full = "http://idx" + full
						}
						s.pages[full] = page{body: doc}
					}
					var got []pep503.Link
					if root {
						l, err := cl.ListPackages(context.Background())
						if err != nil {
							c.Failf("%s: %v", loc.desc, err)
							continue
						}
						for _, x := range l {
							got = append(got, x.Link)
						}
					} else {
						l, err := cl.ListPackageFiles(context.Background(), "foo")
						if err != nil {
							c.Failf("%s: %v", loc.desc, err)
							continue
						}
						for _, x := range l {
							got = append(got, x.Link)
						}
					}
					if len(got) != len(want) {
						c.Failf("%s: %d links, want %d", loc.desc, len(got), len(want))
						continue
					}
					for i, w := range want {
						g := got[i]
						if g.Text != w.text {
							c.Failf("%s: link %d has text %q, want %q", loc.desc, i, g.Text, w.text)
						}
						if w.ref != nil && g.HRef != w.ref(loc.dir, loc.host) {
							c.Failf("%s: link %d refers to %q, want %q", loc.desc, i, g.HRef, w.ref(loc.dir, loc.host))
						}
						if len(g.DataAttrs) != len(w.data) {
							c.Failf("%s: link %d has attributes %v, want %v", loc.desc, i, g.DataAttrs, w.data)
						}
						for k, v := range w.data {
							if gv, ok := g.DataAttrs[k]; !ok || gv != v {
								c.Failf("%s: link %d has attributes %v, want %v", loc.desc, i, g.DataAttrs, w.data)
							}
						}
					}
				}
			}
			c.Outcome(fmt.Sprint(len(want)))
			c.AddOutcome(doc)
		})
		if len(list) < n {
			for _, e := range els {
				rec(append(list, e))
			}
		}
	}
	rec(nil)

	t.Section("browse", "projects found through the root page: their own listing, relative and absolute links, redirects")
	for _, href := range []string{"foo/", "/simple/foo/", "http://idx/simple/foo/", "../simple/foo/", "https://mirror/foo/"} {
		for _, redir := range []bool{false, true} {
			href, redir := href, redir
			t.Case(func() string { return fmt.Sprint(href, " redirect=", redir) }, func(c *mc.C) {
				target := "http://idx/simple/foo/"
				if strings.HasPrefix(href, "https:") {
					target = href
				}
				s := &site{pages: map[string]page{"http://idx/simple/": {body: `<a href="` + href + `">foo</a>`}}}
				final := target
				if redir {
					final = "http://cdn/foo/"
					s.pages[target] = page{status: 308, location: final}
				}
				s.pages[final] = page{body: `<a href="f.whl">f.whl</a>`}
				s.pages[final+"f.whl"] = page{body: "content"}
				l, err := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}.ListPackages(context.Background())
				if err != nil || len(l) != 1 {
					c.Failf("%v, %v", l, err)
					return
				}
				files, err := l[0].ListFiles(context.Background())
				if err != nil || len(files) != 1 {
					c.Failf("%v, %v", files, err)
					return
				}
				b, err := files[0].Get(context.Background())
				if err != nil || string(b) != "content" {
					c.Failf("%q, %v", b, err)
				}
				c.Outcome(final)
			})
		}
	}
}

func c17Names(t *mc.T) {
	toks := []string{"a", "B", "1", "-", "_", "."}
	n := t.Pick(5, 6)
	t.Section("names", fmt.Sprintf("all project names of 1 to %d characters over %q x base URLs", n, toks))
	bases := []struct{ base, want, query string }{
		{"http://idx/simple/", "http://idx/simple/", ""}, {"http://idx/simple", "http://idx/simple/", ""},
		{"http://idx", "http://idx/", ""}, {"http://idx/", "http://idx/", ""}, {"https://h:8080/a/b/simple/", "https://h:8080/a/b/simple/", ""},
		{"http://idx/simple/?key=a%20b&c", "http://idx/simple/", "?key=a%20b&c"},
	}
	var rec func(s string)
	rec = func(s string) {
		if s != "" {
			name := s
			t.Case(func() string { return name }, func(c *mc.C) {
				norm, sep := "", false
				for _, r := range strings.ToLower(name) {
					if strings.ContainsRune("-_.", r) {
						if !sep {
							norm += "-"
						}
						sep = true
						continue
					}
					sep = false
					norm += string(r)
				}
				for _, b := range bases {
					s := &site{pages: map[string]page{b.want + norm + "/" + b.query: {body: `<a href="f">f</a>`}, b.want + norm + b.query: {status: 301, location: norm + "/" + b.query}}}
					l, err := pep503.Client{BaseURL: b.base, HTTPClient: &http.Client{Transport: s}}.ListPackageFiles(context.Background(), name)
					if err != nil || len(l) != 1 || l[0].HRef != b.want+norm+"/f" {
						c.Failf("base %s: requested %v, got %v, %v", b.base, s.requests, l, err)
					}
				}
				c.Outcome(norm)
			})
		}
		if len(s) < n {
			for _, x := range toks {
				rec(s + x)
			}
		}
	}
	rec("")
	t.Section("bad-names", "project names with every other ASCII character, at each position")
	for ch := 0; ch < 0x80; ch++ {
		r := rune(ch)
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("-_.", r) {
			continue
		}
		ch := ch
		t.Case(func() string { return fmt.Sprintf("character %#x", ch) }, func(c *mc.C) {
			for _, f := range []string{"%cab", "a%cb", "ab%c", "%c"} {
				name := fmt.Sprintf(f, ch)
				s := &site{pages: map[string]page{}}
				_, err := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}.ListPackageFiles(context.Background(), name)
				if err == nil || len(s.requests) > 0 {
					c.Failf("%q: requested %v, error %v", name, s.requests, err)
				}
			}
			c.Outcome(fmt.Sprint(ch))
		})
	}
}

func c17Versions(t *mc.T) {
	vers := []struct {
		v  string
		ok bool
	}{{"-", true}, {"1.0", true}, {"1", true}, {"1.1", true}, {"1.9", true}, {"1.10", true}, {"1.0.1", true}, {"0.9", true}, {"2.0", false}, {"2", false}, {"2.1", false}, {"10.0", false}, {"3.0", false}, {"12", false}}
	t.Section("defaults", "clients without a base URL or an HTTP client: PyPI is asked, through the default client")
	for k := 0; k < 8; k++ {
		k := k
		t.Case(func() string { return fmt.Sprintf("defaults %03b", k) }, func(c *mc.C) {
			base := "https://pypi.org/simple/"
			s := &site{pages: map[string]page{}}
			old := http.DefaultTransport
			http.DefaultTransport = s
			defer func() { http.DefaultTransport = old }()
			cl := pep503.Client{}
			if k&1 != 0 {
				base = "http://idx/s/"
				cl.BaseURL = base
			}
			if k&2 != 0 {
				cl.HTTPClient = &http.Client{Transport: s}
			}
			if k&4 != 0 {
				cl.UserAgent = "me"
			}
			s.pages[base+"foo/"] = page{body: "<a href=\"f.whl#md5=" + sum(md5.New, "x") + "\">f.whl</a>"}
			s.pages[base+"foo/f.whl"] = page{body: "x"}
			for n := 0; n < 2; n++ {
				links, err := cl.ListPackageFiles(context.Background(), "Foo")
				if err != nil || len(links) != 1 {
					c.Failf("listing: %v, %v", links, err)
					return
				}
				if bs, err := links[0].Get(context.Background()); err != nil || string(bs) != "x" {
					c.Failf("content %q, %v", bs, err)
				}
			}
			c.Outcome(fmt.Sprint(k))
		})
	}

	t.Section("api-versions", "repository versions x markup x client kinds")
	forms := []string{`<html><head><meta name="pypi:repository-version" content="%s"></head><body><a href="f">f</a></body></html>`,
		`<META CONTENT='%s' NAME='pypi:repository-version'><a href="f">f</a>`,
		`<!DOCTYPE html><html><head><meta charset="utf-8"><meta name="generator" content="9.9"><meta content="%s" name="pypi:repository-version"/><title>x</title></head><body><a href="f">f</a></body></html>`,
		`<html><body><a href="f">f</a><meta name="pypi:repository-version" content="%s"></body></html>`}
	for _, v := range vers {
		for _, f := range forms {
			v, f := v, f
			t.Case(func() string { return v.v + " in " + f }, func(c *mc.C) {
				doc := fmt.Sprintf(f, v.v)
				if v.v == "-" {
					doc = strings.ReplaceAll(doc, "pypi:repository-version", "other")
				}
				s := &site{pages: map[string]page{"http://idx/simple/foo/": {body: doc}, "http://idx/simple/": {body: doc}}}
				cl := simple_repo_api.NewClient(nil, nil)
				cl.BaseURL = "http://idx/simple/"
				cl.HTTPClient = &http.Client{Transport: s}
				l, err := cl.ListPackageFiles(context.Background(), "foo")
				if (err == nil) != v.ok || v.ok && len(l) != 1 {
					c.Failf("files: %v, %v", l, err)
				}
				p, err := cl.ListPackages(context.Background())
				if (err == nil) != v.ok || v.ok && len(p) != 1 {
					c.Failf("projects: %v, %v", p, err)
				}
				c.Outcome(doc)
			})
		}
	}
}

func c17Signatures(t *mc.T) {
	t.Section("signatures", "data-gpg-sig values x status of the .asc companion x link forms x body faults")
	hrefs := []struct{ href, url string }{
		{"f.whl", "http://idx/simple/foo/f.whl"}, {"f.whl#sha256=" + sum(sha256.New, "wheel"), "http://idx/simple/foo/f.whl"},
		{"/p/f%2Bg.whl#md5=" + sum(md5.New, "wheel"), "http://idx/p/f%2Bg.whl"}, {"http://cdn/x/f.whl#egg=f", "http://cdn/x/f.whl"},
		{"f%20g.whl", "http://idx/simple/foo/f%20g.whl"},
	}
	for _, attr := range []string{"-", "true", "false", "maybe", ""} {
		for _, h := range hrefs {
			for _, st := range []int{200, 404, 403, 410, 500, 503} {
				for _, cut := range []bool{false, true} {
					attr, h, st, cut := attr, h, st, cut
					t.Case(func() string { return fmt.Sprint("gpg-sig=", attr, " ", h.href, " status ", st, " cut=", cut) }, func(c *mc.C) {
						a := ""
						if attr != "-" {
							a = ` data-gpg-sig="` + attr + `"`
						}
						asc := page{status: st, body: "signature"}
						if cut {
							asc.fail, asc.failAt = io.ErrUnexpectedEOF, 4
						}
						s := &site{pages: map[string]page{
							"http://idx/simple/foo/": {body: `<a href="` + h.href + `"` + a + `>f.whl</a>`},
							h.url:                    {body: "wheel"},
							h.url + ".asc":           asc,
						}}
						l, err := pep503.Client{BaseURL: "http://idx/simple/", HTTPClient: &http.Client{Transport: s}}.ListPackageFiles(context.Background(), "foo")
						if err != nil || len(l) != 1 {
							c.Failf("%v, %v", l, err)
							return
						}
						sig, err := l[0].GetSignature(context.Background())
						c.Outcome(fmt.Sprint(attr, st, cut))
						switch {
						case attr == "false":
							if !errors.Is(err, pep503.ErrNoSignature) {
								c.Failf("file without signature: got %q, %v", sig, err)
							}
						case st == 200 && !cut:
							if err != nil || string(sig) != "signature" {
								c.Failf("got %q, %v (requests %v)", sig, err, s.requests)
							}
						case err == nil:
							c.Failf("status %d, cut=%v: got %q without error", st, cut, sig)
						case attr != "true" && st == 404 && !cut:
							if !errors.Is(err, pep503.ErrNoSignature) {
								c.Failf("absent signature reported as %v", err)
							}
						case errors.Is(err, pep503.ErrNoSignature):
							c.Failf("status %d (cut=%v) is reported as an absent signature", st, cut)
						}
					})
				}
			}
		}
	}
}

// c17Command runs the real `ocibuild python getwheel` against a loopback server.
func c17Command(t *mc.T) {
	bin := os.Getenv("OCIBUILD")
	const name = "foo_Bar-1.0-py3-none-any.whl"
	wheel := "wheel content " + strings.Repeat("z", 5000)
	good := sum(sha256.New, wheel)
	type sc struct {
		desc, index, file string
		istatus, fstatus  int
		cut               int // bytes of the file sent out of the announced length
		want              bool
	}
	link := func(h, n string) string { return `<a href="` + h + `">` + n + `</a>` }
	scs := []sc{
		{"plain", link("../../f/"+name, name), wheel, 200, 200, -1, true},
		{"checksum", link("../../f/"+name+"#sha256="+good, name), wheel, 200, 200, -1, true},
		{"second link", link("x", "foo_Bar-1.1-py3-none-any.whl") + link("../../f/"+name+"#sha256="+good, name), wheel, 200, 200, -1, true},
		{"bad checksum", link("../../f/"+name+"#sha256="+strings.Repeat("0", 64), name), wheel, 200, 200, -1, false},
		{"tampered", link("../../f/"+name+"#sha256="+good, name), wheel[:100] + "!" + wheel[101:], 200, 200, -1, false},
		{"missing file", link("../../f/"+name, name), "not found", 200, 404, -1, false},
		{"server error", link("../../f/"+name, name), "oops", 200, 500, -1, false},
		{"forbidden", link("../../f/"+name, name), "oops", 200, 403, -1, false},
		{"no such project", "", wheel, 404, 200, -1, false},
		{"index error", link("../../f/"+name, name), wheel, 500, 200, -1, false},
		{"other wheel only", link("../../f/"+name, "foo_Bar-1.0-py2-none-any.whl"), wheel, 200, 200, -1, false},
		{"prefix of the name", link("../../f/"+name, "xfoo_Bar-1.0-py3-none-any.whl") + link("../../f/"+name, name+".asc"), wheel, 200, 200, -1, false},
		{"name in lower case first", link("../../f/other", strings.ToLower(name)) + link("../../f/"+name, name), wheel, 200, 200, -1, true},
		{"name in upper case first", link("../../f/other", strings.ToUpper(name)) + link("../../f/"+name+"#sha256="+good, name), wheel, 200, 200, -1, true},
		{"only in another case", link("../../f/"+name, strings.ToLower(name)), wheel, 200, 200, -1, false},
		{"name in another spelling first", link("../../f/other", "foo-bar-1.0-py3-none-any.whl") + link("../../f/other", "foo_Bar-1.0.0-py3-none-any.whl") + link("../../f/"+name, name), wheel, 200, 200, -1, true},
		{"other links first", link("../../f/other", name+".metadata") + link("../../f/other", name+".asc") + link("../../f/other", "x"+name) + link("../../f/other", "") + link("../../f/other", "foo_Bar-1.0.tar.gz") + link("../../f/"+name, name), wheel, 200, 200, -1, true},
		{"other links after", link("../../f/"+name, name) + link("../../f/other", name+".metadata") + link("../../f/other", strings.ToLower(name)) + link("../../f/other", "foo_Bar-1.0.tar.gz"), wheel, 200, 200, -1, true},
		{"api version 2", `<meta name="pypi:repository-version" content="2.0">` + link("../../f/"+name, name), wheel, 200, 200, -1, false},
		{"api version 1.3", `<meta name="pypi:repository-version" content="1.3">` + link("../../f/"+name, name), wheel, 200, 200, -1, true},
		{"cut at 0", link("../../f/"+name, name), wheel, 200, 200, 0, false},
		{"cut at 100", link("../../f/"+name, name), wheel, 200, 200, 100, false},
		{"cut one short", link("../../f/"+name, name), wheel, 200, 200, len(wheel) - 1, false},
	}
	t.Section("command", fmt.Sprintf("%d server behaviours x base URL forms x redirects against the real command", len(scs)))
	for _, s := range scs {
		for _, slash := range []bool{true, false} {
			for _, redir := range []bool{false, true} {
				s, slash, redir := s, slash, redir
				t.Case(func() string { return fmt.Sprint(s.desc, " slash=", slash, " redirect=", redir) }, func(c *mc.C) {
					ln, err := net.Listen("tcp", "127.0.0.1:0")
					if err != nil {
						panic(err)
					}
					var mu sync.Mutex
					srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						mu.Lock()
						defer mu.Unlock()
						p := r.URL.Path
						if redir && strings.HasPrefix(p, "/f/") {
							http.Redirect(w, r, "/g/"+p[3:], http.StatusFound)
							return
						}
						switch p {
						case "/simple/foo-bar":
							http.Redirect(w, r, "/simple/foo-bar/", http.StatusMovedPermanently)
						case "/simple/foo-bar/":
							w.WriteHeader(s.istatus)
							_, _ = io.WriteString(w, s.index)
						case "/f/" + name, "/g/" + name:
							w.Header().Set("Content-Length", fmt.Sprint(len(s.file)))
							w.WriteHeader(s.fstatus)
							if s.cut >= 0 {
								_, _ = io.WriteString(w, s.file[:s.cut])
								panic(http.ErrAbortHandler)
							}
							_, _ = io.WriteString(w, s.file)
						default:
							w.WriteHeader(404)
							_, _ = io.WriteString(w, "not found: "+p)
						}
					})}
					go func() { _ = srv.Serve(ln) }()
					defer srv.Close()
					base := "http://" + ln.Addr().String() + "/simple"
					if slash {
						base += "/"
					}
					cmd := exec.Command(bin, "python", "getwheel", "--index-server="+base, name)
					cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
					cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
					var out, errb strings.Builder
					cmd.Stdout, cmd.Stderr = &out, &errb
					err = cmd.Run()
					c.Outcome(s.desc)
					switch {
					case s.want && (err != nil || out.String() != wheel):
						c.Failf("%v, %d bytes of output: %s", err, out.Len(), errb.String())
					case !s.want && err == nil:
						c.Failf("succeeds, with %d bytes of output", out.Len())
					case !s.want && out.Len() > 0:
						c.Failf("fails, but has written %d bytes to its standard output", out.Len())
					}
				})
			}
		}
	}
}
