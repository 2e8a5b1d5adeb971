package main

import (
	"archive/tar"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pep376"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c10 = mc.Suite{
	ID:    "C10",
	Level: "model_checking",
	Rule: "all wheels of up to 2 members of the C09 alphabet, x install schemes x hash algorithms x REQUESTED/direct_url/entry point/" +
		"compilation options; RECORD of the produced layer is parsed by an independent strict parser and compared line by line with " +
		"the entries of that same layer; non-trivial: the wheel is installable",
	Assumptions: []string{
		"names without CR and LF",
		"a compiled file shipped inside the wheel may be listed with or without hash; one at the path of a generated one is not specified",
	},
	Body: runC10,
}

// parseCSV is a strict RFC 4180 parser (CRLF or LF line ends).
func parseCSV(s string) ([][]string, error) {
	var rows [][]string
	for len(s) > 0 {
		var r []string
		for {
			var f string
			if strings.HasPrefix(s, `"`) {
				s = s[1:]
				for {
					i := strings.Index(s, `"`)
					if i < 0 {
						return nil, errors.New("unterminated quote")
					}
					f += s[:i]
					s = s[i+1:]
					if strings.HasPrefix(s, `"`) {
						f += `"`
						s = s[1:]
						continue
					}
					break
				}
			} else {
				i := strings.IndexAny(s, ",\r\n\"")
				if i < 0 {
					return nil, errors.New("no line end")
				}
				if s[i] == '"' {
					return nil, errors.New("quote inside of an unquoted field")
				}
				f = s[:i]
				s = s[i:]
			}
			r = append(r, f)
			if strings.HasPrefix(s, ",") {
				s = s[1:]
				continue
			}
			break
		}
		switch {
		case strings.HasPrefix(s, "\r\n"):
			s = s[2:]
		case strings.HasPrefix(s, "\n"):
			s = s[1:]
		default:
			return nil, fmt.Errorf("garbage after field: %.20q", s)
		}
		rows = append(rows, r)
	}
	return rows, nil
}

// resolve resolves a path relative to a directory of the layer.
func resolve(dir, rel string) (string, error) {
	if strings.HasPrefix(rel, "/") || rel == "" {
		return "", errors.New("not a relative path")
	}
	var comps []string
	if dir != "" {
		comps = strings.Split(dir, "/")
	}
	for _, c := range strings.Split(rel, "/") {
		switch c {
		case "", ".":
			return "", errors.New("unclean path")
		case "..":
			if len(comps) == 0 {
				return "", errors.New("leads out of the root")
			}
			comps = comps[:len(comps)-1]
		default:
			comps = append(comps, c)
		}
	}
	return strings.Join(comps, "/"), nil
}

type c10opts struct {
	hash      string
	installer string
	requested *string
	url       *direct_url.DirectURL
	compile   bool
	command   bool // through the command
}

func (o c10opts) hook(plat python.Platform) bdist.PostInstallHook {
	hooks := []bdist.PostInstallHook{entry_points.CreateScripts(plat)}
	if o.requested != nil {
		hooks = append(hooks, pep376.RecordRequested(*o.requested))
	}
	hooks = append(hooks, recording_installs.Record(o.hash, o.installer, o.url))
	return bdist.PostInstallHooks(hooks...)
}

func checkRecord(c *mc.C, ms []mem, purelib string, plat python.Platform, o c10opts) {
	opts := options{compile: o.compile}
	want, werr := func() (map[string]*exp, error) {
		if err := verify(ms, records(ms, "sha256")); err != nil {
			return nil, err
		}
		w, err := install(ms, plat, opts)
		if err != nil {
			return nil, err
		}
		return w, parents(w)
	}()
	if werr != nil {
		c.Trivial()
		return
	}
	var fc *fakeCompiler
	if o.compile {
		fc = &fakeCompiler{}
	}
	var got []ltar.Ent
	var err error
	if o.command {
		got, err = installCommand(zipBytes(ms), plat)
	} else {
		got, err = installReal(zipBytes(ms), plat, opts, fc, o.hook(plat))
	}
	c.Transitions(1)
	bad := o.hash == "blake2b" || o.hash == "nonsense" || o.hash == "SHA256"
	if bad {
		if err == nil {
			c.Failf("unknown hash algorithm %q accepted", o.hash)
		}
		c.Outcome("badhash")
		return
	}
	if err != nil {
		c.Failf("refused: %v", err)
		return
	}
	site := cleanDir(plat.Scheme.PlatLib)
	if purelib == "true" {
		site = cleanDir(plat.Scheme.PureLib)
	}
	files := map[string]ltar.Ent{}
	for _, e := range got {
		if e.Hdr.Typeflag != tar.TypeDir {
			if _, dup := files[e.Hdr.Name]; dup {
				c.Failf("%q twice in the layer", e.Hdr.Name)
			}
			files[e.Hdr.Name] = e
		}
	}
	for name, w := range want {
		if _, ok := files[name]; !ok && !w.dir {
			c.Failf("%q is missing from the layer", name)
		}
	}
	idir := join(site, info)
	rec, ok := files[idir+"/RECORD"]
	if !ok {
		c.Failf("no RECORD in the layer")
		return
	}
	rows, err := parseCSV(string(rec.Body))
	if err != nil {
		c.Failf("RECORD is not well-formed: %v\n%s", err, rec.Body)
		return
	}
	algo := o.hash
	if algo == "" {
		algo = "sha256"
	}
	listed := map[string]bool{}
	var names []string
	for _, r := range rows {
		if len(r) != 3 {
			c.Failf("RECORD line %q", r)
			continue
		}
		names = append(names, r[0])
		full, err := resolve(site, r[0])
		if err != nil {
			c.Failf("RECORD line %q: %v", r, err)
			continue
		}
		if listed[full] {
			c.Failf("%q listed twice in RECORD", full)
		}
		listed[full] = true
		e, ok := files[full]
		if !ok {
			c.Failf("RECORD lists %q, which is not installed", full)
			continue
		}
		w := want[full]
		content := string(e.Body)
		if w != nil && w.isOrig {
			content = w.orig
		}
		switch {
		case full == idir+"/RECORD":
			if r[1] != "" || r[2] != "" {
				c.Failf("RECORD describes itself as %q", r)
			}
		case w != nil && w.pyc:
			if r[1] != "" || r[2] != "" {
				c.Failf("compiled file recorded as %q", r)
			}
		case strings.HasSuffix(full, ".pyc") && r[1] == "" && r[2] == "":
		default:
			a := algo
			if w != nil && w.isOrig {
				a = strings.SplitN(r[1], "=", 2)[0]
				if hashes[a] == nil || (a != algo && a != "sha256") {
					c.Failf("recorded hash %q", r)
					continue
				}
			}
			if h := a + "=" + digest(a, content); r[1] != h {
				c.Failf("recorded hash %q, want %s", r, h)
			}
			if s := fmt.Sprint(len(content)); r[2] != s {
				c.Failf("recorded size %q, want %s", r, s)
			}
		}
	}
	for name := range files {
		if !listed[name] {
			c.Failf("%q is installed but not in RECORD", name)
		}
	}
	if !sort.StringsAreSorted(names) {
		c.Failf("RECORD is not sorted: %q", names)
	}
	expectFile := func(name, content string) {
		if e, ok := files[idir+"/"+name]; !ok || string(e.Body) != content {
			c.Failf("%s is %q, want %q", name, e.Body, content)
		} else if e.Hdr.Mode != 0o644 {
			c.Failf("%s has mode %#o", name, e.Hdr.Mode)
		}
	}
	expectFile("INSTALLER", o.installer+"\n")
	if o.requested != nil {
		w := *o.requested
		if w != "" {
			w += "\n"
		}
		expectFile("REQUESTED", w)
	}
	if o.url != nil {
		e, ok := files[idir+"/direct_url.json"]
		var gotURL direct_url.DirectURL
		if !ok {
			c.Failf("no direct_url.json")
		} else if err := json.Unmarshal(e.Body, &gotURL); err != nil || !reflect.DeepEqual(gotURL, *o.url) {
			c.Failf("direct_url.json is %q (%v)", e.Body, err)
		}
	}
	c.Outcome(string(rec.Body))
}

func runC10(t *mc.T) {
	str := func(s string) *string { return &s }
	ep := file(info+"/entry_points.txt", "[console_scripts]\nrun = p:f\nother-name = p.q:C.f [x]\n[gui_scripts]\ngui = p:g\n")
	var algos = []string{"", "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "nonsense", "SHA256"}
	var os []c10opts
	for i, a := range algos {
		o := c10opts{hash: a, installer: "ocibuild layer wheel", compile: i%2 == 0}
		switch i % 3 {
		case 1:
			o.requested = str("")
		case 2:
			o.requested = str("# by me")
		}
		if i%4 == 1 {
			o.url = &direct_url.DirectURL{URL: "https://e.org/x.whl", ArchiveInfo: &direct_url.ArchiveInfo{Hash: "sha256=abc"}}
		}
		os = append(os, o)
	}
	os = append(os, c10opts{hash: "sha256", installer: "", compile: true, requested: str(""), url: &direct_url.DirectURL{URL: "file:///x", DirInfo: &direct_url.DirInfo{Editable: true}}},
		c10opts{hash: "sha256", installer: "pip\nx", compile: true, url: &direct_url.DirectURL{URL: "git+https://x", VCSInfo: &direct_url.VCSInfo{VCS: "git", CommitID: "c"}}})
	alpha := memberAlphabet()
	alpha = append(alpha,
		ep,
		file(info+"/INSTALLER", "shipped"), file(info+"/REQUESTED", "shipped"), file(info+"/direct_url.json", "{}"),
		file(`p/"q"`, "quoted"), file(`p/a,b`, "comma"), file(` lead`, "space"), file(`p/trail `, "space"), file(`"`, "quote"), file(`p/\.`, "backslash dot"),
		file(`\.`, "backslash dot"), file("#hash", "hash"), file("-dash", "dash"), file("p/'", "apos"), file("p/\ttab", "tab"), file("p/;=", "semi"),
		file("~home", "x"), file("p/é", "x"), file("Z", "x"), file("a", "x"), file("..a", "dots"), file("...", "dots"),
	)
	for _, b := range scriptBodies {
		alpha = append(alpha, file(data+"/scripts/s", b))
	}
	lits := literalMembers(t)
	run := func(ms []mem, purelib string, pi int, o c10opts, order bool) {
		if !t.Mine() {
			return
		}
		t.Run(func() string {
			return fmt.Sprintf("purelib=%s scheme=%d %+v: %s", purelib, pi, o, memString(ms))
		}, func(c *mc.C) {
			w := full(ms, purelib)
			if order {
				for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
					w[i], w[j] = w[j], w[i]
				}
			}
			checkRecord(c, w, purelib, plats[pi], o)
		})
	}
	t.Section("one", fmt.Sprintf("each of %d members (of the alphabet and from the literals of the code) x 2 x %d schemes x %d option sets, with entry points", len(alpha)+len(lits), len(plats), len(os)))
	for i, m := range append(append([]mem(nil), alpha...), lits...) {
		for _, pl := range []string{"true", "false"} {
			for pi := range plats {
				for oi, o := range os {
					if i >= len(alpha) && !t.Thorough() && oi%4 != (i+pi)%4 {
						continue
					}
					if m.name == ep.name {
						run([]mem{m}, pl, pi, o, false)
					} else {
						run([]mem{m, ep}, pl, pi, o, true)
					}
				}
			}
		}
	}
	t.Section("two", fmt.Sprintf("all pairs of %d members, library and scheme rotating (all libraries when thorough)", len(alpha)))
	for i := range alpha {
		for j := i + 1; j < len(alpha); j++ {
			if alpha[i].name == alpha[j].name {
				continue
			}
			for k, pl := range []string{"true", "false"} {
				if !t.Thorough() && k != (i*7+j)%2 {
					continue
				}
				run([]mem{alpha[i], alpha[j]}, pl, (i+j)%4, os[(i+j)%7], i%2 == 0)
			}
		}
	}
	c10lengths(t, ep)
	c10words(t, ep)
	c10command(t, alpha, ep)
	t.Section("big", "files around buffer sizes, stored and deflated, x hash algorithms")
	for _, n := range []int{0, 1, 511, 512, 513, 4095, 4096, 32767, 32768, 32769, 65537, 1 << 20} {
		for _, a := range algos[:7] {
			for _, d := range []bool{false, true} {
				run([]mem{{name: "p/big", data: strings.Repeat("0123456789abcdef", n/16+1)[:n], attrs: ifreg | 0o644<<16, creator: 3, deflate: d},
					{name: data + "/scripts/big", data: "#!python\n" + strings.Repeat("x", n), attrs: ifreg | 0o644<<16, creator: 3, deflate: d}},
					"true", 0, c10opts{hash: a, installer: "i"}, false)
			}
		}
	}
	if t.Thorough() {
		t.Section("three", "all triples of the alphabet")
		for i := range alpha {
			for j := i + 1; j < len(alpha); j++ {
				for k := j + 1; k < len(alpha); k++ {
					run([]mem{alpha[i], alpha[j], alpha[k]}, []string{"true", "false"}[(i+j+k)%2], (i+j+k)%4, os[(i+k)%7], i%2 == 0)
				}
			}
		}
	}
}
