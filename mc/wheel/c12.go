package main

import (
	"archive/tar"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"syscall"

	"github.com/datawire/ocibuild/pkg/python/pypa/entry_points"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c12 = mc.Suite{
	ID:    "C12",
	Level: "model_checking",
	Rule: "all entry_points.txt files of up to 3 entries over alphabets of sections, names and object references (valid and invalid), " +
		"x layout variants x platforms; every generated script is checked entry by entry and executed by a real Python interpreter " +
		"against instrumented modules; non-trivial: the reference defines the outcome",
	Assumptions: []string{
		"not specified: identifiers that start with a digit, white space around the colon, non-ASCII identifiers, several extras lists, functions named sys or re (as with pip, the script itself uses those names)",
		"a name that occurs in both sections belongs to the graphical one",
	},
	Body: runC12,
}

const pyDriver = `
import sys, json, types
log = []
def mk(name):
    def f(*a, **k):
        log.append([name, len(a) + len(k)])
        return name
    return f
class NS: pass
def mod(name, attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    for a in attrs:
        parts = a.split('.')
        o = m
        for i, p in enumerate(parts):
            if i == len(parts) - 1:
                setattr(o, p, mk(name + ':' + a))
            else:
                if not hasattr(o, p):
                    setattr(o, p, NS())
                o = getattr(o, p)
    sys.modules[name] = m
    if '.' in name:
        setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
ATTRS = ['f', 'C.g', 'C.D.h', '_x1.f', 'sub', 'main', 'sys', 're']
for n in ['m', 'pkg', 'pkg.sub', 'pkg.sub.m', '_m1', 'f']:
    mod(n, [a for a in ATTRS if not (n == 'pkg' and a == 'sub')])
for line in sys.stdin:
    req = json.loads(line)
    log.clear()
    m, a = req['ref'].split(':')
    parts = m.split('.')
    for i in range(len(parts)):
        if '.'.join(parts[:i+1]) not in sys.modules:
            mod('.'.join(parts[:i+1]), [])
    o = sys.modules[m]
    for i, p in enumerate(a.split('.')):
        if not hasattr(o, p):
            setattr(o, p, mk(req['ref']) if i == a.count('.') else NS())
        o = getattr(o, p)
    sys.argv = list(req['argv'])
    try:
        code = compile(req['src'], 'script', 'exec')
        g = {'__name__': '__main__', '__builtins__': __builtins__}
        exec(code, g)
        r = ['end', None]
    except SystemExit as e:
        r = ['exit', e.code]
    except BaseException as e:
        r = ['error', repr(e)]
    import re
    sys.stdout.write(json.dumps({'kind': r[0], 'val': r[1], 'log': log, 'argv': sys.argv}) + '\n')
    sys.stdout.flush()
`

type pyResp struct {
	Kind string
	Val  interface{}
	Log  [][]interface{}
	Argv []string
}

type pyproc struct {
	cmd   *exec.Cmd
	in    *json.Encoder
	out   *json.Decoder
	cache map[string]pyResp
}

func startPy() *pyproc {
	cmd := exec.Command("python3", "-S", "-E", "-c", pyDriver)
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &pyproc{cmd: cmd, in: json.NewEncoder(w), out: json.NewDecoder(r), cache: map[string]pyResp{}}
}

func (p *pyproc) run(src, ref string) pyResp {
	if r, ok := p.cache[src]; ok {
		return r
	}
	if err := p.in.Encode(map[string]interface{}{"src": src, "ref": ref, "argv": []string{"/usr/bin/name", "arg"}}); err != nil {
		panic(err)
	}
	var r pyResp
	if err := p.out.Decode(&r); err != nil {
		panic(err)
	}
	p.cache[src] = r
	return r
}

var py *pyproc

type entry struct{ sec, key, val string }

var (
	reValid  = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*):([A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)(?:[ \t]*\[[^\[\]]*\])?$`)
	reUnspec = regexp.MustCompile(`^\w+(\.\w+)*\s*:\s*\w+(\.\w+)*(?:\s*\[[^\[\]]*\])?$|[^\x00-\x7f]|\].*\[|\[.*\[`)
)

type script struct {
	name, ref string
	gui       bool
}

// c12case installs a wheel with the given entry_points.txt and checks the scripts.
func c12case(c *mc.C, text string, entries []entry, pi int, shipped ...string) {
	plat := plats[pi]
	want := map[string]script{}
	bad, unspec := "", false
	all := map[entry]bool{}
	for _, e := range entries {
		if k := (entry{e.sec, e.key, ""}); all[k] {
			bad = "duplicate name " + e.key // not a valid INI file, in whatever section
		} else {
			all[k] = true
		}
	}
	for _, sec := range []string{"console_scripts", "gui_scripts"} {
		for _, e := range entries {
			if e.sec != sec {
				continue
			}
			m := reValid.FindStringSubmatch(e.val)
			switch {
			case !plainName(e.key):
				bad = fmt.Sprintf("name %q", e.key)
			case m != nil:
				want[e.key] = script{e.key, m[1] + ":" + m[2], sec == "gui_scripts"}
			case reUnspec.MatchString(e.val):
				unspec = true
			default:
				bad = fmt.Sprintf("reference %q", e.val)
			}
		}
	}
	files := []mem{file("p/a.py", "x"), file(info+"/entry_points.txt", text)}
	for _, n := range shipped {
		files = append(files, file(data+"/scripts/"+n, "#!/bin/sh\necho shipped\n"))
	}
	ms := full(files, "true")
	got, err := installReal(zipBytes(ms), plat, options{}, nil, entry_points.CreateScripts(plat))
	c.Transitions(1)
	switch {
	case bad != "":
		if err == nil {
			c.Failf("installed, although: %s", bad)
		}
		c.Outcome("refused " + bad)
		return
	case unspec:
		c.Trivial()
		return
	case err != nil:
		c.Failf("refused: %v", err)
		return
	}
	var out []string
	scripts := map[string]ltar.Ent{}
	sdir := cleanDir(plat.Scheme.Scripts)
	base := map[string]bool{}
	for _, n := range []string{"p/a.py", info + "/entry_points.txt", info + "/METADATA", info + "/WHEEL"} {
		base[join(cleanDir(plat.Scheme.PureLib), n)] = true
	}
	for _, n := range shipped {
		if _, ok := want[n]; !ok {
			base[join(sdir, n)] = true
		}
	}
	for _, e := range got {
		if e.Hdr.Typeflag == tar.TypeDir || base[e.Hdr.Name] {
			continue
		}
		if !strings.HasPrefix(e.Hdr.Name, sdir+"/") {
			c.Failf("unexpected file %q", e.Hdr.Name)
			continue
		}
		n := e.Hdr.Name[len(sdir)+1:]
		if _, ok := want[n]; !ok {
			c.Failf("unexpected script %q", n)
			continue
		}
		scripts[n] = e
	}
	console, gui := plat.ConsoleShebang, plat.GraphicalShebang
	if console == "" {
		console = gui
	}
	if gui == "" {
		gui = console
	}
	for n, w := range want {
		e, ok := scripts[n]
		if !ok {
			c.Failf("no script %q", n)
			continue
		}
		interp := console
		if w.gui {
			interp = gui
		}
		if e.Hdr.Typeflag != tar.TypeReg || e.Hdr.Mode != 0o755 || e.Hdr.Uid != plat.UID || e.Hdr.Gid != plat.GID {
			c.Failf("script %q: type %c mode %#o owner %d:%d", n, e.Hdr.Typeflag, e.Hdr.Mode, e.Hdr.Uid, e.Hdr.Gid)
		}
		if e.Hdr.ModTime.After(clampOf(ms, options{})) {
			c.Failf("script %q has time %v", n, e.Hdr.ModTime)
		}
		line := string(e.Body)
		if i := strings.Index(line, "\n"); i >= 0 {
			line = line[:i]
		}
		if line != "#!"+interp {
			c.Failf("script %q starts with %q, want %q", n, line, "#!"+interp)
		}
		if py == nil {
			py = startPy()
		}
		r := py.run(string(e.Body), w.ref)
		c.Count("scripts run by python", 1)
		if r.Kind != "exit" || fmt.Sprint(r.Val) != w.ref || len(r.Log) != 1 || fmt.Sprint(r.Log[0]) != fmt.Sprintf("[%s 0]", w.ref) {
			c.Failf("script %q for %s: %s %v, calls %v\n%s", n, w.ref, r.Kind, r.Val, r.Log, e.Body)
		}
		if len(r.Argv) != 2 || r.Argv[0] != "/usr/bin/name" || r.Argv[1] != "arg" {
			c.Failf("script %q changes the arguments to %q", n, r.Argv)
		}
		out = append(out, n+w.ref+interp)
	}
	c.Outcome(strings.Join(out, "|"))
}

func render(entries []entry, variant int) string {
	var sb strings.Builder
	cur := ""
	secs := []string{}
	for _, e := range entries {
		found := false
		for _, s := range secs {
			found = found || s == e.sec
		}
		if !found {
			secs = append(secs, e.sec)
		}
	}
	nl := "\n"
	if variant == 3 {
		nl = "\r\n"
	}
	for _, s := range secs {
		cur = s
		sb.WriteString("[" + cur + "]" + nl)
		if variant == 1 {
			sb.WriteString("# comment = x:y" + nl + "; other = x:y" + nl + nl)
		}
		for _, e := range entries {
			if e.sec != s {
				continue
			}
			switch variant {
			case 0, 3:
				sb.WriteString(e.key + " = " + e.val + nl)
			case 1:
				sb.WriteString(e.key + "=" + e.val + "  " + nl + nl)
			case 2:
				sb.WriteString(e.key + "\t=\t" + e.val + nl)
			}
		}
	}
	s := sb.String()
	if variant == 2 {
		s = strings.TrimSuffix(s, nl)
	}
	return s
}

func runC12(t *mc.T) {
	mods := []string{"m", "pkg.sub", "_m1", "pkg.sub.m", "f"}
	attrs := []string{"f", "C.g", "C.D.h", "_x1.f", "main", "sub"}
	var vals []string
	for _, m := range mods {
		for _, a := range attrs {
			vals = append(vals, m+":"+a)
		}
	}
	extras := []string{"", " [x]", "[x,y]", " []", "  [a, b]"}
	invalid := []string{
		"m", "m:", ":f", ":", "", "m:f:g", "m::f", "m.:f", ".m:f", "m..n:f", "m:f.", "m:.f", "m:f..g", "m:f()", "m:f x", "m f", "m:f; x", "m-x:f", "m:f-g", "m/x:f", "m:f]", "m:f[", "m:f [a", "m:f a]",
		"m:f [a]x", "m:f,n:g", "m:f\\", "m:f # c", "m:'f'", "*:f", "m:*", "m:f=1", "m:f[a]b", "[x]", "m[x]:f", "m:f!", "m.f", "import os", "m:f\n x", "m:f\n [x]", "m:f@x", "m:f+1", "m:(f)", "m,n:f",
		"1m:f", "m:1f", "m : f", "m: f", "m :f", "é:f", "m:é", "m:f [a][b]", "m:f [a] [b]", "m.1:f",
	}
	secs := []string{"console_scripts", "gui_scripts"}
	other := []string{"gui-scripts", "Console_Scripts", "CONSOLE_SCRIPTS", "console_scripts ", " console_scripts", "console_script", "x.console_scripts", "distutils.commands", "scripts", "options.entry_points"}
	keys := []string{"a", "B", "name-1", "a.b", "a b", "x.py", "_", "-x", "a:b", "é", "..a", "a+b", "%s", "{{.Func}}", "a\\b", "A"}
	run := func(entries []entry, variant, pi int) {
		if !t.Mine() {
			return
		}
		text := render(entries, variant)
		es := append([]entry(nil), entries...)
		t.Run(func() string { return fmt.Sprintf("scheme=%d %q", pi, text) }, func(c *mc.C) { c12case(c, text, es, pi) })
	}
	t.Section("values", fmt.Sprintf("%d modules x %d attributes x %d extras x 2 sections x 4 layouts x %d platforms", len(mods), len(attrs), len(extras), len(plats)))
	for _, v := range vals {
		for _, x := range extras {
			for _, s := range secs {
				for variant := 0; variant < 4; variant++ {
					for pi := range plats {
						run([]entry{{s, "a", v + x}}, variant, pi)
					}
				}
			}
		}
	}
	t.Section("invalid", fmt.Sprintf("%d malformed references x 2 sections x 4 layouts, alone, before and after a valid one", len(invalid)))
	for _, v := range invalid {
		for _, s := range secs {
			for variant := 0; variant < 4; variant++ {
				run([]entry{{s, "a", v}}, variant, 0)
				run([]entry{{s, "a", v}, {s, "b", "m:f"}}, variant, 0)
				run([]entry{{s, "b", "m:f"}, {s, "a", v}}, variant, 0)
				run([]entry{{"console_scripts", "b", "m:f"}, {s, "a", v}, {"gui_scripts", "c", "m:f"}}, variant, 0)
				run([]entry{{other[0], "a", v}, {s, "b", "m:f"}}, variant, 0)
			}
		}
	}
	t.Section("names", fmt.Sprintf("all pairs of %d names x 2x2 sections x 4 layouts", len(keys)))
	for _, k := range keys {
		for _, k2 := range keys {
			for _, s := range secs {
				for _, s2 := range secs {
					for variant := 0; variant < 4; variant++ {
						run([]entry{{s, k, "m:f"}, {s2, k2, "pkg.sub:C.g"}}, variant, 0)
					}
				}
			}
		}
	}
	t.Section("sections", fmt.Sprintf("%d other sections and their combinations with the real ones", len(other)))
	for _, o := range other {
		for variant := 0; variant < 4; variant++ {
			for pi := range plats {
				run([]entry{{o, "x", "m:f"}}, variant, pi)
				for _, s := range secs {
					run([]entry{{o, "x", "m:f"}, {s, "a", "m:C.g"}}, variant, pi)
					run([]entry{{s, "a", "m:C.g"}, {o, "x", "m:f"}}, variant, pi)
					run([]entry{{s, "a", "m:C.g"}, {o, "a", "m:f"}, {o, "x", "not a reference"}}, variant, pi)
				}
			}
		}
	}
	es := []entry{}
	for i, k := range []string{"a", "b", "A"} {
		for j, v := range []string{"m:f", "m:C.g", "pkg.sub:main", "bad"} {
			for _, s := range []string{"console_scripts", "gui_scripts", "other"} {
				_, _ = i, j
				es = append(es, entry{s, k, v})
			}
		}
	}
	t.Section("triples", fmt.Sprintf("all ordered triples of %d entries", len(es)))
	for _, a := range es {
		for _, b := range es {
			for _, d := range es {
				if d == a || d == b || a == b {
					continue
				}
				run([]entry{a, b, d}, 0, 0)
			}
		}
	}
	if t.Thorough() {
		t.Section("quads", fmt.Sprintf("all ordered quadruples of %d entries", len(es)))
		for _, a := range es {
			for _, b := range es {
				for _, d := range es {
					for _, e := range es {
						run([]entry{a, b, d, e}, 0, 0)
					}
				}
			}
		}
	}
	t.Section("shipped", "all sets of up to 4 of 6 entries x all sets of 3 names that the wheel also ships as scripts x platforms")
	six := []entry{{"console_scripts", "a", "m:f"}, {"console_scripts", "b", "m:g"}, {"console_scripts", "a.py", "m:h"}, {"gui_scripts", "a", "n:f"}, {"gui_scripts", "b", "n:g"}, {"gui_scripts", "a.py", "n:h"}}
	for mask := 0; mask < 1<<6; mask++ {
		var es []entry
		for i, e := range six {
			if mask&(1<<i) != 0 {
				es = append(es, e)
			}
		}
		if len(es) > 4 {
			continue
		}
		for ship := 0; ship < 8; ship++ {
			var names []string
			for i, n := range []string{"a", "b", "a.py"} {
				if ship&(1<<i) != 0 {
					names = append(names, n)
				}
			}
			for pi := range plats {
				es, names, pi := es, names, pi
				t.Case(func() string { return fmt.Sprintf("scheme=%d %v shipped %v", pi, es, names) }, func(c *mc.C) { c12case(c, render(es, 0), es, pi, names...) })
			}
		}
	}
	c12lengths(t)
	c12words(t)
	t.Section("none", "no entry_points.txt, or an empty one")
	for _, text := range []string{"-", "", "\n", "# x\n", "[console_scripts]\n", "[console_scripts]", "[gui_scripts]\n[console_scripts]\n"} {
		text := text
		t.Case(func() string { return fmt.Sprintf("%q", text) }, func(c *mc.C) {
			if text != "-" {
				c12case(c, text, nil, 0)
				return
			}
			ms := full([]mem{file("p/a.py", "x")}, "true")
			got, err := installReal(zipBytes(ms), plats[0], options{}, nil, entry_points.CreateScripts(plats[0]))
			if err != nil {
				c.Failf("refused: %v", err)
			}
			for _, e := range got {
				if strings.HasPrefix(e.Hdr.Name, "usr/bin") {
					c.Failf("unexpected %q", e.Hdr.Name)
				}
			}
			c.Outcome("none")
		})
	}
	t.Section("malformed", "entry_points.txt files that are not INI files")
	for _, text := range []string{"a = m:f\n", "[console_scripts]\na\n", "[console_scripts]\na = m:f\na = m:f\n", "[console_scripts]\na = m:f\n[console_scripts]\nb = m:f\n", "junk"} {
		text := text
		t.Case(func() string { return fmt.Sprintf("%q", text) }, func(c *mc.C) {
			ms := full([]mem{file("p/a.py", "x"), file(info+"/entry_points.txt", text)}, "true")
			if _, err := installReal(zipBytes(ms), plats[0], options{}, nil, entry_points.CreateScripts(plats[0])); err == nil {
				c.Failf("accepted")
			}
			c.Outcome("malformed")
		})
	}
	if py != nil {
		_ = py.cmd.Process.Kill()
		_ = py.cmd.Wait()
	}
}
