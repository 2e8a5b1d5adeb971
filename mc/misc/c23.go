package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c23 = mc.Suite{
	ID:    "C23",
	Level: "model_checking",
	Rule: "all texts of up to 4 (5) lines over an alphabet of lines, and all texts of up to 7 (8) characters inside of and outside of a section, for several option sets; " +
		"accepted or not, sections, keys and values compared with Python's configparser; non-trivial: the text is accepted",
	Assumptions: []string{
		"texts without NUL and other control characters (other than tab, CR LF, form feed) and without lone CR; keys whose lower case is simple",
		"where the order in which Python 3.12 looks for several inline comment prefixes matters, either answer is accepted",
		"a result may or may not list the DEFAULT section itself",
	},
	Body: runC23,
}

type c23opts struct {
	name       string
	delims     []string
	comments   []string
	inline     []string
	strict     bool
	empty      bool
	keepCase   bool
	nodefaults bool
}

var c23sets = []c23opts{
	{name: "default", delims: []string{"=", ":"}, comments: []string{"#", ";"}, strict: true, empty: true},
	{name: "entry points", delims: []string{"="}, comments: []string{"#", ";"}, strict: true, empty: true, keepCase: true},
	{name: "inline", delims: []string{"=", ":"}, comments: []string{"#", ";"}, inline: []string{"#", ";"}, strict: true, empty: true},
	{name: "inline only, lenient", delims: []string{"=", ":"}, inline: []string{"#"}, empty: true},
	{name: "no empty lines", delims: []string{"=", ":"}, comments: []string{"#", ";"}, strict: true},
	{name: "lenient, no empty lines, inline", delims: []string{":"}, comments: []string{";"}, inline: []string{"#"}},
}

func (o c23opts) parser() *python.ConfigParser {
	p := python.NewConfigParser()
	if o.name == "default" {
		return p
	}
	p.Delimiters, p.CommentPrefixes, p.InlineCommentPrefixes = o.delims, o.comments, o.inline
	p.Strict, p.EmptyLinesInValues = o.strict, o.empty
	if o.keepCase {
		p.OptionTransform = func(s string) string { return s }
	}
	return p
}

const c23script = `
import sys, configparser
o = [bytes.fromhex(x).decode() for x in sys.argv[1].split(",")]
lst = lambda s: tuple(s.split("\x01")) if s else ()
delims, comments, inline = lst(o[0]), lst(o[1]), lst(o[2])
strict, empty, keep = o[3] == "1", o[4] == "1", o[5] == "1"
out = []
for line in sys.stdin:
    t = bytes.fromhex(line.strip()).decode("utf-8")
    cp = configparser.ConfigParser(delimiters=delims, comment_prefixes=comments, inline_comment_prefixes=inline,
        strict=strict, empty_lines_in_values=empty, interpolation=None)
    if keep: cp.optionxform = str
    try:
        cp.read_string(t)
    except configparser.Error as e:
        out.append("E")
        continue
    r = []
    for s in cp.sections():
        r.append("\x04".join([s] + sorted(k + "\x01" + v for k, v in cp.items(s))))
    out.append("ok\x06" + "\x06".join(sorted(r)))
sys.stdout.write("\n".join(x.encode().hex() for x in out) + "\n")
`

func (o c23opts) python(texts []string) []string {
	b := map[bool]string{true: "1", false: "0"}
	args := []string{strings.Join(o.delims, "\x01"), strings.Join(o.comments, "\x01"), strings.Join(o.inline, "\x01"), b[o.strict], b[o.empty], b[o.keepCase]}
	for i, a := range args {
		args[i] = hex.EncodeToString([]byte(a))
	}
	var in strings.Builder
	for _, t := range texts {
		in.WriteString(hex.EncodeToString([]byte(t)) + "\n")
	}
	res := strings.Split(strings.TrimSuffix(pythonOutput(strings.Replace(c23script, "sys.argv[1]", "\""+strings.Join(args, ",")+"\"", 1), in.String()), "\n"), "\n")
	if len(res) != len(texts) {
		panic("python3: wrong number of answers")
	}
	for i, r := range res {
		d, err := hex.DecodeString(r)
		if err != nil {
			panic(err)
		}
		res[i] = string(d)
	}
	return res
}

func c23canon(cfg python.Config, err error) string {
	if err != nil {
		return "E"
	}
	var r []string
	for s, kv := range cfg {
		if s == "DEFAULT" {
			continue
		}
		var l []string
		for k, v := range kv {
			l = append(l, k+"\x01"+v)
		}
		sort.Strings(l)
		r = append(r, strings.Join(append([]string{s}, l...), "\x04"))
	}
	sort.Strings(r)
	return "ok\x06" + strings.Join(r, "\x06")
}

// ambiguous reports whether the inline comment of some line depends on the order of the search.
func (o c23opts) ambiguous(text string) bool {
	if len(o.inline) < 2 {
		return false
	}
	for _, line := range strings.Split(text, "\n") {
		earliest, rounds := -1, -1
		bestRound := 1 << 30
		for _, p := range o.inline {
			at, n := 0, 0
			for {
				i := strings.Index(line[at:], p)
				if i < 0 {
					break
				}
				i += at
				if i == 0 || strings.ContainsAny(line[i-1:i], " \t\f") {
					if earliest < 0 || i < earliest {
						earliest = i
					}
					if n < bestRound || n == bestRound && i < rounds {
						bestRound, rounds = n, i
					}
					break
				}
				at, n = i+1, n+1
			}
		}
		if earliest != rounds {
			return true
		}
	}
	return false
}

func (o c23opts) check(c *mc.C, texts []string) {
	const chunk = 60000
	for len(texts) > 0 {
		n := len(texts)
		if n > chunk {
			n = chunk
		}
		want := o.python(texts[:n])
		p := o.parser()
		ok := 0
		for i, t := range texts[:n] {
			got := c23canon(p.Parse(strings.NewReader(t)))
			if got != want[i] && !o.ambiguous(t) {
				c.Failf("option set %q, text %q\n    parsed as %q\n    by Python %q", o.name, t, got, want[i])
			}
			if want[i] != "E" {
				ok++
			}
			c.AddOutcome(want[i])
			if c.Failed() {
				return
			}
		}
		c.Inner(n)
		c.Count("accepted", ok)
		texts = texts[n:]
	}
}

func runC23(t *mc.T) {
	lines := []string{
		"[s]", "[s2]", "[DEFAULT]", "[]", "[s] x", " [s3]", "[s", "[ s4 ] ]",
		"k=v", "k : w", "K=V=W", "k2 = a#b ;c", "k2=x # c ; d", " k3=v3", "  c1", "    c2 = d", "=e", "noval", "k4=", "[x]=y",
		"", "  ", "# c", "  ; c", " # k=v", "\tt = u", "k5=v\r", "\u00a0n=b",
	}
	if t.Thorough() {
		lines = append(lines, "   [s5]", "k6==:", "é = É", "É=1", "k7 = \"q\"  ", "#", "k:#", "k8 = ;", "\f x")
	}
	n := 3
	for _, o := range c23sets {
		o := o
		t.Section("lines/"+o.name, fmt.Sprintf("all texts of a section header and up to %d of %d lines, and all texts of 4 lines that begin with two of the first 16", n, len(lines)))
		for i, a := range lines {
			a := a
			i := i
			for _, half := range []int{0, 1} {
				half := half
				t.Case(func() string { return fmt.Sprintf("first line %q, half %d", a, half) }, func(c *mc.C) {
					var texts []string
					add := func(s string) { texts = append(texts, s, "[s0]\n"+s) }
					if half == 0 {
						add(a)
						add(a + "\n")
					}
					for j, b := range lines {
						if j%2 != half {
							continue
						}
						add(a + "\n" + b)
						for _, d := range lines {
							add(a + "\n" + b + "\n" + d)
							if i < 16 && j < 16 || t.Thorough() {
								for k, e := range lines {
									if k%3 == 0 || t.Thorough() {
										texts = append(texts, "[s0]\nz=y\n"+a+"\n"+b+"\n"+d+"\n"+e+"\n")
									}
								}
							}
						}
					}
					o.check(c, texts)
					c.Outcome(fmt.Sprint(o.name, i, half))
				})
			}
		}
	}

	chars := []string{"a", "[", "]", "=", ":", "#", ";", " ", "\n", "B"}
	max := t.Pick(4, 5)
	for _, o := range c23sets {
		o := o
		t.Section("characters/"+o.name, fmt.Sprintf("all texts of up to %d of %d characters, at the start, in a section, after a key, and inside of a value", max+1, len(chars)))
		for _, a := range chars {
			a := a
			t.Case(func() string { return fmt.Sprintf("texts that begin with %q", a) }, func(c *mc.C) {
				var texts []string
				var rec func(s string, left int)
				rec = func(s string, left int) {
					texts = append(texts, "[s]\n"+s)
					if left > 0 {
						texts = append(texts, s, "[s]\nk=v"+s, "[s]\n k = v\n "+s+"\n  x")
					}
					if left == 0 {
						return
					}
					for _, x := range chars {
						rec(s+x, left-1)
					}
				}
				rec(a, max)
				o.check(c, texts)
				c.Outcome(o.name + a)
			})
		}
	}

	short := []string{"[DEFAULT]", "[s]", "[t]", "k=v", "k=", "j=w", " c", "# d"}
	long := t.Pick(6, 7)
	for _, o := range []c23opts{c23sets[0], c23sets[1], c23sets[5]} {
		o := o
		if o.delims[0] == ":" {
			o.delims = []string{"="}
			o.name = "lenient, no empty lines"
		}
		t.Section("sections/"+o.name, fmt.Sprintf("all texts of up to %d of %d lines, with the default section", long, len(short)))
		for _, a := range short {
			for _, b := range short {
				a, b := a, b
				t.Case(func() string { return fmt.Sprintf("texts that begin with %q, %q", a, b) }, func(c *mc.C) {
					var texts []string
					var rec func(s string, left int)
					rec = func(s string, left int) {
						texts = append(texts, s)
						if left > 0 {
							for _, x := range short {
								rec(s+x+"\n", left-1)
							}
						}
					}
					rec(a+"\n"+b+"\n", long-2)
					o.check(c, texts)
					c.Outcome(o.name + a + b)
				})
			}
		}
	}

	c23lengths(t)
	c23words(t)

	t.Section("faults", "a read error at every offset of a text, at every size of reads")
	text := "[s]\nk = v\n  c\n# d\n[t]\nx=1"
	for at := 0; at <= len(text); at++ {
		at := at
		t.Case(func() string { return fmt.Sprintf("offset %d", at) }, func(c *mc.C) {
			boom := errors.New("injected fault")
			p := c23sets[0].parser()
			for _, e := range []error{boom, io.ErrUnexpectedEOF} {
				r := io.MultiReader(strings.NewReader(text[:at]), iotest.ErrReader(e))
				if _, err := p.Parse(r); err == nil {
					c.Failf("read error %v after %q is not reported", e, text[:at])
				}
				r = iotest.OneByteReader(io.MultiReader(strings.NewReader(text[:at]), iotest.ErrReader(e)))
				if _, err := p.Parse(r); err == nil {
					c.Failf("read error %v after %q is not reported", e, text[:at])
				}
			}
			whole := c23canon(p.Parse(strings.NewReader(text[:at])))
			if got := c23canon(p.Parse(iotest.OneByteReader(strings.NewReader(text[:at])))); got != whole {
				c.Failf("byte by byte: %q, at once: %q", got, whole)
			}
			if got := c23canon(p.Parse(iotest.DataErrReader(strings.NewReader(text[:at])))); got != whole {
				c.Failf("end together with data: %q, otherwise: %q", got, whole)
			}
			c.Inner(6)
			c.Outcome(fmt.Sprint(at))
		})
	}
}
