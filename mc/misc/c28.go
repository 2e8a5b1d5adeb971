package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/datawire/ocibuild/pkg/cliutil"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c28 = mc.Suite{
	ID:    "C28",
	Level: "model_checking",
	Rule: "all texts of up to 4 (5) words over word lengths x separators, for every combination of indents and widths; the help of every subcommand at every width; " +
		"the words, the line breaks, the widths and the indents of the result are compared with the input; non-trivial: the text is wrapped",
	Assumptions: []string{
		"words and single spaces, double spaces or line breaks between them; columns are characters, tabs and wide characters are not covered",
		"when fewer than 24 columns remain beside the indent, text is set as a block on the next line with an indent of 16, and when fewer than 24 remain there, it is not wrapped",
	},
	Body: runC28,
}

// breaks returns the words of s and the number of line breaks before each and at the end.
func breaks(s string) (words []string, nl []int) {
	n, w := 0, ""
	for _, r := range s + " " {
		switch r {
		case ' ', '\n', '\t':
			if w != "" {
				words, nl, n, w = append(words, w), append(nl, n), 0, ""
			}
			if r == '\n' {
				n++
			}
		default:
			w += string(r)
		}
	}
	return words, append(nl, n)
}

func c28check(c *mc.C, indent, width int, in string) (wrapped bool) {
	out := cliutil.WrapIndent(indent, width, in)
	if indent == 0 {
		if o2 := cliutil.Wrap(width, in); o2 != out {
			c.Failf("Wrap gives %q, WrapIndent %q", o2, out)
		}
	}
	c.Inner(1)
	fail := func(format string, args ...interface{}) {
		c.Failf("indent %d, width %d, text %q\n    gives %q\n    %s", indent, width, in, out, fmt.Sprintf(format, args...))
	}
	eff, block, nowrap := indent, false, false
	if width == 0 {
		nowrap = true
	} else if width-indent < 24 {
		eff = 16
		if width-eff < 24 {
			nowrap = true
		} else {
			block = true
		}
	}
	inW, inN := breaks(in)
	outW, outN := breaks(out)
	if !reflect.DeepEqual(inW, outW) {
		fail("the words differ")
		return false
	}
	for k, n := range inN {
		o := outN[k]
		if k == 0 && block {
			o--
		}
		if o != n && !(n == 0 && o == 1 && k > 0 && k < len(inW) && !nowrap) {
			fail("%d line breaks before word %d (of %d), want %d", outN[k], k, len(inW), n)
			return false
		}
		if o != n {
			wrapped = true
		}
	}
	for k, line := range strings.Split(out, "\n") {
		words := strings.Fields(line)
		if len(words) == 0 {
			continue
		}
		col := utf8.RuneCountInString(strings.TrimRight(line, " "))
		if k == 0 {
			col += indent
		} else if n := len(line) - len(strings.TrimLeft(line, " ")); n < eff || n > eff+1 {
			fail("line %d is indented by %d", k, n)
			return false
		}
		if !nowrap && col > width && len(words) > 1 {
			fail("line %d has %d columns", k, col)
			return false
		}
	}
	return wrapped
}

func runC28(t *mc.T) {
	ints, _ := t.Literals("pkg/cliutil")
	wordsOf := func(lens []int) []string {
		var r []string
		for _, n := range lens {
			r = append(r, strings.Repeat("abcdefghij", n/10+1)[:n-1]+"-")
		}
		return append(r, "ééééé", strings.Repeat("ü", 22))
	}
	dims := map[int]bool{}
	for _, d := range []int{0, 1, 2, 5, 15, 16, 17, 20, 23, 24, 25, 26, 28, 29, 30, 31, 39, 40, 41, 44, 45, 46, 50, 60, 79, 80, 81, 100} {
		dims[d] = true
	}
	for _, v := range ints {
		if v > 0 && v < 200 {
			dims[int(v)] = true
			dims[int(v)+1] = true
		}
	}
	var ds []int
	for d := range dims {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	seps := []string{" ", "  ", "\n", "\n\n"}
	build := func(ws []string, n int) []string {
		var texts []string
		var rec func(s string, left int)
		rec = func(s string, left int) {
			texts = append(texts, s)
			if left == 0 {
				return
			}
			for _, sep := range seps {
				for _, w := range ws {
					rec(s+sep+w, left-1)
				}
			}
		}
		texts = append(texts, "")
		for _, w := range ws {
			rec(w, n-1)
		}
		return texts
	}
	sweep := func(name string, texts []string, widths, indents []int) {
		t.Section(name, fmt.Sprintf("%d texts x %d widths x %d indents", len(texts), len(widths), len(indents)))
		for lo := 0; lo < len(texts); lo += 200 {
			lo := lo
			t.Case(func() string { return fmt.Sprintf("texts from number %d on (%q)", lo, texts[lo]) }, func(c *mc.C) {
				n := 0
				for k := lo; k < lo+200 && k < len(texts); k++ {
					for _, w := range widths {
						for _, i := range indents {
							if c28check(c, i, w, texts[k]) {
								n++
							}
							if c.Failed() {
								return
							}
						}
					}
				}
				c.Outcome(fmt.Sprint(name, lo))
				c.Count("wrapped", n)
			})
		}
	}
	all := func(lo, hi int) []int {
		var r []int
		for i := lo; i <= hi; i++ {
			r = append(r, i)
		}
		return r
	}
	sweep("short", build(wordsOf([]int{2, 9, 19, 24, 41}), 3), append([]int{-5}, ds...), []int{0, 1, 8, 16, 17, 23, 56, 60})
	sweep("dense", build(wordsOf([]int{3, 18, 25}), t.Pick(3, 4)), all(-1, 130), all(0, t.Pick(6, 40)))
	var long []string
	for _, l := range all(1, 40) {
		for _, m := range all(1, 40) {
			long = append(long, strings.TrimSpace(strings.Repeat("ab ", l))+" "+strings.Repeat("x", m)+" cd ef gh", strings.TrimSpace(strings.Repeat("abcd ", l))+"\n"+strings.Repeat("x", m)+" cd\n\nef gh ijklmnop", strings.Repeat("x", 2*m)+strings.Repeat(" abcde", l))
		}
	}
	sweep("long", long, ds, []int{0, 7, 20})
	if t.Thorough() {
		sweep("four", build(wordsOf([]int{2, 9, 19, 24, 41})[:5], 4), ds, []int{0, 8, 23, 60})
	}

	t.Section("help", "the help of every subcommand at every width from -1 to 200 and at unusual settings of COLUMNS")
	bin := os.Getenv("OCIBUILD")
	run := func(args []string, cols string) string {
		cmd := exec.Command(bin, append(args, "--help")...)
		cmd.Env = []string{"PATH=" + os.Getenv("PATH")}
		if cols != "unset" {
			cmd.Env = append(cmd.Env, "COLUMNS="+cols)
		}
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil || errb.Len() > 0 {
			return fmt.Sprintf("FAILED %v %s", err, errb.String())
		}
		return out.String()
	}
	// find the subcommands
	var cmds [][]string
	reCmds := regexp.MustCompile(`(?s)Available Commands:\n(.*?)\n\n`)
	var walk func(args []string)
	walk = func(args []string) {
		cmds = append(cmds, args)
		if m := reCmds.FindStringSubmatch(run(args, "0")); m != nil {
			for _, l := range strings.Split(m[1], "\n") {
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
					walk(append(append([]string{}, args...), strings.Fields(l)[0]))
				}
			}
		}
	}
	walk(nil)
	for _, args := range cmds {
		args := args
		t.Case(func() string { return fmt.Sprintf("help of %q at every width", args) }, func(c *mc.C) {
			want := run(args, "0")
			if strings.HasPrefix(want, "FAILED") {
				c.Failf("%s", want)
				return
			}
			cols := []string{"unset", "", "x", "12x", "100000"}
			for w := -1; w <= 200; w++ {
				if w < 45 || w%4 == 0 || t.Thorough() {
					cols = append(cols, fmt.Sprint(w))
				}
			}
			for _, w := range cols {
				got := run(args, w)
				if !reflect.DeepEqual(strings.Fields(got), strings.Fields(want)) {
					c.Failf("COLUMNS=%s: the words differ from those of the unwrapped text:\n%s", w, got)
					return
				}
				if (w == "unset" || w == "" || w == "x" || w == "12x") && got != want {
					c.Failf("COLUMNS=%s: the text is not the unwrapped one", w)
					return
				}
				c.Inner(1)
			}
			c.Outcome(fmt.Sprint(args))
		})
	}
}
