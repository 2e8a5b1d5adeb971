package main

import (
	"strings"
)

// rv is the reference representation of a version: numbers are decimal strings without leading
// zeros, so that they may have any magnitude.
type rv struct {
	epoch      string
	rel        []string
	preL, preN string // preL is "" (none), "a", "b" or "rc"
	post, dev  string // "" if absent
	local      []string
}

func num(s string) string {
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	return s
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func numCmp(a, b string) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	return strings.Compare(a, b)
}

func (v rv) public() string {
	s := ""
	if v.epoch != "0" {
		s = v.epoch + "!"
	}
	s += strings.Join(v.rel, ".")
	if v.preL != "" {
		s += v.preL + v.preN
	}
	if v.post != "" {
		s += ".post" + v.post
	}
	if v.dev != "" {
		s += ".dev" + v.dev
	}
	return s
}

func (v rv) String() string {
	s := v.public()
	if len(v.local) > 0 {
		s += "+" + strings.Join(v.local, ".")
	}
	return s
}

func (v rv) isPre() bool { return v.preL != "" || v.dev != "" }

// big reports whether some number has more than 18 digits.
func (v rv) big() bool {
	l := func(s string) bool { return len(s) > 18 }
	for _, r := range v.rel {
		if l(r) {
			return true
		}
	}
	return l(v.epoch) || l(v.preN) || l(v.post) || l(v.dev)
}

// relCmp compares releases, padded with zeros.
func relCmp(a, b []string) int {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "0", "0"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if d := numCmp(x, y); d != 0 {
			return d
		}
	}
	return 0
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func optCmp(a, b string, absent int) int { // absent: the sign of "absent" relative to a number
	switch {
	case a == "" && b == "":
		return 0
	case a == "":
		return absent
	case b == "":
		return -absent
	}
	return numCmp(a, b)
}

// publicCmp is the canonical order of PEP 440: epoch, release, then
// .devN < aN < bN < rcN < <no suffix> < .postN, where each may itself have .dev before it.
func publicCmp(a, b rv) int {
	if d := numCmp(a.epoch, b.epoch); d != 0 {
		return d
	}
	if d := relCmp(a.rel, b.rel); d != 0 {
		return d
	}
	class := func(v rv) int {
		switch {
		case v.preL == "a":
			return 1
		case v.preL == "b":
			return 2
		case v.preL == "rc":
			return 3
		case v.post == "" && v.dev != "":
			return 0
		}
		return 4
	}
	if d := class(a) - class(b); d != 0 {
		return sign(d)
	}
	if a.preL != "" {
		if d := numCmp(a.preN, b.preN); d != 0 {
			return d
		}
	}
	if d := optCmp(a.post, b.post, -1); d != 0 {
		return d
	}
	return optCmp(a.dev, b.dev, 1)
}

func localCmp(a, b []string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		dx, dy := digits(x), digits(y)
		d := 0
		switch {
		case dx && dy:
			d = numCmp(x, y)
		case dx:
			d = 1
		case dy:
			d = -1
		default:
			d = strings.Compare(x, y)
		}
		if d != 0 {
			return d
		}
	}
	return sign(len(a) - len(b))
}

func refCmp(a, b rv) int {
	if d := publicCmp(a, b); d != 0 {
		return d
	}
	return localCmp(a.local, b.local)
}

// refParse is a backtracking parser for the grammar of PEP 440, appendix B; it tries the
// alternatives in the order of the regular expression there.
func refParse(s string) (rv, bool) {
	s = strings.ToLower(strings.Trim(s, " \t\n\r\f"))
	s = strings.TrimPrefix(s, "v")
	v := rv{epoch: "0"}
	i := 0
	run := func(i int) int { // end of the run of digits at i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i
	}
	j := run(0)
	if j == 0 {
		return v, false
	}
	if j < len(s) && s[j] == '!' {
		v.epoch = num(s[:j])
		i = j + 1
		j = run(i)
		if j == i {
			return v, false
		}
	}
	v.rel = append(v.rel, num(s[i:j]))
	for j < len(s) && s[j] == '.' {
		k := run(j + 1)
		if k == j+1 {
			break
		}
		v.rel = append(v.rel, num(s[j+1:k]))
		j = k
	}
	// The rest, with alternatives.  Digit runs are taken whole: what follows a number can never
	// start with a digit.
	isSep := func(i int) bool { return i < len(s) && strings.IndexByte("-_.", s[i]) >= 0 }
	opt := func(i int) []int { // positions after an optional separator, greedy first
		if isSep(i) {
			return []int{i + 1, i}
		}
		return []int{i}
	}
	// tagged calls f(n, end) for every way to match [-_.]? word [-_.]? [0-9]* at i
	tagged := func(i int, words []string, f func(w, n string, end int) bool) bool {
		for _, p := range opt(i) {
			for _, w := range words {
				if !strings.HasPrefix(s[p:], w) {
					continue
				}
				for _, q := range opt(p + len(w)) {
					e := run(q)
					if e > q && f(w, num(s[q:e]), e) {
						return true
					}
					if f(w, "0", q) {
						return true
					}
				}
			}
		}
		return false
	}
	local := func(i int) bool {
		if i == len(s) {
			return true
		}
		if s[i] != '+' {
			return false
		}
		for _, c := range s[i+1:] {
			if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || strings.ContainsRune("-_.", c)) {
				return false
			}
		}
		for _, seg := range strings.Split(strings.NewReplacer("-", ".", "_", ".").Replace(s[i+1:]), ".") {
			if seg == "" {
				return false
			}
			if digits(seg) {
				seg = num(seg)
			}
			v.local = append(v.local, seg)
		}
		return true
	}
	dev := func(i int) bool {
		if tagged(i, []string{"dev"}, func(_, n string, e int) bool {
			v.local = nil
			if !local(e) {
				return false
			}
			v.dev = n
			return true
		}) {
			return true
		}
		v.dev = ""
		v.local = nil
		return local(i)
	}
	post := func(i int) bool {
		if i < len(s) && s[i] == '-' {
			if e := run(i + 1); e > i+1 && dev(e) {
				v.post = num(s[i+1 : e])
				return true
			}
		}
		if tagged(i, []string{"post", "rev", "r"}, func(_, n string, e int) bool {
			if !dev(e) {
				return false
			}
			v.post = n
			return true
		}) {
			return true
		}
		v.post = ""
		return dev(i)
	}
	canon := map[string]string{"a": "a", "alpha": "a", "b": "b", "beta": "b", "c": "rc", "rc": "rc", "pre": "rc", "preview": "rc"}
	if tagged(j, []string{"a", "b", "c", "rc", "alpha", "beta", "pre", "preview"}, func(w, n string, e int) bool {
		if !post(e) {
			return false
		}
		v.preL, v.preN = canon[w], n
		return true
	}) {
		return v, true
	}
	v.preL, v.preN = "", ""
	return v, post(j)
}

func mustRef(s string) rv {
	v, ok := refParse(s)
	if !ok {
		panic("reference parser: " + s)
	}
	return v
}

// Three-valued answers: the specification leaves some combinations open.
type tri int

const (
	no tri = iota
	yes
	open
)

func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (a tri) and(b tri) tri {
	if a == no || b == no {
		return no
	}
	if a == open || b == open {
		return open
	}
	return yes
}

func (a tri) String() string { return []string{"no", "yes", "open"}[a] }

// rclause is a parsed specifier clause; op has "*" appended for prefix clauses.
type rclause struct {
	op  string
	ver rv
}

// refPrefix reports whether v starts with prefix p (release, pre, post as far as p gives them).
func refPrefix(p, v rv) bool {
	if p.epoch != v.epoch {
		return false
	}
	if p.preL == "" && p.post == "" {
		rel := v.rel
		if len(rel) > len(p.rel) {
			rel = rel[:len(p.rel)]
		}
		return relCmp(p.rel, rel) == 0
	}
	if relCmp(p.rel, v.rel) != 0 || p.preL != v.preL || p.preN != v.preN {
		return false
	}
	return p.post == "" || p.post == v.post
}

func (c rclause) match(v rv) tri {
	pub := publicCmp(v, c.ver)
	switch c.op {
	case "==", "!=":
		eq := pub == 0
		if len(c.ver.local) > 0 {
			eq = refCmp(v, c.ver) == 0
		}
		return b2t(eq == (c.op == "=="))
	case "==*":
		return b2t(refPrefix(c.ver, v))
	case "!=*":
		return b2t(!refPrefix(c.ver, v))
	case "~=":
		p := rv{epoch: c.ver.epoch, rel: c.ver.rel[:len(c.ver.rel)-1]}
		return b2t(pub >= 0 && refPrefix(p, v))
	case "<=":
		return b2t(refCmp(v, c.ver) <= 0)
	case ">=":
		return b2t(refCmp(v, c.ver) >= 0)
	case "<":
		return b2t(refCmp(v, c.ver) < 0)
	case ">":
		if refCmp(v, c.ver) <= 0 {
			return no
		}
		sameRel := c.ver.epoch == v.epoch && relCmp(c.ver.rel, v.rel) == 0
		if v.post != "" && c.ver.post == "" && sameRel {
			base := v
			base.post, base.dev, base.local = "", "", nil
			if publicCmp(base, c.ver) == 0 {
				return no
			}
			return open // a post-release of the release that the given version is itself a pre-release of
		}
		if len(v.local) > 0 && sameRel {
			if pub == 0 {
				return no
			}
			return open
		}
		return yes
	}
	panic("op " + c.op)
}
