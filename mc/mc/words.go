package mc

import (
	"sort"
	"strings"
	"unicode"
)

// Words returns what could be a name out of the string literals of the given directories: the literals
// and their parts, a character more or less at either end, and in the other case.
func (t *T) Words(dirs ...string) []string {
	_, strs := t.Literals(dirs...)
	set := map[string]bool{}
	add := func(w string) {
		if w == "" || w == "." || w == ".." || len(w) > 44 || strings.ContainsAny(w, "/\x00") {
			return
		}
		set[w] = true
	}
	for _, s := range strs {
		if strings.Count(s, " ") > 2 || strings.Contains(s, "%") {
			continue // prose
		}
		for _, w := range append(strings.Split(s, "/"), strings.FieldsFunc(s, func(r rune) bool { return r == '/' || unicode.IsSpace(r) })...) {
			if w == "" {
				continue
			}
			add(w)
			add("x" + w)
			add(w + "x")
			if len(w) > 1 {
				add(w[1:])
				add(w[:len(w)-1])
			}
			add(strings.ToUpper(w))
			add(strings.ToLower(w))
		}
	}
	ret := make([]string, 0, len(set))
	for w := range set {
		ret = append(ret, w)
	}
	sort.Strings(ret)
	return ret
}
