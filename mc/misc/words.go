package main

import (
	"archive/tar"
	"fmt"
	"io/fs"
	"regexp"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

func c19words(t *mc.T) {
	words := t.Words("pkg/fsutil", "cmd_layer_gobuild.go")
	t.Section("words", fmt.Sprintf("layers that differ only in, or below, a name, owner or attribute that is one of %d words", len(words)))
	for _, w := range words {
		w := w
		t.Case(func() string { return fmt.Sprintf("%q", w) }, func(c *mc.C) {
			for place := 0; place < 6; place++ {
				mk := func(v int) ociv1.Layer {
					es := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "before", Mode: 0o644}, Body: []byte("b")}}
					e := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "f", Mode: 0o644}, Body: []byte("x")}
					switch place {
					case 0: // contents
						e.Hdr.Name = w
						e.Body = []byte{byte('x' + v)}
					case 1: // modes
						e.Hdr.Name = "d/" + w
						e.Hdr.Mode += int64(v)
					case 2:
						e.Hdr.Name = w + "/f"
						e.Hdr.Uid = v
					case 3:
						e.Hdr.Uname = w
						if v == 1 {
							e.Hdr.Uname = ""
						}
					case 4:
						e.Hdr.Typeflag, e.Hdr.Linkname, e.Body = tar.TypeSymlink, w, nil
						if v == 1 {
							e.Hdr.Linkname = "other"
						}
					case 5: // presence
						e.Hdr.Name = w
						if v == 1 {
							return ltar.RawLayer(ltar.MustEncode(es))
						}
					}
					return ltar.RawLayer(ltar.MustEncode(append(es, e)))
				}
				bothWays(c, mk(0), mk(0), true, fmt.Sprint("place ", place))
				bothWays(c, mk(0), mk(1), false, fmt.Sprint("place ", place))
			}
			c.Outcome(w)
		})
	}
}

func c31words(t *mc.T) {
	words := t.Words("pkg/fsutil")
	t.Section("words", fmt.Sprintf("references whose names have one of %d words: the code's own strings, with a character more or less", len(words)))
	for _, w := range words {
		w := w
		t.Case(func() string { return fmt.Sprintf("%q", w) }, func(c *mc.C) {
			dir := func(n string) *ref { r := file(n, ""); r.mode = fs.ModeDir | 0o750; return r }
			layerOf(c, []*ref{file(w, "x"), file("d/"+w, "y"), dir("d")})
			layerOf(c, []*ref{file(w+"/f", "x"), dir(w), file(w+"-/"+w, "z"), file("a", "a")})
			layerOf(c, []*ref{dir("d/" + w), file("d/"+w+"/e", "y")})
			c.Outcome(w)
		})
	}
}

func c23words(t *mc.T) {
	words := t.Words("pkg/python", "pkg/python/pypa/entry_points")
	for _, o := range c23sets {
		o := o
		t.Section("words/"+o.name, fmt.Sprintf("%d words as names of sections and keys, as values, continuations, comments", len(words)))
		for i := 0; i < len(words); i += 8 {
			i := i
			t.Case(func() string { return fmt.Sprintf("words from %q on", words[i]) }, func(c *mc.C) {
				var texts []string
				for k := i; k < i+8 && k < len(words); k++ {
					w := words[k]
					texts = append(texts, "["+w+"]\nk=v\n", "[s]\n"+w+"=v\nk=w\n", "[s]\nk="+w+"\n", "[s]\nk=v\n "+w+"\nl=m\n", "[s]\nk = a "+w+" b\n", w+"\n[s]\n", "[s]\n"+w+"\n", "[s]\n"+w+" = "+w+" = "+w+"\n", "[s]\nk="+w+"\n\n x\n["+w+"]\n", "[s] "+w+"\nk=v\n", "[s]\nk="+w+w+"\nl=\n")
				}
				o.check(c, texts)
				c.Outcome(fmt.Sprint(o.name, i))
			})
		}
	}
}

var tagWord = regexp.MustCompile(`^[A-Za-z0-9_]+$`)

func c18words(t *mc.T) {
	var words []string
	for _, w := range t.Words("pkg/python/pep425", "pkg/python/pypa/bdist", "pkg/python/pypa/simple_repo_api") {
		if tagWord.MatchString(w) {
			words = append(words, w)
		}
	}
	t.Section("words", fmt.Sprintf("%d words as parts of tags", len(words)))
	for _, w := range words {
		w := w
		t.Case(func() string { return fmt.Sprintf("%q", w) }, func(c *mc.C) {
			others := []string{"q1", "any", "none", "py3", "zz"}
			for place := 0; place < 3; place++ {
				mk := func(s string) pep425.Tag {
					tag := pep425.Tag{Python: "cp39", ABI: "abi3", Platform: "linux"}
					switch place {
					case 0:
						tag.Python = s
					case 1:
						tag.ABI = s
					case 2:
						tag.Platform = s
					}
					return tag
				}
				if got, err := pep425.ParseTag(mk(w).String()); err != nil || got != mk(w) {
					c.Failf("%v is parsed as %v, %v", mk(w), got, err)
				}
				for _, o := range others {
					if o == w {
						continue
					}
					a, b, both := mk(w), mk(o), mk(w+"."+o)
					if (pep425.Installer{a}).Supports(b) || (pep425.Installer{b}).Supports(a) {
						c.Failf("%v supports %v", a, b)
					}
					if !(pep425.Installer{a}).Supports(both) || !(pep425.Installer{b}).Supports(both) || !(pep425.Installer{b, a}).Supports(a) || !(pep425.Installer{a, b}).Supports(a) {
						c.Failf("%v and %v do not support %v", a, b, both)
					}
					if p, q := (pep425.Installer{a, b}).Preference(a), (pep425.Installer{a, b}).Preference(b); p >= q {
						c.Failf("preferences of %v, %v in this order are %d, %d", a, b, p, q)
					}
					if p, q := (pep425.Installer{b, a}).Preference(a), (pep425.Installer{b, a}).Preference(both); q >= p {
						c.Failf("preferences of %v, %v in the other order are %d, %d", a, both, p, q)
					}
					if pep425.Intersect([]pep425.Tag{a}, []pep425.Tag{b}) || !pep425.Intersect([]pep425.Tag{b, a}, []pep425.Tag{both}) || !pep425.Intersect([]pep425.Tag{a}, []pep425.Tag{b, a}) {
						c.Failf("intersections of %v, %v, %v", a, b, both)
					}
					if e := both.Decompress(); len(e) != 2 || e[0] != a && e[1] != a || e[0] != b && e[1] != b {
						c.Failf("%v expands to %v", both, e)
					}
				}
			}
			c.Outcome(w)
		})
	}
}
