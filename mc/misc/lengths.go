package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// lengthValues are numbers and lengths to try: around powers of two, and around each number in the code.
func lengthValues(t *mc.T, max int64, dirs ...string) []int {
	base := []int64{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 131073}
	var ret []int
	for _, v := range t.Sizes(1, max, base, dirs...) {
		if v <= max {
			ret = append(ret, int(v))
		}
	}
	return ret
}

func c18lengths(t *mc.T) {
	vals := lengthValues(t, 2100, "pkg/python/pypa/bdist", "pkg/python/pep425")
	t.Section("lengths", fmt.Sprintf("names, versions, build tags and tags of %d lengths, sets and lists of as many tags", len(vals)))
	for _, n := range vals {
		n := n
		dots := func(p string) string {
			var s []string
			for i := 0; i < n; i++ {
				s = append(s, fmt.Sprintf("%s%d", p, i))
			}
			return strings.Join(s, ".")
		}
		for k, d := range []bdist.FileNameData{
			{Distribution: strings.Repeat("d", n)}, {Distribution: strings.Repeat("d_", n) + "x"}, {BuildTag: &bdist.BuildTag{Int: n}}, {BuildTag: &bdist.BuildTag{Int: 1, Str: strings.Repeat("b", n)}},
			{CompatibilityTag: pep425.Tag{Python: dots("py")}}, {CompatibilityTag: pep425.Tag{ABI: dots("abi")}}, {CompatibilityTag: pep425.Tag{Platform: dots("linux_")}},
			{CompatibilityTag: pep425.Tag{Platform: strings.Repeat("p", n)}},
		} {
			k, d := k, d
			t.Case(func() string { return fmt.Sprintf("file name of kind %d with %d", k, n) }, func(c *mc.C) {
				ver, err := pep440.ParseVersion("1.0")
				if err != nil {
					panic(err)
				}
				d.Version = *ver
				if d.Distribution == "" {
					d.Distribution = "x"
				}
				if d.CompatibilityTag.Python == "" {
					d.CompatibilityTag.Python = "py3"
				}
				if d.CompatibilityTag.ABI == "" {
					d.CompatibilityTag.ABI = "none"
				}
				if d.CompatibilityTag.Platform == "" {
					d.CompatibilityTag.Platform = "any"
				}
				name, err := bdist.GenerateFilename(d)
				if err != nil {
					c.Failf("generate: %v", err)
					return
				}
				want := d.Distribution + "-1.0-"
				if d.BuildTag != nil {
					want += fmt.Sprint(d.BuildTag.Int) + d.BuildTag.Str + "-"
				}
				want += d.CompatibilityTag.String() + ".whl"
				if name != want {
					c.Failf("generated as %.300q, want %.300q", name, want)
				}
				got, err := bdist.ParseFilename(name)
				if err != nil {
					c.Failf("parse: %v", err)
					return
				}
				if got.Distribution != d.Distribution || got.Version.Cmp(*ver) != 0 || got.CompatibilityTag != d.CompatibilityTag || (got.BuildTag == nil) != (d.BuildTag == nil) || d.BuildTag != nil && *got.BuildTag != *d.BuildTag {
					c.Failf("parsed differently")
				}
				c.Outcome(fmt.Sprint(k, n))
			})
		}
		t.Case(func() string { return fmt.Sprintf("tags of %d parts, installers of %d tags", n, n) }, func(c *mc.C) {
			big := pep425.Tag{Python: dots("py"), ABI: "none", Platform: "any"}
			exp := big.Decompress()
			if len(exp) != n {
				c.Failf("expansion has %d tags", len(exp))
			}
			var inst pep425.Installer
			for i := 0; i < n; i++ {
				inst = append(inst, pep425.Tag{Python: fmt.Sprintf("py%d", i), ABI: "none", Platform: "any"})
			}
			if !inst.Supports(big) || !pep425.Intersect([]pep425.Tag{big}, inst) {
				c.Failf("the set does not match itself")
			}
			if no := (pep425.Tag{Python: fmt.Sprintf("py%d", n), ABI: "none", Platform: "any"}); inst.Supports(no) || pep425.Intersect([]pep425.Tag{big}, []pep425.Tag{no}) {
				c.Failf("the set matches a tag that it does not have")
			}
			best := inst.Preference(big)
			for i := 0; i < n; i++ {
				if !inst.Supports(inst[i]) || !(pep425.Installer{inst[i]}).Supports(big) {
					c.Failf("tag %d of %d is not supported", i, n)
					return
				}
				p := inst.Preference(inst[i])
				if i == 0 && p != best || i > 0 && p <= inst.Preference(inst[i-1]) {
					c.Failf("preference of tag %d of %d is %d", i, n, p)
					return
				}
			}
			c.Outcome(fmt.Sprint(n))
		})
	}
}

func c19lengths(t *mc.T) {
	vals := lengthValues(t, 2100, "pkg/fsutil/diff.go")
	t.Section("counts", fmt.Sprintf("layers of %d numbers of entries: the same, or different in one entry, or longer, at the start, middle, end", len(vals)))
	for _, n := range vals {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d entries", n) }, func(c *mc.C) {
			mk := func(change int, what string) ociv1.Layer {
				var es []ltar.Ent
				for i := 0; i < n; i++ {
					e := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: fmt.Sprintf("f%05d", i), Mode: 0o644}, Body: []byte(fmt.Sprintf("content %d", i))}
					if i == change {
						switch what {
						case "body":
							e.Body[0] = 'C'
						case "mode":
							e.Hdr.Mode = 0o755
						case "name":
							e.Hdr.Name = fmt.Sprintf("F%05d", i)
						case "missing":
							continue
						case "twice":
							es = append(es, e)
						}
					}
					es = append(es, e)
				}
				return ltar.RawLayer(ltar.MustEncode(es))
			}
			a := mk(-1, "")
			bothWays(c, a, mk(-1, ""), true, "the same")
			for _, at := range []int{0, n / 2, n - 1} {
				for _, what := range []string{"body", "mode", "name", "missing", "twice"} {
					bothWays(c, a, mk(at, what), false, fmt.Sprintf("entry %d of %d: %s", at, n, what))
				}
			}
			c.Outcome(fmt.Sprint(n))
		})
	}
	long := lengthValues(t, 140000, "pkg/fsutil/diff.go")
	t.Section("long", fmt.Sprintf("names, link targets, owners, attributes and contents of %d lengths that differ in the last byte, or in length", len(long)))
	for _, n := range long {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d bytes", n) }, func(c *mc.C) {
			s := strings.Repeat("s", n)
			variants := []string{s, s[:n-1] + "t", s + "s"}
			for what := 0; what < 6; what++ {
				mk := func(s string) ociv1.Layer {
					e := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "f", Mode: 0o644, Format: tar.FormatPAX}, Body: []byte("x")}
					switch what {
					case 0:
						e.Hdr.Name = s
					case 1:
						e.Hdr.Typeflag, e.Hdr.Linkname, e.Body = tar.TypeSymlink, s, nil
					case 2:
						e.Hdr.Uname = s
					case 3:
						e.Hdr.Gname = s
					case 4:
						e.Hdr.PAXRecords = map[string]string{"SCHILY.xattr.user.a": s}
					case 5:
						e.Body = []byte(s)
					}
					return ltar.RawLayer(ltar.MustEncode([]ltar.Ent{e, {Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "after"}, Body: bytes.Repeat([]byte("y"), 100)}}))
				}
				for i, v := range variants {
					for j, w := range variants {
						bothWays(c, mk(v), mk(w), i == j, fmt.Sprintf("field %d, %d against %d", what, i, j))
					}
				}
			}
			c.Outcome(fmt.Sprint(n))
		})
	}
}

func c23lengths(t *mc.T) {
	vals := lengthValues(t, 140000, "pkg/python/configparser.go", "pkg/python")
	for _, o := range c23sets {
		o := o
		t.Section("lengths/"+o.name, fmt.Sprintf("%d lengths of lines, names, values, comments, indents, and numbers of lines, keys, sections", len(vals)))
		for _, n := range vals {
			n := n
			t.Case(func() string { return fmt.Sprint(n) }, func(c *mc.C) {
				x := strings.Repeat("x", n)
				sp := strings.Repeat(" ", n)
				if n > 5000 { // Python takes quadratic time
					sp = sp[:5000]
				}
				texts := []string{
					"[" + x + "]\nk=v\n", "[s]\n" + x + "=v\nk=w\n", "[s]\nk=" + x + "\nl=w\n", "[s]\nk=" + x, "[s]\nk=v\n " + x + "\nl=w\n", "# " + x + "\n[s]\n; " + x + "\nk=v\n",
					"[s]\nk=a" + sp + "b\n", "[s]\nk" + sp + "=" + sp + "v" + sp + "\n", "[s]\nk=v\n" + sp + "c\n" + sp + "d\nl=m\n", sp + "[s]\nk=v\n", "[s]\n" + sp + "k=v\n" + sp + "l=w\n",
					"[s]\nk=a #" + x + "\n l\n", "[s]\n" + x + "\n", x + "\n", "[" + x, "[s]\nk=v\n" + sp + "\n c\n",
				}
				if n <= 3000 {
					var keys, secs strings.Builder
					for i := 0; i < n; i++ {
						fmt.Fprintf(&keys, "k%d = v%d\n", i, i)
						fmt.Fprintf(&secs, "[s%d]\nk = v%d\n", i, i)
					}
					texts = append(texts, "[s]\n"+keys.String(), secs.String(), secs.String()+"[s0]\n", "[s]\n"+keys.String()+"k0=x\n", "[s]\nk=v\n"+strings.Repeat(" c\n", n)+"l=m\n",
						"[s]\nk=v\n"+strings.Repeat("\n", n)+" c\nl=m\n", strings.Repeat("\n", n)+"[s]\nk=v\n", strings.Repeat("# c\n", n)+"[s]\n"+strings.Repeat("; c\n", n)+"k=v\n", "[s]\nk=v\n"+strings.Repeat(" # c\n", n)+" w\n")
				}
				o.check(c, texts)
				c.Outcome(fmt.Sprint(o.name, n))
			})
		}
	}
}

func c27lengths(t *mc.T) {
	vals := lengthValues(t, 140000, "pkg/python/pypa/direct_url")
	t.Section("lengths", fmt.Sprintf("strings of %d lengths of 6 characters, in every field", len(vals)))
	for _, n := range vals {
		n := n
		t.Case(func() string { return fmt.Sprint(n) }, func(c *mc.C) {
			var ds []direct_url.DirectURL
			for _, ch := range []string{"a", "\\", "é", "<", "\U0001f600", "\n"} {
				s := strings.Repeat(ch, n)
				ds = append(ds, direct_url.DirectURL{URL: s, VCSInfo: &direct_url.VCSInfo{VCS: s, RequestedRevision: s, CommitID: s}, ArchiveInfo: &direct_url.ArchiveInfo{Hash: s}})
			}
			c27check(c, ds)
			c.Outcome(fmt.Sprint(n))
		})
	}
}
