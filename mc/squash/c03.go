package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c03 = mc.Suite{
	ID:    "C03",
	Level: "model_checking",
	Rule: "all layer histories over the C01 alphabet (canonical form, idempotence, every left grouping), all short histories over " +
		"an alphabet of unclean and escaping names and of symlink cycles, and every truncation point, byte corruption and read-fault point of layer files",
	Assumptions: []string{
		"the raw tar format does not show that a stream was cut between two entries (or in padding), so those cuts are excluded for uncompressed layers",
		"a chain of up to 40 symlinks is not a loop",
	},
	Body: runC03,
}

// cmpPath is the canonical order: parents before children, whiteouts first, siblings in byte order.
func cmpPath(a, b string) int {
	as, bs := comps(a), comps(b)
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] == bs[i] {
			continue
		}
		aw, bw := strings.HasPrefix(as[i], ".wh."), strings.HasPrefix(bs[i], ".wh.")
		if aw != bw {
			if aw {
				return -1
			}
			return 1
		}
		return strings.Compare(as[i], bs[i])
	}
	return len(as) - len(bs)
}

func comps(p string) []string {
	if p == "." {
		return nil
	}
	return strings.Split(p, "/")
}

func canonical(c *mc.C, ents []ltar.Ent) {
	prev := ""
	for i, e := range ents {
		name := e.Hdr.Name
		clean := strings.TrimSuffix(name, "/")
		isDir := e.Hdr.Typeflag == tar.TypeDir
		if isDir != strings.HasSuffix(name, "/") {
			c.Failf("entry %q: trailing slash does not match type %q; output %s", name, e.Hdr.Typeflag, ltar.Describe(ents))
			return
		}
		if clean != path.Clean(clean) || strings.HasPrefix(clean, "/") || clean == ".." || strings.HasPrefix(clean, "../") {
			c.Failf("entry %q is not a clean path inside of the root; output %s", name, ltar.Describe(ents))
			return
		}
		if clean == "." && !isDir {
			continue // a stack that says that the root is a file
		}
		if i > 0 && cmpPath(prev, clean) >= 0 {
			c.Failf("entry %q after %q; output %s", clean, prev, ltar.Describe(ents))
			return
		}
		prev = clean
	}
}

func c03check(c *mc.C, lows []*ltar.FS, bs []*built) {
	var raws [][]byte
	for _, b := range bs {
		raws = append(raws, b.raw)
	}
	out, err := doSquash(raws...)
	_, loop, ok := refApply(ltar.NewFS(), bs, nil)
	if loop {
		if err == nil {
			c.Failf("the stack has a symlink loop on the path of an entry, but squashing succeeded")
		}
		c.Outcome("loop")
		return
	}
	if err != nil {
		if ok {
			c.Failf("squashing failed: %v", err)
		}
		c.Outcome("err " + err.Error())
		return
	}
	ents, err := ltar.Decode(out)
	if err != nil {
		c.Failf("output is not a tar stream: %v", err)
		return
	}
	c.Outcome(ltar.Describe(ents))
	c.State(string(out))
	canonical(c, ents)
	again, err := doSquash(out)
	if err != nil {
		c.Failf("squashing the output again failed: %v; output %s", err, ltar.Describe(ents))
		return
	}
	c.Transitions(1)
	if ok && !bytes.Equal(again, out) {
		e2, _ := ltar.Decode(again)
		c.Failf("squashing the output again changes it: %s then %s", ltar.Describe(ents), ltar.Describe(e2))
	}
	if !ok {
		return
	}
	for n := 1; n < len(raws); n++ {
		left, err := doSquash(raws[:n]...)
		if err != nil {
			c.Failf("squashing the first %d layers failed: %v", n, err)
			return
		}
		grp, err := doSquash(append([][]byte{left}, raws[n:]...)...)
		if err != nil {
			c.Failf("squashing with the first %d layers squashed already failed: %v", n, err)
			return
		}
		c.Transitions(2)
		ge, err := ltar.Decode(grp)
		if err != nil {
			c.Failf("grouped output is not a tar stream: %v", err)
			return
		}
		for i, low := range append([]*ltar.FS{ltar.NewFS()}, lows...) {
			if _, loop, ok := refApply(low, bs, nil); loop || !ok {
				continue
			}
			a, b := low.Clone(), low.Clone()
			a.Lenient, b.Lenient = true, true
			if a.Apply(ents, false) != nil || b.Apply(ge, false) != nil {
				continue
			}
			if d := ltar.Diff(a, b); d != "" {
				c.Failf("lower %d: grouping the first %d layers: %s; ungrouped %s, grouped %s", i, n, d, ltar.Describe(ents), ltar.Describe(ge))
				return
			}
		}
	}
}

func runC03(t *mc.T) {
	lows := lowers()[1:]
	ex := func(name string, sets [][]layerSpec, b string) {
		t.Section(name, b)
		histories(t, sets, func(stack []layerSpec) {
			if !t.Mine() {
				return
			}
			st := append([]layerSpec(nil), stack...)
			t.Run(func() string { return stackString(st) }, func(c *mc.C) { c03check(c, lows, buildStack(st)) })
		})
	}
	one := single(append(append([]elem(nil), alphabet...), h("z", "d/x"), h("d/a", "e"), h("l/h", "z"), h("e", "e"), h("d/x", "l/x"), h("l/x", "d/x")))
	two := pairs(alphabet)
	ex("pair1", rep(two, 1), bounds("all 1-layer stacks of ordered pairs (%d)", len(two)))
	ex("depth2", rep(one, 2), bounds("all 2-layer stacks of %d single-entry layers", len(one)))
	ex("pair+single", [][]layerSpec{pairs(core), one}, "core pair, single")
	ex("core3", rep(single(core), t.Pick(3, 5)), bounds("all %d-layer stacks of core layers", t.Pick(3, 5)))
	if t.Thorough() {
		ex("depth3", rep(one, 3), bounds("all 3-layer stacks of %d single-entry layers", len(one)))
	}

	eachLevel(t, func(c *mc.C, s shape, bs []*built) { c03check(c, lengthLow(s.low), bs) })
	eachWord(t, wordShapes(), build, func(c *mc.C, s shape, bs []*built) { c03check(c, lengthLow(s.low), bs) })
	eachMarker(t, func(c *mc.C, s shape, bs []*built) { c03check(c, lengthLow(s.low), bs) })
	eachDialect(t, func(c *mc.C, s shape, bs, plain []*built) {
		c03check(c, lengthLow(s.low), bs)
		if plain != nil {
			squashesAlike(c, bs, plain)
		}
	})
	eachLength(t, 130, func(c *mc.C, s shape, bs []*built) { c03check(c, lengthLow(s.low), bs) })

	// order of siblings
	t.Section("order", "all permutations of 5 sibling names out of sets that expose the ordering")
	for _, set := range [][]string{
		{"a", "a-b", "a.b", "a/c", ".wh.zz"}, {"A", "a", "B", "b", "_"}, {".wh.b", ".a", ".wh.a", ".xh.a", ".wh"},
		{"d/x", "d.x", "d-x", "d0x", "d"}, {"é", "e", "z", "\xff", "\u65e5"}, {"1", "10", "2", "02", "1/0"},
		{"d/.wh..wh..opq", "d/.wh.a", "d/-", "d/!", "d/.aa"}, {"a b", "a", "ab", "a\tb", "a/b c"},
	} {
		permute(len(set), func(p []int) {
			if !t.Mine() {
				return
			}
			perm := append([]int(nil), p...)
			set := set
			t.Run(func() string { return fmt.Sprintf("%q %v", set, perm) }, func(c *mc.C) {
				var one layerSpec
				var many []*built
				for i, j := range perm {
					one = append(one, f(set[j]))
					many = append(many, build(layerSpec{f(set[j])}, i))
				}
				c03check(c, nil, []*built{build(one, 0)})
				c03check(c, nil, many)
			})
		})
	}

	// names
	t.Section("names", "unclean and escaping entry names x types, alone and after a symlink layer")
	names := []string{
		"/abs", "../x", "..", "../", "a/../../x", "./../x", "", "a/..", ".", "./", "//x", "a//b", "a/./b", ".../x", "..x", "..x/y",
		"/", "/..", "/../x", "./a", "./a/", "a/b/..", "a/b/../..", "a/b/../../..", "a/b/../../../x", "./..", "././../x", "../.wh.x", "a/../../.wh.x", "/.wh.x",
		"./.wh.x", "a/../.wh.x", "../.wh..wh..opq", "/.wh..wh..opq", "a/.wh../x", "..//x", "x/../..", "l/../x", "l/../../x", "l/x", "m/x", "m/../x", "a/ ../x", " ", "x/...", "....//x",
	}
	for _, nm := range names {
		for _, ty := range []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeLink} {
			for pre := 0; pre < 3; pre++ {
				nm, ty, pre := nm, ty, pre
				t.Case(func() string { return fmt.Sprintf("%q %q pre%d", nm, ty, pre) }, func(c *mc.C) {
					e := ltar.Ent{Hdr: tar.Header{Name: nm, Typeflag: ty, Mode: 0o644}}
					if ty == tar.TypeSymlink || ty == tar.TypeLink {
						e.Hdr.Linkname = "tgt"
					}
					es := []ltar.Ent{e}
					if pre == 1 {
						es = append([]ltar.Ent{f("ok").ent(0)}, append(es, f("zok").ent(0))...)
					}
					raw, err := ltar.Encode(es)
					if err != nil {
						c.Trivial()
						return
					}
					raws := [][]byte{raw}
					if pre == 2 {
						raws = [][]byte{build(layerSpec{s("l", "/d"), s("m", "../../../d"), d("d")}, 0).raw, raw}
					}
					out, err := doSquash(raws...)
					cl := path.Clean(nm)
					escapes := cl == ".." || strings.HasPrefix(cl, "../") || strings.HasPrefix(cl, "/")
					if escapes {
						if err == nil {
							c.Failf("entry %q leaves the root but was accepted", nm)
						}
						c.Outcome("rejected")
						return
					}
					if cl == "." && ty != tar.TypeDir { // says that the root is not a directory
						c.Outcome("root")
						return
					}
					if err != nil {
						c.Failf("entry %q stays in the root but was rejected: %v", nm, err)
						return
					}
					ents, err := ltar.Decode(out)
					if err != nil {
						c.Failf("output is not a tar stream: %v", err)
						return
					}
					canonical(c, ents)
					c.Outcome(ltar.Describe(ents))
				})
			}
		}
	}

	// cycles
	cyc := single([]elem{
		s("a", "a"), s("a", "a/x"), s("a", "b"), s("b", "a"), s("b", "a/y"), s("a", "b/b"), s("b", "b/a/a"), s("a", "/b/../a"), s("a", "."), s("a", ".."), s("a", "../../b"),
		s("c/d", "../a/c"), s("c/d", "."), s("c/d", "../c/d/e"), d("c"), d("a"), f("a/f"), f("b/g"), f("a"), f("c/d/x"), f("a/.wh.k"), f("b/.wh..wh..opq"), f(".wh.a"), h("z", "a/k"), h("a/q", "b/k"),
	})
	ex("cycles", rep(cyc, t.Pick(3, 4)), bounds("all %d-layer stacks of %d single-entry layers with symlink cycles", t.Pick(3, 4), len(cyc)))
	t.Section("cycle-pairs", "all 1-layer stacks of 3 entries of the cycle alphabet")
	for _, a := range cyc {
		for _, b := range cyc {
			for _, e := range cyc {
				if !t.Mine() {
					continue
				}
				st := []layerSpec{{a[0], b[0], e[0]}}
				t.Run(func() string { return stackString(st) }, func(c *mc.C) { c03check(c, nil, buildStack(st)) })
			}
		}
	}
	t.Section("chains", "symlink chains of length 1..40, in both directions, with fan-out 1..3 per link, ending in a directory, a file, nothing or the start")
	for n := 1; n <= 40; n++ {
		for fan := 1; fan <= 3; fan++ {
			for end := 0; end < 4; end++ {
				n, fan, end := n, fan, end
				t.Case(func() string { return fmt.Sprintf("n=%d fan=%d end=%d", n, fan, end) }, func(c *mc.C) {
					var l layerSpec
					for i := 0; i < n; i++ {
						next := fmt.Sprintf("k%02d", i+1)
						if i == n-1 {
							next = []string{"dir", "file", "gone", "k00"}[end]
						}
						l = append(l, s(fmt.Sprintf("k%02d", i), strings.TrimSuffix(strings.Repeat(next+"/", fan), "/")))
					}
					l = append(l, d("dir"), f("file"), f("k00/new"))
					raw := build(l, 0).raw
					out, err := doSquash(raw)
					if end == 3 {
						if err == nil {
							c.Failf("a symlink loop of %d links was accepted", n)
						}
						c.Outcome("loop")
						return
					}
					if fan == 1 {
						if err != nil {
							c.Failf("a chain of %d symlinks: %v", n, err)
							return
						}
						ents, _ := ltar.Decode(out)
						canonical(c, ents)
						want := []string{"dir/new", "file/new", "gone/new"}[end]
						found := false
						for _, e := range ents {
							found = found || e.Hdr.Name == want
						}
						if !found {
							c.Failf("the entry did not end up as %q: %s", want, ltar.Describe(ents))
						}
					}
					c.Outcome(fmt.Sprint(err != nil))
				})
			}
		}
	}
	c03faults(t)
}

func permute(n int, fn func([]int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			fn(p)
			return
		}
		for v := 0; v < n; v++ {
			if !used[v] {
				used[v] = true
				p[i] = v
				rec(i + 1)
				used[v] = false
			}
		}
	}
	rec(0)
}

// faultLayer fails while being read.
type faultLayer struct {
	ltar.RawLayer
	at      int
	closeIt bool
}

var errInjected = errors.New("injected")

func (l faultLayer) Uncompressed() (io.ReadCloser, error) {
	if l.at < 0 {
		return nil, errInjected
	}
	return io.NopCloser(io.MultiReader(bytes.NewReader(l.RawLayer[:l.at]), failReader{})), nil
}

type failReader struct{}

func (failReader) Read([]byte) (int, error) { return 0, errInjected }

func c03faults(t *mc.T) {
	// a layer with several entries, some of which do not fill their last block
	var ents []ltar.Ent
	ents = append(ents, d("d").ent(0))
	for i, n := range []int{0, 1, 512, 700} {
		e := f(fmt.Sprintf("d/f%d", i)).ent(0)
		e.Body = bytes.Repeat([]byte{byte('a' + i)}, n)
		if i%2 == 0 {
			e.Hdr.PAXRecords = nil
		}
		ents = append(ents, e)
	}
	ents = append(ents, s("l", "d").ent(0), f(".wh.gone").ent(0))
	raw := ltar.MustEncode(ents)
	// boundaries between entries
	boundary := map[int]bool{0: true}
	for i := range ents {
		bs := ltar.MustEncode(ents[:i+1])
		boundary[len(bs)-1024] = true
	}
	other := build(layerSpec{f("d/other"), f(".wh.x")}, 1).raw
	run := func(layer ociv1.Layer, pos int) ([]byte, error) {
		ls := []ociv1.Layer{layer, ltar.RawLayer(other)}
		if pos == 1 {
			ls = []ociv1.Layer{ltar.RawLayer(other), layer}
		}
		out, err := squash.Squash(ls, ltar.FastOpts...)
		if err != nil {
			return nil, err
		}
		return ltar.Bytes(out)
	}
	loadErr := func(layer ociv1.Layer, omit bool) error {
		_, err := squash.Load([]ociv1.Layer{layer}, omit)
		return err
	}
	full := make([][]byte, 2)
	for pos := range full {
		full[pos], _ = run(ltar.RawLayer(raw), pos)
	}
	judge := func(c *mc.C, layer ociv1.Layer, pos int, mustFail bool) {
		out, err := run(layer, pos)
		switch {
		case err != nil:
			c.Outcome("error")
		case mustFail:
			c.Failf("squashing succeeded")
		case bytes.Equal(out, full[pos]):
			c.Outcome("complete")
		default:
			e, _ := ltar.Decode(out)
			c.Failf("squashing succeeded with a partial or altered result: %s", ltar.Describe(e))
		}
		for _, omit := range []bool{false, true} {
			if lerr := loadErr(layer, omit); (lerr == nil) != (err == nil) {
				c.Failf("Load(omitContent=%v) says %v where Squash says %v", omit, lerr, err)
			}
		}
	}
	t.Section("truncate-tar", bounds("every truncation point of a %d byte tar layer that the tar reader can recognise", len(raw)))
	for n := 0; n < len(raw); n++ {
		if _, err := ltar.Decode(raw[:n]); err == nil {
			continue // the tar format does not show it
		}
		for pos := 0; pos < 2; pos++ {
			n, pos := n, pos
			t.Case(func() string { return fmt.Sprintf("at %d, layer %d", n, pos) }, func(c *mc.C) { judge(c, ltar.RawLayer(raw[:n]), pos, false) })
		}
	}
	t.Section("read-fault", bounds("a read error after every n-th byte (n <= %d) of a layer", len(raw)-1024))
	for n := -1; n <= len(raw)-1024; n++ {
		for pos := 0; pos < 2; pos++ {
			n, pos := n, pos
			t.Case(func() string { return fmt.Sprintf("at %d, layer %d", n, pos) }, func(c *mc.C) {
				judge(c, faultLayer{RawLayer: raw, at: n}, pos, true)
			})
		}
	}
	t.Section("corrupt-header", "every byte of the stream's header blocks changed to each of 3 other values: an error, or a tree that differs only where the tar format has no checksum")
	hdrBlocks := []int{}
	for b := range boundary {
		if b < len(raw)-1024 {
			hdrBlocks = append(hdrBlocks, b)
		}
	}
	sortInts(hdrBlocks)
	for _, b := range hdrBlocks {
		for i := 0; i < 512; i++ {
			for _, x := range []byte{0x01, 0x10, 0x80} {
				if i >= 148 && i < 156 {
					continue // the checksum field itself: some alterations are equivalent spellings
				}
				b, i, x := b, i, x
				t.Case(func() string { return fmt.Sprintf("header at %d, byte %d ^ %#x", b, i, x) }, func(c *mc.C) {
					bad := append([]byte(nil), raw...)
					bad[b+i] ^= x
					judge(c, ltar.RawLayer(bad), 0, true)
				})
			}
		}
	}
	// gzip'd layer files, as the command line reads them
	var gzb bytes.Buffer
	zw := gzip.NewWriter(&gzb)
	_, _ = zw.Write(raw)
	_ = zw.Close()
	gz := gzb.Bytes()
	dir, err := os.MkdirTemp("", "c03.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "layer")
	viaFile := func(bs []byte) (ociv1.Layer, error) {
		if err := os.WriteFile(fn, bs, 0o600); err != nil {
			panic(err)
		}
		return ociv1tarball.LayerFromFile(fn)
	}
	t.Section("gzip-file", bounds("every truncation point and every byte corruption (x3) of a %d byte layer.tar.gz", len(gz)))
	for n := 1; n < len(gz); n++ {
		for k := 0; k < 4; k++ {
			n, k := n, k
			t.Case(func() string { return fmt.Sprintf("at %d, kind %d", n, k) }, func(c *mc.C) {
				bad := append([]byte(nil), gz...)
				if k == 0 {
					bad = bad[:n]
				} else {
					bad[n] ^= []byte{0, 1, 0x10, 0xff}[k]
				}
				layer, err := viaFile(bad)
				if err != nil {
					c.Outcome("layer error")
					return
				}
				judge(c, layer, 0, false)
			})
		}
	}
	// the same for a gzip'd stream that is handed over without being looked at first
	t.Section("gzip-stream", "every byte corruption of a compressed layer of which only the content is read")
	for n := 10; n < len(gz); n++ {
		for k := 0; k < 2; k++ {
			n, k := n, k
			t.Case(func() string { return fmt.Sprintf("at %d, kind %d", n, k) }, func(c *mc.C) {
				bad := append([]byte(nil), gz...)
				bad[n] ^= []byte{0x01, 0xff}[k]
				if n >= len(gz)-8 {
					c.Count("trailer_corruptions", 1)
				}
				judge(c, gzLayer{bs: bad}, 0, n >= len(gz)-8)
			})
		}
	}
}

type gzLayer struct {
	ltar.RawLayer // for the methods that are not used
	bs            []byte
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (l gzLayer) Uncompressed() (io.ReadCloser, error) {
	return gzip.NewReader(bytes.NewReader(l.bs))
}
