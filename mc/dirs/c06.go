package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"os/user"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/datawire/ocibuild/pkg/dir"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c06 = mc.Suite{
	ID:    "C06",
	Level: "model_checking",
	Rule: "all trees of up to 3 entries over an alphabet of entries at several depths; all 4096 permission values; all hard link partitions of 4 (5) names; times, sizes, names, prefixes, owners and " +
		"unreadable or unsupported things at every position; each real directory's layer compared with the specification of the tree; non-trivial: every case",
	Assumptions: []string{
		"times have a resolution of whole seconds in a layer, rounded either way; the clamp time is a whole second",
		"no device nodes (they cannot be made here), no change of the directory while it is read",
		"a prefix that is not a clean relative path may be refused, or must behave like the clean relative path",
	},
	Body: runC06,
}

// node is the specification of one name of a directory.
type node struct {
	p      string
	kind   byte // f, d, l, p (fifo), s (socket)
	mode   uint32
	body   string
	target string // symlink
	link   string // hard link to that name (an earlier one)
	uid    int
	gid    int
	mtime  time.Time
}

var clamp = time.Unix(1600000000, 0)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// makeTree makes the directory. Parents must be listed before their children.
func makeTree(root string, nodes []node) {
	must(os.Mkdir(root, 0o755))
	for _, n := range nodes {
		fn := filepath.Join(root, n.p)
		if n.link != "" {
			must(os.Link(filepath.Join(root, n.link), fn))
			continue
		}
		switch n.kind {
		case 'f':
			must(ioutil.WriteFile(fn, []byte(n.body), 0o600))
		case 'd':
			must(os.Mkdir(fn, 0o700))
		case 'l':
			must(os.Symlink(n.target, fn))
		case 'p':
			must(syscall.Mkfifo(fn, 0o600))
		case 's':
			l, err := net.ListenUnix("unix", &net.UnixAddr{Name: fn, Net: "unix"})
			must(err)
			l.SetUnlinkOnClose(false)
			must(l.Close())
		}
		must(os.Lchown(fn, n.uid, n.gid))
		if n.kind != 'l' {
			must(syscall.Chmod(fn, n.mode))
		}
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		if n.link != "" {
			continue
		}
		ts := syscall.NsecToTimespec(n.mtime.UnixNano())
		utimes(filepath.Join(root, n.p), ts)
	}
}

func removeTree(root string) {
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			_ = os.Chmod(p, 0o700)
		}
		return nil
	})
	must(os.RemoveAll(root))
}

// expected has the wanted entries below a directory.
func orig(nodes []node, i int) node {
	n := nodes[i]
	for n.link != "" {
		for _, m := range nodes {
			if m.p == n.link {
				m.p = n.p
				l := m.link
				m2 := m
				m2.link = l
				n = m2
				break
			}
		}
	}
	return n
}

var names = map[string]string{}

func uname(id int) string {
	k := fmt.Sprint("u", id)
	if _, ok := names[k]; !ok {
		names[k] = ""
		if u, err := user.LookupId(strconv.Itoa(id)); err == nil {
			names[k] = u.Username
		}
	}
	return names[k]
}

func gname(id int) string {
	k := fmt.Sprint("g", id)
	if _, ok := names[k]; !ok {
		names[k] = ""
		if g, err := user.LookupGroupId(strconv.Itoa(id)); err == nil {
			names[k] = g.Name
		}
	}
	return names[k]
}

func layerBytes(root string, prefix *dir.Prefix, chown *dir.Ownership) ([]byte, error) {
	layer, err := dir.LayerFromDir(root, prefix, chown, clamp)
	if err != nil {
		return nil, err
	}
	r, err := layer.Uncompressed()
	if err != nil {
		return nil, err
	}
	bs, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return bs, r.Close()
}

// compare checks a layer against the specification. prefix has the clean directory name.
func compare(c *mc.C, nodes []node, prefix *dir.Prefix, chown *dir.Ownership, bs []byte) {
	ents, err := ltar.Decode(bs)
	if err != nil {
		c.Failf("the layer cannot be read: %v", err)
		return
	}
	if r := bs; len(r) < 1024 || len(bytes.Trim(r[len(r)-1024:], "\x00")) != 0 || len(r)%512 != 0 {
		c.Failf("the layer does not end with the end-of-archive marker")
	}
	pre := ""
	k := 0
	if prefix != nil && prefix.DirName != "" {
		pre = prefix.DirName
		mode := prefix.Mode
		if mode == 0 {
			mode = 0o755
		}
		parts := strings.Split(pre, "/")
		for i := range parts {
			want := strings.Join(parts[:i+1], "/")
			if k >= len(ents) {
				c.Failf("no entry for %q of the prefix", want)
				return
			}
			h := ents[k].Hdr
			if path.Clean(h.Name) != want || h.Typeflag != tar.TypeDir || h.Mode&0o7777 != int64(mode) || h.Uid != prefix.UID || h.Gid != prefix.GID || h.Uname != prefix.UName || h.Gname != prefix.GName || h.ModTime.After(clamp) {
				c.Failf("entry %d is %+v, want %q of the prefix", k, h, want)
				return
			}
			k++
		}
	}
	seen := map[string]int{}
	for ; k < len(ents); k++ {
		h := ents[k].Hdr
		name := path.Clean(h.Name)
		if path.IsAbs(name) {
			c.Failf("absolute name %q", h.Name)
		}
		if pre != "" {
			if !strings.HasPrefix(name, pre+"/") {
				c.Failf("entry %q is not below the prefix", h.Name)
				continue
			}
			name = name[len(pre)+1:]
		}
		if _, dup := seen[name]; dup {
			c.Failf("%q has two entries", name)
		}
		seen[name] = k
		i := -1
		for j := range nodes {
			if nodes[j].p == name {
				i = j
			}
		}
		if i < 0 {
			c.Failf("there is no %q (entry %q)", name, h.Name)
			continue
		}
		n := orig(nodes, i)
		// an earlier name of the same file?
		link := ""
		for p, at := range seen {
			if p == name {
				continue
			}
			for j := range nodes {
				if nodes[j].p == p && at < k && inode(nodes, j) == inode(nodes, i) && n.kind != 'd' {
					link = p
				}
			}
		}
		wantType := map[byte]byte{'f': tar.TypeReg, 'd': tar.TypeDir, 'l': tar.TypeSymlink, 'p': tar.TypeFifo}[n.kind]
		if link != "" {
			wantType = tar.TypeLink
			ok := false
			for p, at := range seen {
				for j := range nodes {
					if nodes[j].p == p && at < k && inode(nodes, j) == inode(nodes, i) && path.Clean(h.Linkname) == path.Join(pre, p) {
						ok = true
					}
				}
			}
			if !ok {
				c.Failf("%q is a hard link to %q, which is not an earlier name of the same file", name, h.Linkname)
			}
			if h.Size != 0 {
				c.Failf("the hard link %q has a size of %d, and no content", name, h.Size)
			}
		}
		if h.Typeflag != wantType {
			c.Failf("%q has type %c, want %c", name, h.Typeflag, wantType)
			continue
		}
		if n.kind == 'l' && link == "" && h.Linkname != n.target {
			c.Failf("%q is a symlink to %q, want %q", name, h.Linkname, n.target)
		}
		if n.kind == 'f' && link == "" && string(ents[k].Body) != n.body {
			c.Failf("%q has %d bytes of content that differ from the %d bytes of the file", name, len(ents[k].Body), len(n.body))
		}
		if n.kind != 'l' && h.Mode&0o7777 != int64(n.mode) {
			c.Failf("%q has mode %#o, want %#o", name, h.Mode, n.mode)
		}
		uid, gid, un, gn := n.uid, n.gid, uname(n.uid), gname(n.gid)
		if chown != nil {
			if chown.UID >= 0 {
				uid = chown.UID
			}
			if chown.GID >= 0 {
				gid = chown.GID
			}
			if chown.UName != "" {
				un = chown.UName
			}
			if chown.GName != "" {
				gn = chown.GName
			}
		}
		if h.Uid != uid || h.Gid != gid || h.Uname != un || h.Gname != gn {
			c.Failf("%q belongs to %d:%d %q:%q, want %d:%d %q:%q", name, h.Uid, h.Gid, h.Uname, h.Gname, uid, gid, un, gn)
		}
		if h.ModTime.After(clamp) || h.AccessTime.After(clamp) || h.ChangeTime.After(clamp) {
			c.Failf("%q has times %v %v %v, after the clamp time %v", name, h.ModTime, h.AccessTime, h.ChangeTime, clamp)
		}
		want := n.mtime
		if want.After(clamp) {
			want = clamp
		}
		if d := h.ModTime.Sub(want); d <= -time.Second || d >= time.Second {
			c.Failf("%q has time %v, want %v", name, h.ModTime.UTC(), want.UTC())
		}
	}
	for _, n := range nodes {
		if _, ok := seen[n.p]; !ok {
			c.Failf("there is no entry for %q", n.p)
		}
	}
}

func inode(nodes []node, i int) string {
	n := nodes[i]
	for n.link != "" {
		for _, m := range nodes {
			if m.p == n.link {
				n = m
				break
			}
		}
	}
	return n.p
}

func show(nodes []node) string {
	var s []string
	for _, n := range nodes {
		x := fmt.Sprintf("%q %c %#o %d:%d", n.p, n.kind, n.mode, n.uid, n.gid)
		if n.link != "" {
			x = fmt.Sprintf("%q = %q", n.p, n.link)
		}
		if n.target != "" {
			x += " -> " + n.target
		}
		s = append(s, x)
	}
	return strings.Join(s, "; ")
}

// withParents adds the directories that are missing, sorts by depth.
func withParents(nodes []node) []node {
	have := map[string]bool{}
	for _, n := range nodes {
		have[n.p] = true
	}
	for i := 0; i < len(nodes); i++ {
		for d := path.Dir(nodes[i].p); d != "."; d = path.Dir(d) {
			if !have[d] {
				have[d] = true
				nodes = append(nodes, node{p: d, kind: 'd', mode: 0o755, mtime: clamp.Add(-time.Hour)})
			}
		}
	}
	sort.SliceStable(nodes, func(i, j int) bool {
		a, b := strings.Count(nodes[i].p, "/"), strings.Count(nodes[j].p, "/")
		if nodes[i].kind == 'd' || nodes[j].kind == 'd' {
			if (nodes[i].kind == 'd') != (nodes[j].kind == 'd') {
				return nodes[i].kind == 'd'
			}
			return a < b
		}
		if (nodes[i].link == "") != (nodes[j].link == "") {
			return nodes[i].link == ""
		}
		return false
	})
	return nodes
}

var serial int

func scratch() string {
	serial++
	return filepath.Join(os.Getenv("WORK"), "tmp", fmt.Sprintf("c06-%d-%d", os.Getpid(), serial))
}

func check(c *mc.C, nodes []node, prefix *dir.Prefix, chown *dir.Ownership) {
	root := scratch()
	makeTree(root, nodes)
	defer removeTree(root)
	var p2 *dir.Prefix
	if prefix != nil {
		x := *prefix
		p2 = &x
	}
	bs, err := layerBytes(root, p2, chown)
	bad := false
	for _, n := range nodes {
		bad = bad || n.kind == 's'
	}
	if bad {
		if err == nil {
			c.Failf("%s: a socket cannot be in a layer, but there is no error", show(nodes))
		}
		return
	}
	if err != nil {
		c.Failf("%s: %v", show(nodes), err)
		return
	}
	compare(c, nodes, prefix, chown, bs)
}

func runC06(t *mc.T) {
	old := clamp.Add(-time.Hour)
	var alpha []node
	add := func(n node) {
		if n.mode == 0 {
			n.mode = 0o644
		}
		if n.mtime.IsZero() {
			n.mtime = old
		}
		alpha = append(alpha, n)
	}
	for _, p := range []string{"a", "b", "d/x", "d/y", "d/e/z", "e/x"} {
		add(node{p: p, kind: 'f', body: "1:" + p, uid: 1, gid: 2})
		add(node{p: p, kind: 'l', target: "b"})
		add(node{p: p, kind: 'd', mode: 0o1775, gid: 5})
		if p == "a" || p == "d/x" {
			add(node{p: p, kind: 'f', mode: 0o4755, mtime: clamp.Add(time.Hour)})
			add(node{p: p, kind: 'f', body: strings.Repeat("x", 1025), mode: 0o400, uid: 12345, gid: 54321})
			add(node{p: p, kind: 'p', mode: 0o620})
			add(node{p: p, kind: 's', mode: 0o777})
			add(node{p: p, kind: 'l', target: "/nowhere/../x", uid: 7, mtime: clamp.Add(time.Minute)})
		}
	}
	for _, l := range [][2]string{{"h", "a"}, {"d/h", "a"}, {"A", "d/x"}, {"d/a", "d/x"}, {"b", "a"}, {"z", "d/e/z"}} {
		add(node{p: l[0], kind: 'f', link: l[1]})
	}
	t.Section("trees", fmt.Sprintf("all trees of up to 3 entries over %d entries (and the directories they need), with and without a prefix", len(alpha)))
	do := func(nodes []node) {
		have := map[string]bool{}
		for _, n := range nodes {
			if have[n.p] {
				return
			}
			have[n.p] = true
			if n.link != "" {
				ok := false
				for _, m := range nodes {
					ok = ok || m.p == n.link && m.link == "" && m.kind != 'd'
				}
				if !ok {
					return
				}
			}
		}
		for _, n := range nodes {
			for d := path.Dir(n.p); d != "."; d = path.Dir(d) {
				for _, m := range nodes {
					if m.p == d && m.kind != 'd' {
						return
					}
				}
			}
		}
		nodes = withParents(append([]node(nil), nodes...))
		t.Case(func() string { return show(nodes) }, func(c *mc.C) {
			check(c, nodes, nil, nil)
			if len(nodes) < 3 || len(nodes)%2 == 0 {
				check(c, nodes, &dir.Prefix{DirName: "usr/local", Ownership: dir.Ownership{UID: 8, UName: "pu", GID: 9, GName: "pg"}}, nil)
			}
			c.Outcome(show(nodes))
		})
	}
	do(nil)
	for i := range alpha {
		do([]node{alpha[i]})
		for j := i + 1; j < len(alpha); j++ {
			do([]node{alpha[i], alpha[j]})
			for k := j + 1; k < len(alpha); k++ {
				do([]node{alpha[i], alpha[j], alpha[k]})
				if t.Thorough() && i%4 == 0 {
					for l := k + 1; l < len(alpha); l++ {
						do([]node{alpha[i], alpha[j], alpha[k], alpha[l]})
					}
				}
			}
		}
	}

	t.Section("modes", "all 4096 permission values of files, directories and pipes")
	for m := 0; m < 4096; m += 64 {
		m := m
		t.Case(func() string { return fmt.Sprintf("modes from %#o on", m) }, func(c *mc.C) {
			var nodes []node
			for i := m; i < m+64; i++ {
				for _, k := range "fdp" {
					nodes = append(nodes, node{p: fmt.Sprintf("%c%04o", k, i), kind: byte(k), mode: uint32(i), mtime: old})
				}
			}
			check(c, nodes, nil, nil)
			c.Inner(len(nodes))
			c.Outcome(fmt.Sprint(m))
		})
	}

	t.Section("hardlinks", "all partitions of names in two directories into hard link groups, of files, symlinks and pipes, with and without a prefix")
	linknames := []string{"a", "c", "d/b", "d/x"}
	if t.Thorough() {
		linknames = append(linknames, "d/e", "z")
	}
	var parts [][]int
	var rec func(p []int, max int)
	rec = func(p []int, max int) {
		if len(p) == len(linknames) {
			parts = append(parts, append([]int(nil), p...))
			return
		}
		for g := 0; g <= max; g++ {
			m := max
			if g == max {
				m++
			}
			rec(append(p, g), m)
		}
	}
	rec(nil, 0)
	for _, part := range parts {
		for _, kind := range []byte("flp") {
			part, kind := part, kind
			t.Case(func() string { return fmt.Sprintf("%c: groups %v of %v", kind, part, linknames) }, func(c *mc.C) {
				first := map[int]string{}
				var nodes []node
				for i, g := range part {
					n := node{p: linknames[i], kind: kind, mode: 0o640, mtime: old, uid: g}
					if f, ok := first[g]; ok {
						n.link = f
					} else {
						first[g] = n.p
						if kind == 'f' {
							n.body = "the same"
						}
						if kind == 'l' {
							n.target = "target"
						}
					}
					nodes = append(nodes, n)
				}
				nodes = withParents(nodes)
				check(c, nodes, nil, nil)
				check(c, nodes, &dir.Prefix{DirName: "p"}, &dir.Ownership{UID: 3, GID: 4, UName: "x", GName: "y"})
				check(c, nodes, &dir.Prefix{DirName: "usr/local/bin", Mode: 0o700}, nil)
				c.Outcome(fmt.Sprint(part, kind))
			})
		}
	}

	t.Section("times", "modification times around the clamp time, of every kind of entry")
	for _, d := range []time.Duration{-time.Hour, -2 * time.Second, -time.Second, -700 * time.Millisecond, -500 * time.Millisecond, -400 * time.Millisecond, -1, 0, 1, 400 * time.Millisecond, 500 * time.Millisecond, 600 * time.Millisecond, time.Second, time.Hour, 100000 * time.Hour, -1600000000 * time.Second, -1600000100 * time.Second} {
		d := d
		t.Case(func() string { return fmt.Sprintf("the clamp time %+v", d) }, func(c *mc.C) {
			var nodes []node
			for _, k := range "fdpl" {
				nodes = append(nodes, node{p: string(k), kind: byte(k), mode: 0o755, mtime: clamp.Add(d), target: map[rune]string{'l': "t"}[k]})
			}
			nodes = append(nodes, node{p: "h", kind: 'f', mode: 0o755, link: "f"})
			check(c, nodes, nil, nil)
			check(c, nodes, &dir.Prefix{DirName: "x/y"}, &dir.Ownership{UID: 5, GID: -1})
			c.Outcome(fmt.Sprint(d))
		})
	}

	sizes := t.Sizes(0, 200000, []int64{0, 1, 511, 512, 513, 1023, 1024, 1025, 10240, 32767, 32768, 32769, 65536, 100001}, "pkg/dir", "pkg/gobuild")
	t.Section("sizes", fmt.Sprintf("files of %d sizes, followed by another", len(sizes)))
	for _, sz := range sizes {
		sz := int(sz)
		t.Case(func() string { return fmt.Sprintf("%d bytes", sz) }, func(c *mc.C) {
			check(c, []node{{p: "a", kind: 'f', mode: 0o644, mtime: old, body: strings.Repeat("0123456789\n", sz/11+1)[:sz]}, {p: "b", kind: 'f', mode: 0o644, mtime: old, body: "b"}}, nil, nil)
			c.Outcome(fmt.Sprint(sz))
		})
	}

	syms := []string{"a", ".", "..", " ", "\n", "\\", "\x80", "é", "-", "*", "~", "\x01", "%", "\"", "'", ".wh.", ":", strings.Repeat("n", 99), strings.Repeat("m", 120)}
	t.Section("names", fmt.Sprintf("all names of up to 2 of %d symbols, as file, directory, symlink and its target; deep directories", len(syms)))
	for _, a := range syms {
		for _, b := range append([]string{""}, syms...) {
			a, b := a, b
			if a+b == "." || a+b == ".." || len(a+b) > 255 {
				continue
			}
			t.Case(func() string { return fmt.Sprintf("name %q", a+b) }, func(c *mc.C) {
				for _, k := range []byte("fdl") {
					check(c, []node{{p: a + b, kind: k, mode: 0o755, mtime: old, target: map[byte]string{'l': b + a + "/" + b}[k]}}, nil, nil)
				}
				check(c, []node{{p: a + b, kind: 'd', mode: 0o755, mtime: old}, {p: a + b + "/" + b + a, kind: 'f', body: "x", mode: 0o644, mtime: old}}, &dir.Prefix{DirName: "p/q"}, nil)
				c.Inner(4)
				c.Outcome(a + b)
			})
		}
	}
	for n := 1; n <= 60; n++ {
		n := n
		t.Case(func() string { return fmt.Sprintf("%d directories deep", n) }, func(c *mc.C) {
			var nodes []node
			p := ""
			for i := 0; i < n; i++ {
				p = path.Join(p, "dir7-"+strconv.Itoa(i))
				nodes = append(nodes, node{p: p, kind: 'd', mode: 0o755, mtime: old})
			}
			nodes = append(nodes, node{p: p + "/f", kind: 'f', mode: 0o644, body: "x", mtime: old})
			check(c, nodes, &dir.Prefix{DirName: "q"}, nil)
			c.Outcome(fmt.Sprint("deep", n))
		})
	}

	c06lengths(t)
	c06words(t)

	tree := withParents([]node{
		{p: "f", kind: 'f', mode: 0o644, body: "f", mtime: old, uid: 1, gid: 2}, {p: "d", kind: 'd', mode: 0o711, mtime: old, uid: 3, gid: 0}, {p: "d/l", kind: 'l', target: "x", mtime: old, uid: 4, gid: 3},
		{p: "d/h", link: "f", kind: 'f'}, {p: "p", kind: 'p', mode: 0o600, mtime: old},
	})
	t.Section("prefixes", "prefixes, clean and not, x modes x owners")
	pres := map[string]string{"a": "a", "a/b": "a/b", "usr/local/bin": "usr/local/bin", "a/b/c/d/e/f": "a/b/c/d/e/f", "-": "-", ".a": ".a", "..a": "..a", "a b": "a b", "a/..b/c": "a/..b/c", "d": "d", strings.Repeat("x", 130): strings.Repeat("x", 130),
		"a/": "a", "a//b": "a/b", "./a": "a", "/a": "a", "/a/b/": "a/b", "//a": "a", "a/.": "a", "a/../b": "b", "a/./b": "a/b"}
	var prekeys []string
	for k := range pres {
		prekeys = append(prekeys, k)
	}
	sort.Strings(prekeys)
	for _, pk := range prekeys {
		for _, mode := range []int{0, 0o755, 0o700, 0o1777, 0o2750} {
			pk, mode := pk, mode
			t.Case(func() string { return fmt.Sprintf("prefix %q, mode %#o", pk, mode) }, func(c *mc.C) {
				root := scratch()
				makeTree(root, tree)
				defer removeTree(root)
				for _, ow := range []dir.Ownership{{}, {UID: 1, UName: "u", GID: 2, GName: "g"}, {UID: 3000000, GID: 0, GName: "é"}, {UID: 0, UName: "root", GID: 5}} {
					for _, ch := range []*dir.Ownership{nil, {UID: -1, GID: 77}} {
						p := dir.Prefix{DirName: pk, Mode: mode, Ownership: ow}
						bs, err := layerBytes(root, &p, ch)
						if err != nil {
							if pk == pres[pk] {
								c.Failf("%v", err)
							}
							continue
						}
						compare(c, tree, &dir.Prefix{DirName: pres[pk], Mode: mode, Ownership: ow}, ch, bs)
						c.Inner(1)
					}
				}
				c.Outcome(fmt.Sprint(pk, mode))
			})
		}
	}
	for _, pk := range []string{"", ".", "..", "../a", "/", "//", "/..", "../../a/b", "a/../.."} {
		pk := pk
		t.Case(func() string { return fmt.Sprintf("prefix %q: an error, or nothing outside", pk) }, func(c *mc.C) {
			root := scratch()
			makeTree(root, tree)
			defer removeTree(root)
			bs, err := layerBytes(root, &dir.Prefix{DirName: pk}, nil)
			if err == nil {
				clean := strings.TrimPrefix(path.Clean("/"+pk), "/")
				var p *dir.Prefix
				if clean != "" {
					p = &dir.Prefix{DirName: clean}
				}
				compare(c, tree, p, nil, bs)
			}
			c.Outcome(pk)
		})
	}

	t.Section("owners", "all combinations of owner overrides")
	for _, u := range []int{-1, 0, 7, 3000000} {
		for _, g := range []int{-1, 0, 8, 3000000} {
			u, g := u, g
			t.Case(func() string { return fmt.Sprintf("uid %d gid %d with every name", u, g) }, func(c *mc.C) {
				for _, un := range []string{"", "un", "root"} {
					for _, gn := range []string{"", "gn", "root"} {
						check(c, tree, nil, &dir.Ownership{UID: u, GID: g, UName: un, GName: gn})
						check(c, tree, &dir.Prefix{DirName: "x", Ownership: dir.Ownership{UID: 1, GID: 2, UName: "a", GName: "b"}}, &dir.Ownership{UID: u, GID: g, UName: un, GName: gn})
						c.Inner(2)
					}
				}
				c.Outcome(fmt.Sprint(u, g))
			})
		}
	}

	t.Section("roots", "ways to name the directory, and things that are not directories")
	for _, k := range []string{"abs", "slash", "dot", "link", "linklink", "dotdot", "file", "link to file", "fifo", "absent", "dangling", "empty", "below file", "loop"} {
		k := k
		t.Case(func() string { return k }, func(c *mc.C) {
			base := scratch()
			must(os.Mkdir(base, 0o755))
			defer removeTree(base)
			makeTree(base+"/t", tree)
			must(ioutil.WriteFile(base+"/f", []byte("x"), 0o644))
			must(os.Symlink("t", base+"/l"))
			must(os.Symlink("l", base+"/ll"))
			must(os.Symlink("f", base+"/lf"))
			must(os.Symlink("nowhere", base+"/dangling"))
			must(os.Symlink("loop", base+"/loop"))
			must(syscall.Mkfifo(base+"/fifo", 0o644))
			must(os.Mkdir(base+"/wd", 0o755))
			arg := map[string]string{"abs": base + "/t", "slash": base + "/t//", "dot": base + "/./t/.", "link": base + "/l", "linklink": base + "/ll", "dotdot": base + "/wd/../t", "file": base + "/f", "link to file": base + "/lf",
				"fifo": base + "/fifo", "absent": base + "/absent", "dangling": base + "/dangling", "empty": "", "below file": base + "/f/x", "loop": base + "/loop"}[k]
			bs, err := layerBytes(arg, nil, nil)
			switch k {
			case "abs", "slash", "dot", "link", "linklink", "dotdot":
				if err != nil {
					c.Failf("%v", err)
				} else {
					compare(c, tree, nil, nil, bs)
				}
			default:
				if err == nil {
					c.Failf("this is not a directory, but there is a layer instead of an error")
				}
			}
			c.Outcome(k)
		})
	}

	t.Section("unreadable", "a file or directory that may not be read, at every position (as an unprivileged user)")
	for _, k := range []string{"nothing", "f", "d", "d/g", "d/e", "d/e/x", "z", "d-search", "d/e-search", "."} {
		k := k
		t.Case(func() string { return "unreadable: " + k }, func(c *mc.C) {
			root, err := ioutil.TempDir("/tmp", "verif-c06.")
			must(err)
			defer removeTree(root)
			must(os.Chmod(root, 0o755))
			nodes := []node{{p: "d", kind: 'd', mode: 0o755}, {p: "d/e", kind: 'd', mode: 0o755}, {p: "f", kind: 'f', mode: 0o644, body: "f"}, {p: "d/g", kind: 'f', mode: 0o644, body: "g"}, {p: "d/e/x", kind: 'f', mode: 0o644, body: "x"}, {p: "z", kind: 'f', mode: 0o644, body: "z"}}
			for i := range nodes {
				nodes[i].mtime = old
				if nodes[i].p == strings.TrimSuffix(k, "-search") {
					nodes[i].mode = 0
					if strings.HasSuffix(k, "-search") {
						nodes[i].mode = 0o644 // may be listed, but nothing in it may be reached
					}
				}
			}
			makeTree(root+"/t", nodes)
			if k == "." {
				must(os.Chmod(root+"/t", 0))
			}
			cmd := exec.Command("/proc/self/exe")
			cmd.Env = append(os.Environ(), "C06_HELPER="+root+"/t")
			cmd.Dir = "/"
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
			var out bytes.Buffer
			cmd.Stdout = &out
			if err := cmd.Run(); err != nil {
				panic(fmt.Errorf("helper: %w", err))
			}
			if k == "nothing" {
				if !strings.HasPrefix(out.String(), "ok") {
					c.Failf("%s", out.String())
				}
			} else if !strings.HasPrefix(out.String(), "error") {
				c.Failf("%q cannot be read, but there is a layer instead of an error", k)
			}
			c.Outcome(k)
		})
	}

	t.Section("command", "ocibuild layer dir with every combination of flags")
	flags := [][]string{{"--prefix=usr/x"}, {"--prefix-uid=3", "--prefix-gid=4", "--prefix-uname=pu", "--prefix-gname=pg"}, {"--chown-uid=5"}, {"--chown-gid=6"}, {"--chown-uname=cu"}}
	for m := 0; m < 1<<uint(len(flags)); m++ {
		m := m
		t.Case(func() string { return fmt.Sprintf("flags %b", m) }, func(c *mc.C) {
			root := scratch()
			makeTree(root, tree)
			defer removeTree(root)
			for _, gn := range []string{"", "cg"} {
				args := []string{"layer", "dir", "--chown-gname=" + gn}
				chown := &dir.Ownership{UID: -1, GID: -1, GName: gn}
				prefix := &dir.Prefix{Ownership: dir.Ownership{UName: "root", GName: "root"}}
				for i, f := range flags {
					if m>>uint(i)&1 == 1 {
						args = append(args, f...)
						switch i {
						case 0:
							prefix.DirName = "usr/x"
						case 1:
							prefix.Ownership = dir.Ownership{UID: 3, GID: 4, UName: "pu", GName: "pg"}
						case 2:
							chown.UID = 5
						case 3:
							chown.GID = 6
						case 4:
							chown.UName = "cu"
						}
					}
				}
				if m&1 == 0 {
					prefix = nil
				}
				cmd := exec.Command(os.Getenv("OCIBUILD"), append(args, root)...)
				cmd.Env = append(os.Environ(), fmt.Sprintf("SOURCE_DATE_EPOCH=%d", clamp.Unix()))
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				if err := cmd.Run(); err != nil {
					c.Failf("%q: %v: %s", args, err, errb.String())
					continue
				}
				compare(c, tree, prefix, chown, out.Bytes())
				c.Inner(1)
			}
			c.Outcome(fmt.Sprint(m))
		})
	}
}

// helper makes a layer of the named directory as an unprivileged user.
func helper() {
	if _, err := layerBytes(os.Getenv("C06_HELPER"), nil, nil); err != nil {
		fmt.Println("error", err)
		return
	}
	fmt.Println("ok")
}
