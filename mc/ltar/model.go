package ltar

import (
	"archive/tar"
	"fmt"
	"path"
	"sort"
	"strings"
)

// Inode is a file object of the reference model.
type Inode struct {
	Type     byte // tar type; TypeDir for directories
	Implicit bool // directory that was never given metadata
	Meta     string
	Link     string
	Body     string
	Kids     map[string]*Inode // directories
	Hdr      *tar.Header
}

// FS is a filesystem tree of the reference model.
type FS struct {
	Root *Inode
	// Lenient makes a whiteout marker below a non-directory imply that it is a directory (as any
	// other entry does), instead of leaving the result undefined.
	Lenient bool
}

// NewFS returns an empty filesystem.
func NewFS() *FS { return &FS{Root: newDir()} }

func newDir() *Inode { return &Inode{Type: tar.TypeDir, Implicit: true, Kids: map[string]*Inode{}} }

// ErrDomain reports a stack that is outside of the domain of the specification (an unpacker would fail
// on it, or the specification does not define the result).
type ErrDomain struct{ Why string }

func (e ErrDomain) Error() string { return "outside of domain: " + e.Why }

// ErrLoop reports a symlink loop.
type ErrLoop struct{}

func (ErrLoop) Error() string { return "too many symlinks" }

// ErrNotExist and ErrNotDir are the lookup errors of the model.
type (
	ErrNotExist struct{}
	ErrNotDir   struct{}
)

func (ErrNotExist) Error() string { return "does not exist" }
func (ErrNotDir) Error() string   { return "not a directory" }

const maxLinks = 40

// walk finds the directory that holds the last component of a path, following symlinks inside of the
// root.  If create is set, missing directories are created (implicitly), dangling symlinks are filled
// in, and non-directories are replaced by implicit directories.
// onNonDir is called (if create) when a non-directory gets in the way.
type walker struct {
	fs       *FS
	create   bool
	onNonDir func() error
	links    int
	created  bool
}

// dirAt resolves a path given as a list of components, starting at the directory chain `at`, to a chain
// of directories.
func (w *walker) dirAt(chain []*Inode, comps []string) ([]*Inode, error) {

	for _, c := range comps {
		switch c {
		case "", ".":
			continue
		case "..":
			if w.created {
				return nil, ErrDomain{".. below a missing directory"}
			}
			if len(chain) > 1 {
				chain = chain[:len(chain)-1]
			}
			continue
		}
		dir := chain[len(chain)-1]
		kid := dir.Kids[c]
		if kid == nil {
			if !w.create {
				return nil, ErrNotExist{}
			}
			kid = newDir()
			dir.Kids[c] = kid
			w.created = true
		}
		switch kid.Type {
		case tar.TypeDir:
			chain = append(chain[:len(chain):len(chain)], kid)
		case tar.TypeSymlink:
			w.links++
			if w.links > maxLinks {
				return nil, ErrLoop{}
			}
			start := chain
			if strings.HasPrefix(kid.Link, "/") {
				start = chain[:1]
			}
			var err error
			chain, err = w.dirAt(start, strings.Split(kid.Link, "/"))
			if err != nil {
				return nil, err
			}
		default:
			if !w.create {
				return nil, ErrNotDir{}
			}
			if w.onNonDir != nil {
				if err := w.onNonDir(); err != nil {
					return nil, err
				}
			}
			kid = newDir()
			dir.Kids[c] = kid
			w.created = true
			chain = append(chain[:len(chain):len(chain)], kid)
		}
	}
	return chain, nil
}

func (fs *FS) parent(name string, create bool, onNonDir func() error) (*Inode, string, error) {
	dir, base := path.Split(path.Clean(name))
	w := walker{fs: fs, create: create, onNonDir: onNonDir}
	chain, err := w.dirAt([]*Inode{fs.Root}, strings.Split(dir, "/"))
	if err != nil {
		return nil, "", err
	}
	return chain[len(chain)-1], base, nil
}

// Lookup finds the object at name, following symlinks (the final one only if follow is set).
func (fs *FS) Lookup(name string, follow bool) (*Inode, error) {
	w := walker{fs: fs}
	chain := []*Inode{fs.Root}
	comps := strings.Split(path.Clean(name), "/")
	return w.lookup(chain, comps, follow)
}

func (w *walker) lookup(chain []*Inode, comps []string, follow bool) (*Inode, error) {
	var err error
	chain, err = w.dirAt(chain, comps[:len(comps)-1])
	if err != nil {
		return nil, err
	}
	last := comps[len(comps)-1]
	switch last {
	case "", ".":
		return chain[len(chain)-1], nil
	case "..":
		if len(chain) > 1 {
			return chain[len(chain)-2], nil
		}
		return chain[0], nil
	}
	kid := chain[len(chain)-1].Kids[last]
	if kid == nil {
		return nil, ErrNotExist{}
	}
	if kid.Type == tar.TypeSymlink && follow {
		w.links++
		if w.links > maxLinks {
			return nil, ErrLoop{}
		}
		start := chain
		if strings.HasPrefix(kid.Link, "/") {
			start = chain[:1]
		}
		return w.lookup(start, strings.Split(strings.TrimRight(kid.Link, "/"), "/"), true)
	}
	return kid, nil
}

const (
	whPrefix = ".wh."
	whOpaque = ".wh..wh..opq"
)

// IsWhiteout reports whether a name is a whiteout marker.
func IsWhiteout(name string) bool { return strings.HasPrefix(path.Base(path.Clean(name)), whPrefix) }

// Apply unpacks a layer on to the tree: whiteouts apply to what lower layers put there, then the entries
// are unpacked in order.  inOrder selects the discipline of the common unpackers (markers take effect
// when they are encountered, but opaque markers spare what this layer itself unpacked) instead of the
// specification's (markers first).
func (fs *FS) Apply(layer []Ent, inOrder bool) error {
	if !inOrder {
		for i := range layer {
			if IsWhiteout(layer[i].Hdr.Name) {
				if err := fs.whiteout(layer[i].Hdr.Name, nil); err != nil {
					return err
				}
			}
		}
	}
	mine := map[*Inode]bool{}
	for i := range layer {
		if IsWhiteout(layer[i].Hdr.Name) {
			if inOrder {
				if err := fs.whiteout(layer[i].Hdr.Name, mine); err != nil {
					return err
				}
			}
			continue
		}
		if err := fs.unpack(&layer[i], mine); err != nil {
			return err
		}
	}
	return nil
}

func (fs *FS) whiteout(name string, mine map[*Inode]bool) error {
	nonDir := func() error {
		if fs.Lenient {
			return nil
		}
		return ErrDomain{"whiteout below a non-directory"}
	}
	dir, base, err := fs.parent(name, true, nonDir)
	if err != nil {
		return err
	}
	if base == whOpaque {
		clearDir(dir, mine)
		return nil
	}
	delete(dir.Kids, strings.TrimPrefix(base, whPrefix))
	return nil
}

// clearDir removes everything from a directory except for what is in mine (and the directories leading
// there).
func clearDir(dir *Inode, mine map[*Inode]bool) bool {
	kept := false
	for k, kid := range dir.Kids {
		keep := mine[kid]
		if kid.Type == tar.TypeDir {
			if clearDir(kid, mine) {
				keep = true
			}
		}
		if keep {
			kept = true
		} else {
			delete(dir.Kids, k)
		}
	}
	return kept
}

func (fs *FS) unpack(e *Ent, mine map[*Inode]bool) error {
	name := path.Clean(e.Hdr.Name)
	if name == "." {
		if e.Hdr.Typeflag != tar.TypeDir {
			return ErrDomain{"root is not a directory"}
		}
		fs.Root.Implicit = false
		fs.Root.Meta = Meta(&e.Hdr)
		fs.Root.Hdr = &e.Hdr
		return nil
	}
	dir, base, err := fs.parent(name, true, nil)
	if err != nil {
		return err
	}
	old := dir.Kids[base]
	switch e.Hdr.Typeflag {
	case tar.TypeDir:
		if old != nil && old.Type == tar.TypeDir {
			old.Implicit = false
			old.Meta = Meta(&e.Hdr)
			old.Hdr = &e.Hdr
			mine[old] = true
			return nil
		}
		n := newDir()
		n.Implicit = false
		n.Meta = Meta(&e.Hdr)
		n.Hdr = &e.Hdr
		dir.Kids[base] = n
		mine[n] = true
	case tar.TypeLink:
		tgt, err := fs.Lookup(strings.TrimPrefix(path.Clean(e.Hdr.Linkname), "/"), false)
		if err != nil || tgt.Type == tar.TypeDir {
			return ErrDomain{"hard link to something that is not there"}
		}
		if tgt == old {
			return nil
		}
		dir.Kids[base] = tgt
		mine[tgt] = true
	default:
		n := &Inode{Type: e.Hdr.Typeflag, Meta: Meta(&e.Hdr), Link: e.Hdr.Linkname, Body: string(e.Body), Hdr: &e.Hdr}
		if n.Type == tar.TypeRegA {
			n.Type = tar.TypeReg
		}
		dir.Kids[base] = n
		mine[n] = true
	}
	return nil
}

// Clone copies the tree (sharing of inodes is kept).
func (fs *FS) Clone() *FS {
	seen := map[*Inode]*Inode{}
	var cp func(n *Inode) *Inode
	cp = func(n *Inode) *Inode {
		if c, ok := seen[n]; ok {
			return c
		}
		c := *n
		seen[n] = &c
		if n.Kids != nil {
			c.Kids = make(map[string]*Inode, len(n.Kids))
			for k, v := range n.Kids {
				c.Kids[k] = cp(v)
			}
		}
		return &c
	}
	return &FS{Root: cp(fs.Root)}
}

// Names lists the children of a directory in order.
func (n *Inode) Names() []string {
	ret := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// Diff describes the first difference between the expected and the actual tree ("" if none).  The
// metadata of implicit directories of the expected tree is not compared.
func Diff(want, got *FS) string { return diff(".", want.Root, got.Root) }

func diff(p string, w, g *Inode) string {
	if w.Type != g.Type {
		return fmt.Sprintf("%s: want type %q, got type %q", p, w.Type, g.Type)
	}
	if w.Type == tar.TypeDir {
		if !w.Implicit {
			if g.Implicit {
				return fmt.Sprintf("%s: directory metadata lost; want %s", p, w.Meta)
			}
			if w.Meta != g.Meta {
				return fmt.Sprintf("%s: directory metadata: want %s got %s", p, w.Meta, g.Meta)
			}
		}
		for _, k := range w.Names() {
			if g.Kids[k] == nil {
				return fmt.Sprintf("%s: missing", path.Join(p, k))
			}
		}
		for _, k := range g.Names() {
			if w.Kids[k] == nil {
				return fmt.Sprintf("%s: should not exist", path.Join(p, k))
			}
			if d := diff(path.Join(p, k), w.Kids[k], g.Kids[k]); d != "" {
				return d
			}
		}
		return ""
	}
	if w.Link != g.Link {
		return fmt.Sprintf("%s: link target: want %q got %q", p, w.Link, g.Link)
	}
	if w.Body != g.Body {
		return fmt.Sprintf("%s: content: want %q got %q", p, cl(w.Body), cl(g.Body))
	}
	if w.Meta != g.Meta {
		return fmt.Sprintf("%s: metadata: want %s got %s", p, w.Meta, g.Meta)
	}
	return ""
}

func cl(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", s[:80], len(s))
	}
	return s
}

// LinkGroups renders which names share a file.
func (fs *FS) LinkGroups() string {
	groups := map[*Inode][]string{}
	var visit func(p string, n *Inode)
	visit = func(p string, n *Inode) {
		if n.Type == tar.TypeDir {
			for _, k := range n.Names() {
				visit(path.Join(p, k), n.Kids[k])
			}
			return
		}
		groups[n] = append(groups[n], p)
	}
	visit("", fs.Root)
	var ret []string
	for _, g := range groups {
		if len(g) > 1 {
			ret = append(ret, strings.Join(g, "="))
		}
	}
	sort.Strings(ret)
	return strings.Join(ret, ";")
}

// String is a canonical rendering of the tree.
func (fs *FS) String() string {
	var sb strings.Builder
	var visit func(p string, n *Inode)
	visit = func(p string, n *Inode) {
		fmt.Fprintf(&sb, "%c%s", n.Type, p)
		if n.Type == tar.TypeDir {
			if !n.Implicit {
				sb.WriteString("!" + n.Meta)
			}
			sb.WriteString("\n")
			for _, k := range n.Names() {
				visit(path.Join(p, k), n.Kids[k])
			}
			return
		}
		fmt.Fprintf(&sb, " %s %q %s\n", n.Link, n.Body, n.Meta)
	}
	visit("", fs.Root)
	return sb.String()
}
