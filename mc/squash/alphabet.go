package main

import (
	"archive/tar"
	"fmt"
	"strings"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
)

// An elem is a symbol of the layer alphabet; what tar entry it becomes depends on the position of its
// layer in the stack (so that contents and metadata of different layers differ).
type elem struct {
	typ  byte
	name string
	link string
}

func (e elem) String() string {
	s := map[byte]string{tar.TypeReg: "file ", tar.TypeDir: "dir ", tar.TypeSymlink: "sym ", tar.TypeLink: "hard ",
		tar.TypeFifo: "fifo ", tar.TypeChar: "chr ", tar.TypeBlock: "blk "}[e.typ] + e.name
	if e.link != "" {
		s += "->" + e.link
	}
	if ltar.IsWhiteout(e.name) {
		s = e.name
	}
	return s
}

func (e elem) ent(pos int) ltar.Ent {
	h := tar.Header{Typeflag: e.typ, Name: e.name, Linkname: e.link,
		Mode: 0o640 + int64(pos), Uid: 100 + pos, Gid: 200 + pos, Uname: fmt.Sprintf("u%d", pos),
		Gname: fmt.Sprintf("g%d", pos), ModTime: time.Unix(1000000000+int64(pos)*1000, 0)}
	var body []byte
	switch e.typ {
	case tar.TypeReg:
		if !ltar.IsWhiteout(e.name) {
			body = []byte(fmt.Sprintf("layer %d: %s", pos, e.name))
			h.PAXRecords = map[string]string{"SCHILY.xattr.user.k": fmt.Sprint(pos)}
		}
	case tar.TypeDir:
		h.Name += "/"
		h.Mode = 0o750 + int64(pos)
	case tar.TypeChar, tar.TypeBlock:
		h.Devmajor, h.Devminor = int64(pos+1), int64(pos+2)
	}
	return ltar.Ent{Hdr: h, Body: body}
}

type layerSpec []elem

func (l layerSpec) String() string {
	var parts []string
	for _, e := range l {
		parts = append(parts, e.String())
	}
	return "{" + strings.Join(parts, "; ") + "}"
}

// built is a layer spec at a stack position, ready for use.
type built struct {
	ents []ltar.Ent // as decoded again from the stream
	raw  []byte
}

var builtCache = map[string]*built{}

func build(l layerSpec, pos int) *built {
	key := fmt.Sprintf("%d%s", pos, l)
	if b, ok := builtCache[key]; ok {
		return b
	}
	var ents []ltar.Ent
	for _, e := range l {
		ents = append(ents, e.ent(pos))
	}
	raw := ltar.MustEncode(ents)
	dec, err := ltar.Decode(raw)
	if err != nil {
		panic(err)
	}
	b := &built{ents: dec, raw: raw}
	if len(builtCache) < 200000 {
		builtCache[key] = b
	}
	return b
}

func f(name string) elem       { return elem{tar.TypeReg, name, ""} }
func d(name string) elem       { return elem{tar.TypeDir, name, ""} }
func s(name, link string) elem { return elem{tar.TypeSymlink, name, link} }
func h(name, link string) elem { return elem{tar.TypeLink, name, link} }

// The alphabet of C01/C03/C04: a small namespace with two levels, a second directory, and symlinks.
var alphabet = []elem{
	f("d"), f("d/x"), f("d/y"), f("d/s"), f("d/s/z"), f("e"), f("e/w"), f("l"), f("l/x"), f("l/s/z"),
	d("d"), d("d/s"), d("e"), d("l"), d("."),
	s("l", "d"), s("l", "/e"), s("d", "e"), s("d/s", "../e"), s("l", "q/r"), s("d/x", "y"),
	f(".wh.d"), f("d/.wh.x"), f("d/.wh.s"), f(".wh.e"), f(".wh.l"), f("l/.wh.x"), f("d/s/.wh.z"),
	f(".wh..wh..opq"), f("d/.wh..wh..opq"), f("d/s/.wh..wh..opq"), f("l/.wh..wh..opq"),
	{tar.TypeChar, "d/x", ""},
}

// core is a reduced alphabet for deeper histories.
var core = []elem{
	f("d"), f("d/x"), f("d/s/z"), f("e"),
	d("d"), d("d/s"),
	s("l", "d"), s("d", "e"), f("l/x"), d("l"),
	f(".wh.d"), f("d/.wh.x"), f("d/.wh.s"),
	f("d/.wh..wh..opq"), f(".wh..wh..opq"),
}

func single(es []elem) []layerSpec {
	var ret []layerSpec
	for _, e := range es {
		ret = append(ret, layerSpec{e})
	}
	return ret
}

func pairs(es []elem) []layerSpec {
	var ret []layerSpec
	for _, a := range es {
		for _, b := range es {
			if a == b {
				continue
			}
			ret = append(ret, layerSpec{a, b})
		}
	}
	return ret
}

// lowers are the filesystems below the stack.
func lowers() []*ltar.FS {
	mk := func(es ...elem) *ltar.FS {
		fs := ltar.NewFS()
		var ents []ltar.Ent
		for _, e := range es {
			en := e.ent(900)
			en.Hdr.ModTime = time.Unix(5000, 0)
			ents = append(ents, en)
		}
		dec, err := ltar.Decode(ltar.MustEncode(ents))
		if err != nil {
			panic(err)
		}
		if err := fs.Apply(dec, false); err != nil {
			panic(err)
		}
		return fs
	}
	return []*ltar.FS{
		mk(d(".")),
		// everything a directory, populated
		mk(d("."), d("d"), f("d/x"), f("d/y"), f("d/low"), d("d/s"), f("d/s/z"), f("d/s/low"), d("e"), f("e/w"),
			f("e/low"), d("l"), f("l/x"), f("l/low"), d("l/s"), f("l/s/z"), d("q"), d("q/r"), f("q/r/x"), f("other")),
		// files where the stack may want directories
		mk(d("."), f("d"), f("e"), f("l"), f("q"), f("other")),
		// directories below, files at the second level
		mk(d("."), d("d"), f("d/s"), f("d/x"), d("e"), d("e/w"), f("e/w/low"), d("q"), f("q/r"), d("l"), d("l/x"), f("l/x/low")),
	}
}
