package main

import (
	"archive/tar"
	"path"
	"time"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// c02meta: links whose header says something else than the header of their target.  Which of them counts
// is not fixed, but all names of one file have to have the same metadata in the output.
func c02meta(t *mc.T) {
	type variant struct {
		name string
		mk   func(h *tar.Header)
	}
	vs := []variant{
		{"nothing", func(h *tar.Header) {}},
		{"earlier", func(h *tar.Header) { h.ModTime = h.ModTime.Add(-time.Hour) }},
		{"later", func(h *tar.Header) { h.ModTime = h.ModTime.Add(time.Hour) }},
		{"subsecond", func(h *tar.Header) { h.ModTime = h.ModTime.Add(time.Millisecond); h.Format = tar.FormatPAX }},
		{"no time", func(h *tar.Header) { h.ModTime = time.Time{} }},
		{"atime", func(h *tar.Header) {
			h.AccessTime, h.ChangeTime = h.ModTime.Add(time.Second), h.ModTime
			h.Format = tar.FormatPAX
		}},
		{"mode", func(h *tar.Header) { h.Mode = 0o4755 }},
		{"no mode", func(h *tar.Header) { h.Mode = 0 }},
		{"link mode", func(h *tar.Header) { h.Mode = 0o777 }},
		{"uid", func(h *tar.Header) { h.Uid, h.Uname = 4242, "other" }},
		{"root", func(h *tar.Header) { h.Uid, h.Uname, h.Gid, h.Gname = 0, "root", 0, "root" }},
		{"gid", func(h *tar.Header) { h.Gid, h.Gname = 1<<22, "others" }},
		{"no names", func(h *tar.Header) { h.Uname, h.Gname = "", "" }},
		{"xattr", func(h *tar.Header) { h.PAXRecords = map[string]string{"SCHILY.xattr.user.k": "v"} }},
		{"vendor", func(h *tar.Header) { h.PAXRecords = map[string]string{"VENDOR.k": "v"} }},
		{"gnu", func(h *tar.Header) { h.Format = tar.FormatGNU }},
		{"ustar", func(h *tar.Header) { h.Format = tar.FormatUSTAR }},
		{"device", func(h *tar.Header) { h.Devmajor, h.Devminor = 3, 4 }},
	}
	tgts := []elem{f("m"), s("m", "gone"), {tar.TypeFifo, "m", ""}, {tar.TypeChar, "m", ""}, {tar.TypeBlock, "m", ""}}
	// M is replaced with the target
	shapes := []shape{
		{"after", []layerSpec{{f("M"), h("z", "m")}}, nil},
		{"before", []layerSpec{{f("M"), h("a", "m")}}, nil},
		{"both", []layerSpec{{f("M"), h("z", "m"), h("a", "m")}}, nil},
		{"chain", []layerSpec{{f("M"), h("z", "m"), h("a", "z"), h("n", "a")}}, nil},
		{"layers", []layerSpec{{f("M")}, {h("a", "m")}, {h("z", "m")}}, nil},
		{"chained layers", []layerSpec{{f("M")}, {h("z", "m")}, {h("a", "z")}}, nil},
		{"below", []layerSpec{{f("M"), h("d/a", "m"), h("z/a", "m")}}, nil},
		{"target goes", []layerSpec{{f("M"), h("z", "m"), h("a", "m")}, {f(".wh.m")}}, nil},
		{"first goes", []layerSpec{{f("M"), h("z", "m"), h("a", "m")}, {f(".wh.a")}}, nil},
		{"target again", []layerSpec{{f("M"), h("z", "m"), h("a", "m")}, {f("m")}}, nil},
		{"link again", []layerSpec{{f("M"), h("z", "m")}, {h("z", "m")}, {h("a", "m")}}, nil},
		{"link over a file", []layerSpec{{f("M"), f("z"), f("a")}, {h("z", "m"), h("a", "m")}}, nil},
		{"through a symlink", []layerSpec{{f("M"), s("l", "d"), h("l/a", "m")}, {h("z", "l/a")}}, nil},
		{"relinked", []layerSpec{{f("M"), f("o"), h("z", "m")}, {h("m", "o")}, {h("a", "z")}}, nil},
	}
	t.Section("metadata", bounds("%d link headers x %d target headers x %d types of targets x %d stacks", len(vs), len(vs), len(tgts), len(shapes)))
	for _, tgt := range tgts {
		for _, sh := range shapes {
			for _, tv := range vs {
				for _, lv := range vs {
					if !t.Mine() {
						continue
					}
					tgt, sh, tv, lv := tgt, sh, tv, lv
					t.Run(func() string { return bounds("%v: %s: target %s, link %s", tgt, sh.name, tv.name, lv.name) }, func(c *mc.C) {
						var bs []*built
						var raws [][]byte
						for i, l := range sh.stack {
							var ents []ltar.Ent
							for _, e := range l {
								if e.name == "M" {
									e = tgt
								}
								en := elem{e.typ, e.name, e.link}.ent(0)
								en.Body = e.ent(i).Body
								en.Hdr.PAXRecords = nil
								if e == tgt {
									tv.mk(&en.Hdr)
								} else if e.typ == tar.TypeLink {
									lv.mk(&en.Hdr)
								}
								ents = append(ents, en)
							}
							raw, err := ltar.Encode(ents)
							if err != nil {
								c.Trivial() // there is no such entry
								return
							}
							dec, err := ltar.Decode(raw)
							if err != nil {
								c.Trivial()
								return
							}
							bs = append(bs, &built{dec, raw})
							raws = append(raws, raw)
						}
						want, _, ok := refApply(ltar.NewFS(), bs, c)
						if !ok {
							c.Trivial()
							return
						}
						out, err := doSquash(raws...)
						if err != nil {
							c.Failf("squashing failed: %v", err)
							return
						}
						ents, err := ltar.Decode(out)
						if err != nil {
							c.Failf("the output is not a tar stream: %v", err)
							return
						}
						c.Outcome(ltar.Describe(ents))
						files := map[string]*ltar.Ent{}
						for i := range ents {
							e := &ents[i]
							if e.Hdr.Typeflag != tar.TypeLink {
								files[path.Clean(e.Hdr.Name)] = e
								continue
							}
							first := files[path.Clean(e.Hdr.Linkname)]
							if first == nil || first.Hdr.Typeflag == tar.TypeDir {
								c.Failf("link %q refers to %q which the output has not emitted before it; output %s", e.Hdr.Name, e.Hdr.Linkname, ltar.Describe(ents))
								return
							}
							fh, lh := first.Hdr, e.Hdr
							// (device numbers of a link mean nothing)
							lh.Typeflag, lh.Devmajor, lh.Devminor = fh.Typeflag, fh.Devmajor, fh.Devminor
							if a, b := ltar.Meta(&fh), ltar.Meta(&lh); a != b {
								c.Failf("%q is linked to %q but does not share its metadata: %s and %s", e.Hdr.Name, e.Hdr.Linkname, b, a)
							}
						}
						got := ltar.NewFS()
						if err := got.Apply(ents, true); err != nil {
							c.Failf("the output cannot be unpacked: %v; output %s", err, ltar.Describe(ents))
							return
						}
						if w, g := want.LinkGroups(), got.LinkGroups(); w != g {
							c.Failf("hard link groups: want %q got %q; output %s", w, g, ltar.Describe(ents))
							return
						}
						for _, fs := range []*ltar.FS{want, got} {
							eachInode(fs.Root, func(n *ltar.Inode) {
								if n.Type != tar.TypeDir {
									n.Meta = ""
								}
							})
						}
						if d := ltar.Diff(want, got); d != "" {
							c.Failf("%s; output %s", d, ltar.Describe(ents))
						}
					})
				}
			}
		}
	}
}

func eachInode(n *ltar.Inode, fn func(*ltar.Inode)) {
	fn(n)
	for _, k := range n.Names() {
		eachInode(n.Kids[k], fn)
	}
}
