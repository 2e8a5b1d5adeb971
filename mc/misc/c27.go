package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
	"github.com/datawire/ocibuild/pkg/python/pypa/recording_installs"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c27 = mc.Suite{
	ID:    "C27",
	Level: "model_checking",
	Rule: "all combinations of present and absent parts; every Unicode scalar value; all strings of up to 3 (4) characters over an alphabet, in every field; each compared with the output of Python's json.dumps; " +
		"non-trivial: every case",
	Assumptions: []string{"strings are valid UTF-8", "absent optional members are omitted from the object"},
	Body:        runC27,
}

const c27script = `
import sys, json
for line in sys.stdin:
    f = line.rstrip("\n").split("\t")
    d = lambda x: bytes.fromhex(x).decode("utf-8")
    o = {"url": d(f[0])}
    if f[1] != "-":
        p = f[1].split(",")
        o["vcs_info"] = {"vcs": d(p[0]), "commit_id": d(p[2])}
        if p[1]: o["vcs_info"]["requested_revision"] = d(p[1])
    if f[2] != "-":
        o["archive_info"] = {}
        if f[2][1:]: o["archive_info"]["hash"] = d(f[2][1:])
    if f[3] != "-":
        o["dir_info"] = {"editable": True} if f[3] == "1" else {}
    print(json.dumps(o, sort_keys=True).encode("utf-8").hex())
`

func c27line(d direct_url.DirectURL) string {
	h := func(s string) string { return hex.EncodeToString([]byte(s)) }
	f := []string{h(d.URL), "-", "-", "-"}
	if v := d.VCSInfo; v != nil {
		f[1] = h(v.VCS) + "," + h(v.RequestedRevision) + "," + h(v.CommitID)
	}
	if v := d.ArchiveInfo; v != nil {
		f[2] = "a" + h(v.Hash)
	}
	if v := d.DirInfo; v != nil {
		f[3] = "0"
		if v.Editable {
			f[3] = "1"
		}
	}
	return strings.Join(f, "\t") + "\n"
}

func recorded(d direct_url.DirectURL, full bool) (string, error) {
	vfs := map[string]fsutil.FileReference{}
	dir := "usr/lib/python3/site-packages/x-1.dist-info"
	clamp := time.Unix(1000000000, 0)
	hook := direct_url.Record(d)
	if full {
		hook = recording_installs.Record("", "pip", &d)
	}
	if err := hook(context.Background(), clamp, vfs, dir); err != nil {
		return "", err
	}
	ref, ok := vfs[dir+"/direct_url.json"]
	if !ok {
		return "", fmt.Errorf("no direct_url.json among %v", len(vfs))
	}
	if !full && len(vfs) != 1 {
		return "", fmt.Errorf("%d files", len(vfs))
	}
	r, err := ref.Open()
	if err != nil {
		return "", err
	}
	bs, err := io.ReadAll(r)
	if err != nil {
		return "", err
	}
	if ref.Size() != int64(len(bs)) || !ref.Mode().IsRegular() || ref.Mode().Perm() != 0o644 || !ref.ModTime().Equal(clamp) || ref.FullName() != dir+"/direct_url.json" {
		return "", fmt.Errorf("size %d of %d, mode %v, time %v, name %q", ref.Size(), len(bs), ref.Mode(), ref.ModTime(), ref.FullName())
	}
	return string(bs), nil
}

func c27check(c *mc.C, ds []direct_url.DirectURL) {
	var in strings.Builder
	for _, d := range ds {
		in.WriteString(c27line(d))
	}
	want := strings.Split(strings.TrimSpace(pythonOutput(c27script, in.String())), "\n")
	if len(want) != len(ds) {
		panic("python3: wrong number of answers")
	}
	for i, d := range ds {
		w, _ := hex.DecodeString(want[i])
		for _, full := range []bool{false, true} {
			got, err := recorded(d, full)
			if err != nil {
				c.Failf("%+q: %v", c27desc(d), err)
			} else if got != string(w) {
				c.Failf("wrote %s\n    want %s", got, w)
			}
			c.Inner(1)
		}
		if c.Failed() {
			return
		}
	}
}

func c27desc(d direct_url.DirectURL) string {
	s := fmt.Sprintf("url %q", d.URL)
	if d.VCSInfo != nil {
		s += fmt.Sprintf(" vcs %+v", *d.VCSInfo)
	}
	if d.ArchiveInfo != nil {
		s += fmt.Sprintf(" archive %+v", *d.ArchiveInfo)
	}
	if d.DirInfo != nil {
		s += fmt.Sprintf(" dir %+v", *d.DirInfo)
	}
	return s
}

func runC27(t *mc.T) {
	vals := []string{"", "x", "a b", `"`}
	var vcs []*direct_url.VCSInfo
	vcs = append(vcs, nil)
	for _, a := range vals {
		for _, b := range vals {
			for _, d := range vals {
				vcs = append(vcs, &direct_url.VCSInfo{VCS: a, RequestedRevision: b, CommitID: d})
			}
		}
	}
	t.Section("parts", "all combinations of absent and present parts with empty and nonempty members")
	for _, v := range vcs {
		v := v
		t.Case(func() string { return fmt.Sprintf("vcs %+v with every other part", v) }, func(c *mc.C) {
			var ds []direct_url.DirectURL
			for _, url := range append(vals, "https://example.com/a?b=c&d=<e>") {
				for _, ar := range append([]string{"-"}, vals...) {
					for _, di := range []string{"-", "0", "1"} {
						d := direct_url.DirectURL{URL: url, VCSInfo: v}
						if ar != "-" {
							d.ArchiveInfo = &direct_url.ArchiveInfo{Hash: ar}
						}
						if di != "-" {
							d.DirInfo = &direct_url.DirInfo{Editable: di == "1"}
						}
						ds = append(ds, d)
					}
				}
			}
			c27check(c, ds)
			c.Outcome(fmt.Sprint(v))
		})
	}

	c27lengths(t)

	t.Section("characters", "every Unicode scalar value, alone in a string between two letters")
	for lo := 0; lo < 0x110000; lo += 0x2000 {
		lo := lo
		if lo > 0x20000 && lo < 0xe0000 && !t.Thorough() {
			continue
		}
		t.Case(func() string { return fmt.Sprintf("U+%04X and following", lo) }, func(c *mc.C) {
			var ds []direct_url.DirectURL
			for r := lo; r < lo+0x2000; r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				ds = append(ds, direct_url.DirectURL{URL: "a" + string(rune(r)) + "b"})
			}
			if len(ds) > 0 {
				c27check(c, ds)
			}
			c.Outcome(fmt.Sprint(lo))
		})
	}

	_, lits := t.Literals("pkg/python/pypa/direct_url")
	alpha := []string{"a", "\\", "\"", "/", "&", "<", ">", "'", "\n", "\t", "\x00", "\x1f", "\x7f", "\u0080", "é", "\u2028", "\u2029", "\uffff", "\ufffd", "\U0001f600", "\U0010ffff", "u", "0", ",", ":", "{", "[", " ", "n", "2", "8"}
	for _, l := range lits {
		if len(l) <= 12 {
			alpha = append(alpha, l)
		}
	}
	n := t.Pick(3, 4)
	alphaN := alpha
	if t.Thorough() && len(alphaN) > 22 {
		alphaN = alphaN[:22]
	}
	t.Section("strings", fmt.Sprintf("all strings of up to 3 of %d characters (thorough: up to 4 of %d), each in every field", len(alpha), len(alphaN)))
	for _, first := range alpha {
		first := first
		t.Case(func() string { return fmt.Sprintf("strings that begin with %q", first) }, func(c *mc.C) {
			ss := []string{first}
			for _, second := range alpha {
				ss = append(ss, first+second)
				for _, x := range alpha {
					ss = append(ss, first+second+x)
					if n > 3 {
						for _, y := range alphaN {
							ss = append(ss, first+second+x+y)
						}
					}
				}
			}
			var ds []direct_url.DirectURL
			for _, s := range ss {
				ds = append(ds, direct_url.DirectURL{
					URL:         s,
					VCSInfo:     &direct_url.VCSInfo{VCS: s, RequestedRevision: s, CommitID: s},
					ArchiveInfo: &direct_url.ArchiveInfo{Hash: s},
				})
				if len(ds) >= 40000 {
					c27check(c, ds)
					ds = nil
				}
			}
			if len(ds) > 0 {
				c27check(c, ds)
			}
			c.Outcome(first)
		})
	}
}
