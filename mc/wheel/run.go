package main

import (
	"archive/tar"
	"context"
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/datawire/dlib/dlog"
	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var ctx = func() context.Context {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return dlog.WithLogger(context.Background(), dlog.WrapLogrus(l))
}()

var plats = []python.Platform{
	{
		ConsoleShebang: "/usr/bin/python3.9", GraphicalShebang: "/usr/bin/pythonw3.9",
		Scheme: python.Scheme{PureLib: "/usr/lib/python3.9/site-packages", PlatLib: "/usr/lib64/python3.9/site-packages",
			Headers: "/usr/include/python3.9/x", Scripts: "/usr/bin", Data: "/usr"},
		UID: 1000, GID: 1001, UName: "un", GName: "gn",
	},
	{
		ConsoleShebang: "/opt/py",
		Scheme: python.Scheme{PureLib: "/opt/site", PlatLib: "/opt/site", Headers: "/opt/site/inc", Scripts: "/opt/site/bin",
			Data: "/"},
	},
	{
		GraphicalShebang: "/a/bin/a very long interpreter path with spaces/python -x",
		Scheme: python.Scheme{PureLib: "/a/lib/", PlatLib: "//a//plat", Headers: "/a/./include", Scripts: "/a/x/../bin/",
			Data: "/a"},
		UID: 0, GID: 5, UName: "root", GName: "",
	},
	{ // names that are prefixes of each other
		ConsoleShebang: "/p/python", GraphicalShebang: "/p/pythonw",
		Scheme: python.Scheme{PureLib: "/p/lib", PlatLib: "/p/lib64", Headers: "/p/lib-inc", Scripts: "/p/lib.bin", Data: "/p/li"},
		UID:    70000, GID: 3000000, UName: "a", GName: "b",
	},
}

// fakeCompiler is a compiler that "compiles" by hashing, and records what it was given.
type fakeCompiler struct {
	got []string
	bad string
}

func (fc *fakeCompiler) compile(_ context.Context, clamp time.Time, pythonPath []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
	var ret []fsutil.FileReference
	for _, f := range in {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		bs, err := io.ReadAll(r)
		_ = r.Close()
		if err != nil {
			return nil, err
		}
		if int64(len(bs)) != f.Size() {
			fc.bad = fmt.Sprintf("%q given to the compiler has size %d but %d bytes", f.FullName(), f.Size(), len(bs))
		}
		if f.IsDir() {
			fc.bad = fmt.Sprintf("directory %q given to the compiler", f.FullName())
		}
		fc.got = append(fc.got, f.FullName())
		n := pycName(f.FullName())
		d := pycData(f.FullName(), string(bs))
		h := &tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644, Size: int64(len(d)), ModTime: clamp.Add(time.Hour)}
		ret = append(ret, &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: n, MContent: []byte(d)})
	}
	return ret, nil
}

func noCompile(context.Context, time.Time, []string, []fsutil.FileReference) ([]fsutil.FileReference, error) {
	return nil, nil
}

// installReal runs the real installation and returns the layer's entries.
func installReal(bs []byte, plat python.Platform, o options, fc *fakeCompiler, hook bdist.PostInstallHook) ([]ltar.Ent, error) {
	plat.PyCompile = noCompile
	if fc != nil {
		plat.PyCompile = fc.compile
	}
	layer, err := bdist.InstallWheel(ctx, plat, o.minTime, o.maxTime, writeWheel(bs), hook, ltar.FastOpts...)
	if err != nil {
		if layer != nil {
			return nil, fmt.Errorf("(and a layer) %w", err)
		}
		return nil, err
	}
	raw, err := ltar.Bytes(layer)
	if err != nil {
		return nil, errors.New("the layer cannot be read: " + err.Error())
	}
	ents, err := ltar.Decode(raw)
	if err != nil {
		panic("the layer is not a tar file: " + err.Error())
	}
	return ents, nil
}

// compare checks the layer against the reference.
func compare(c *mc.C, want map[string]*exp, got []ltar.Ent, plat python.Platform, clamp time.Time, meta bool) {
	seen := map[string]bool{}
	for _, e := range got {
		name := e.Hdr.Name
		if e.Hdr.Typeflag == tar.TypeDir {
			name = strings.TrimSuffix(name, "/")
		}
		if name != path.Clean(name) || strings.HasPrefix(name, "/") || name == ".." || strings.HasPrefix(name, "../") || name == "." {
			c.Failf("entry name %q is not a clean relative path", e.Hdr.Name)
			continue
		}
		if seen[name] {
			c.Failf("%q appears twice", name)
		}
		for p := path.Dir(name); p != "."; p = path.Dir(p) {
			if !seen[p] {
				c.Failf("%q appears before its parent %q", name, p)
				break
			}
		}
		seen[name] = true
		w := want[name]
		if w == nil {
			c.Failf("unexpected entry %q (type %c, %q)", name, e.Hdr.Typeflag, clip(string(e.Body)))
			continue
		}
		if w.dir != (e.Hdr.Typeflag == tar.TypeDir) || (!w.dir && e.Hdr.Typeflag != tar.TypeReg) {
			c.Failf("%q has type %c", name, e.Hdr.Typeflag)
			continue
		}
		if !w.dir && string(e.Body) != w.data {
			c.Failf("%q has content %q, want %q", name, clip(string(e.Body)), clip(w.data))
		}
		if !meta {
			continue
		}
		if e.Hdr.Mode&0o7777 != w.mode {
			c.Failf("%q has mode %#o, want %#o", name, e.Hdr.Mode, w.mode)
		}
		if e.Hdr.Uid != plat.UID || e.Hdr.Gid != plat.GID || e.Hdr.Uname != plat.UName || e.Hdr.Gname != plat.GName {
			c.Failf("%q is owned by %d:%d %q:%q", name, e.Hdr.Uid, e.Hdr.Gid, e.Hdr.Uname, e.Hdr.Gname)
		}
		if !w.anyT && !e.Hdr.ModTime.Equal(w.t) {
			c.Failf("%q has time %v, want %v", name, e.Hdr.ModTime.UTC(), w.t.UTC())
		}
		for _, tt := range []time.Time{e.Hdr.ModTime, e.Hdr.AccessTime, e.Hdr.ChangeTime} {
			if tt.After(clamp) {
				c.Failf("%q has time %v, after the clamp %v", name, tt.UTC(), clamp.UTC())
			}
		}
	}
	var missing []string
	for name := range want {
		if !seen[name] {
			missing = append(missing, name)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		c.Failf("missing from the layer: %q", missing)
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s...(%d bytes)", s[:300], len(s))
	}
	return s
}

func clampOf(ms []mem, o options) time.Time {
	if !o.maxTime.IsZero() {
		return o.maxTime
	}
	var maxT time.Time
	for _, m := range ms {
		if m.time().After(maxT) {
			maxT = m.time()
		}
	}
	return maxT.Add(2 * time.Second)
}

// decide runs reference and implementation on a wheel and compares.  It returns the reference
// verdict.
func decide(c *mc.C, ms []mem, rows []row, plat python.Platform, o options, meta bool) {
	want, werr := func() (map[string]*exp, error) {
		if err := verify(ms, rows); err != nil {
			return nil, err
		}
		w, err := install(ms, plat, o)
		if err != nil {
			return nil, err
		}
		return w, parents(w)
	}()
	var fc *fakeCompiler
	if o.compile {
		fc = &fakeCompiler{}
	}
	got, gerr := installReal(zipBytes(ms), plat, o, fc, nil)
	c.Transitions(1)
	var u unspecified
	switch {
	case errors.As(werr, &u):
		c.Trivial()
	case werr != nil:
		if gerr == nil {
			c.Failf("installed, although: %v", werr)
		} else if strings.HasPrefix(gerr.Error(), "(and a layer)") {
			c.Failf("failed, but returned a layer too")
		}
		c.Outcome("reject:" + werr.Error())
	case gerr != nil:
		c.Failf("refused: %v", gerr)
	default:
		if fc != nil {
			if fc.bad != "" {
				c.Failf("%s", fc.bad)
			}
			var wantPy []string
			for n, e := range want {
				if !e.dir && strings.HasSuffix(n, ".py") {
					wantPy = append(wantPy, n)
				}
			}
			sort.Strings(wantPy)
			sort.Strings(fc.got)
			if strings.Join(wantPy, "\x00") != strings.Join(fc.got, "\x00") {
				c.Failf("compiled %q, want %q", fc.got, wantPy)
			}
		}
		compare(c, want, got, plat, clampOf(ms, o), meta)
		var sb strings.Builder
		for _, e := range got {
			fmt.Fprintf(&sb, "%s\x00%o\x00%d\x00", e.Hdr.Name, e.Hdr.Mode, len(e.Body))
		}
		c.Outcome(sb.String())
	}
}
