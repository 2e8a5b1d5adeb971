package main

import (
	"fmt"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/python"
)

// exp is one expected entry of the layer.
type exp struct {
	data   string
	dir    bool
	mode   int64
	anyT   bool // time is only bounded by the clamp
	t      time.Time
	orig   string // content as recorded (before the interpreter line was rewritten)
	isOrig bool
	pyc    bool
}

type reject struct{ why string }

func (r reject) Error() string { return r.why }

func rejectf(f string, args ...interface{}) error { return reject{fmt.Sprintf(f, args...)} }

// unspecified marks inputs on which the specification does not say what happens.
type unspecified struct{ why string }

func (u unspecified) Error() string { return "unspecified: " + u.why }

func split(name string) (comps []string, ok bool) {
	if strings.HasPrefix(name, "/") {
		return nil, false
	}
	for _, c := range strings.Split(name, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(comps) == 0 {
				return nil, false
			}
			comps = comps[:len(comps)-1]
		default:
			comps = append(comps, c)
		}
	}
	return comps, true
}

// verify is the reference decision of whether a wheel may be installed at all: rows is the parsed
// RECORD (nil if there is none).
func verify(ms []mem, rows []row) error {
	seen := map[string]mem{}
	infos := map[string]bool{}
	for _, m := range ms {
		comps, ok := split(m.name)
		if !ok {
			return rejectf("name %q is outside of the archive", m.name)
		}
		if len(comps) == 0 {
			if m.isDir() {
				continue
			}
			return rejectf("file without a name")
		}
		name := strings.Join(comps, "/")
		if o, dup := seen[name]; dup {
			switch {
			case o.isDir() && m.isDir():
			case o.isDir() != m.isDir():
				return rejectf("%q is a file and a directory", name)
			case o.data == m.data:
				return unspecified{"identical duplicate members"}
			default:
				return rejectf("two different members %q", name)
			}
		}
		seen[name] = m
		if strings.HasSuffix(comps[0], ".dist-info") {
			infos[comps[0]] = true
		}
	}
	if len(infos) != 1 {
		return rejectf("%d .dist-info directories", len(infos))
	}
	var id string
	for id = range infos {
	}
	if r, ok := seen[id+"/RECORD"]; !ok || r.isDir() {
		return rejectf("no RECORD")
	}
	listed := map[string]bool{}
	for _, r := range rows {
		comps, ok := split(r.name)
		name := strings.Join(comps, "/")
		if !ok {
			return rejectf("RECORD lists %q", r.name)
		}
		if name != r.name {
			return unspecified{"unclean names in RECORD"}
		}
		if listed[name] {
			return unspecified{"repeated names in RECORD"}
		}
		listed[name] = true
		m, ok := seen[name]
		if ok && m.isDir() {
			return unspecified{"directory listed in RECORD"}
		}
		if !ok {
			return rejectf("RECORD lists %q, which is not in the archive", name)
		}
		if name == id+"/RECORD" {
			if r.hash != "" || r.size != "" {
				return unspecified{"RECORD with a hash of itself"}
			}
			continue
		}
		if name == id+"/RECORD.jws" || name == id+"/RECORD.p7s" {
			return unspecified{"signature listed in RECORD"}
		}
		i := strings.Index(r.hash, "=")
		if i < 0 || r.size == "" {
			return rejectf("RECORD has no hash or size for %q", name)
		}
		algo := r.hash[:i]
		switch algo {
		case "sha256", "sha384", "sha512":
		default:
			return rejectf("hash %q for %q", algo, name)
		}
		if r.hash[i+1:] != digest(algo, m.data) {
			return rejectf("wrong hash for %q", name)
		}
		if r.size != strconv.Itoa(len(m.data)) {
			return rejectf("wrong size for %q", name)
		}
	}
	if !listed[id+"/RECORD"] {
		return unspecified{"RECORD does not list itself"}
	}
	for name, m := range seen {
		if m.isDir() || name == id+"/RECORD.jws" || name == id+"/RECORD.p7s" {
			continue
		}
		if !listed[name] {
			return rejectf("%q is not in RECORD", name)
		}
	}
	return nil
}

func cleanDir(p string) string {
	c := strings.TrimLeft(path.Clean("/"+strings.TrimLeft(p, "/")), "/")
	return c
}

func join(dir, rest string) string {
	switch {
	case dir == "":
		return rest
	case rest == "":
		return dir
	}
	return dir + "/" + rest
}

type options struct {
	minTime, maxTime time.Time
	compile          bool
	hooks            bool
	hash             string
	requested        *string
	url              bool
}

// install is the reference installation of a wheel that verify accepts.
func install(ms []mem, plat python.Platform, o options) (map[string]*exp, error) {
	out := map[string]*exp{}
	purelib, ok := "", false
	for _, m := range ms {
		if m.name == info+"/WHEEL" {
			ok = true
			for _, l := range strings.Split(m.data, "\n") {
				l = strings.TrimRight(l, "\r")
				kv := strings.SplitN(l, ":", 2)
				if len(kv) != 2 {
					continue
				}
				k, v := strings.ToLower(kv[0]), strings.TrimSpace(kv[1])
				switch k {
				case "wheel-version":
					major, err := strconv.Atoi(strings.SplitN(v, ".", 2)[0])
					if err != nil {
						return nil, rejectf("Wheel-Version %q", v)
					}
					if major > 1 {
						return nil, rejectf("Wheel-Version %q", v)
					}
					if !strings.Contains(m.data, "Wheel-Version") {
						return nil, rejectf("no Wheel-Version")
					}
				case "root-is-purelib":
					purelib = v
				}
			}
			if !strings.Contains(strings.ToLower(m.data), "wheel-version:") {
				return nil, rejectf("no Wheel-Version")
			}
		}
	}
	if !ok {
		return nil, rejectf("no WHEEL")
	}
	root := plat.Scheme.PlatLib
	switch purelib {
	case "true":
		root = plat.Scheme.PureLib
	default:
		if strings.EqualFold(strings.TrimSpace(purelib), "true") {
			return nil, unspecified{"Root-Is-Purelib: " + purelib}
		}
	}
	cat := map[string]string{
		"purelib": plat.Scheme.PureLib, "platlib": plat.Scheme.PlatLib, "headers": plat.Scheme.Headers,
		"scripts": plat.Scheme.Scripts, "data": plat.Scheme.Data,
	}
	maxT := time.Time{}
	for _, m := range ms {
		if tt := m.time(); tt.After(maxT) {
			maxT = tt
		}
	}
	clamp := o.maxTime
	if clamp.IsZero() {
		clamp = maxT.Add(2 * time.Second)
	}
	put := func(name string, e *exp) error {
		if name == "" {
			return nil // the root itself
		}
		if old, dup := out[name]; dup {
			if old.dir && e.dir {
				return nil
			}
			return rejectf("two files for %q", name)
		}
		out[name] = e
		return nil
	}
	for _, m := range ms {
		comps, _ := split(m.name)
		if len(comps) == 2 && comps[0] == info && (comps[1] == "RECORD" || comps[1] == "RECORD.jws" || comps[1] == "RECORD.p7s") {
			continue
		}
		dir, rest, script := cleanDir(root), strings.Join(comps, "/"), false
		if len(comps) > 0 && comps[0] == data {
			if len(comps) == 1 {
				if !m.isDir() {
					return nil, rejectf("%s is not a directory", data)
				}
				continue
			}
			d, ok := cat[comps[1]]
			if !ok {
				return nil, rejectf("unknown category %q", comps[1])
			}
			if len(comps) == 2 && !m.isDir() {
				return nil, rejectf("category %q is not a directory", comps[1])
			}
			dir, rest, script = cleanDir(d), strings.Join(comps[2:], "/"), comps[1] == "scripts"
		}
		e := &exp{data: m.data, dir: m.isDir(), mode: 0o644, t: m.time()}
		if !o.minTime.IsZero() {
			e.t = o.minTime
		}
		if e.t.After(clamp) {
			e.t = clamp
		}
		if e.dir {
			e.mode = 0o755
			e.data = ""
			e.anyT = true
		} else if m.attrs>>16&0o170000 == 0o100000 && m.attrs>>16&0o111 != 0 {
			e.mode = 0o755
		}
		if script && !e.dir {
			console, gui := plat.ConsoleShebang, plat.GraphicalShebang
			if console == "" {
				console = gui
			}
			if gui == "" {
				gui = console
			}
			if strings.HasPrefix(e.data, "#!python") {
				after := e.data[len("#!python"):]
				interp := console
				if strings.HasPrefix(after, "w") {
					after = after[1:]
					interp = gui
				}
				if after != "" && !strings.ContainsAny(after[:1], " \t\r\n") {
					return nil, unspecified{"#!python<suffix>"}
				}
				e.orig, e.isOrig = e.data, true
				e.data = "#!" + interp + after
				e.mode = 0o755
			}
		}
		if err := put(join(dir, rest), e); err != nil {
			return nil, err
		}
	}
	if o.compile {
		var pys []string
		for name, e := range out {
			if !e.dir && strings.HasSuffix(name, ".py") {
				pys = append(pys, name)
			}
		}
		for _, name := range pys {
			if _, dup := out[pycName(name)]; dup {
				return nil, unspecified{"compiled file is shipped too"}
			}
			out[pycName(name)] = &exp{data: pycData(name, out[name].data), mode: 0o644, anyT: true, pyc: true}
		}
	}
	return out, nil
}

// parents adds the directories that must exist; it is applied last.
func parents(out map[string]*exp) error {
	var names []string
	for n := range out {
		names = append(names, n)
	}
	for _, n := range names {
		for {
			i := strings.LastIndex(n, "/")
			if i < 0 {
				break
			}
			n = n[:i]
			if e, ok := out[n]; ok {
				if !e.dir {
					return rejectf("%q is a file and a directory", n)
				}
				continue
			}
			out[n] = &exp{dir: true, mode: 0o755, anyT: true}
		}
	}
	return nil
}

func (m mem) time() time.Time {
	if m.t.IsZero() {
		return t0
	}
	return m.t
}

func pycName(src string) string {
	return path.Join(path.Dir(src), "__pycache__", strings.TrimSuffix(path.Base(src), ".py")+".cpython-39.pyc")
}

func pycData(name, data string) string { return "pyc:" + name + ":" + digest("sha256", data) }
