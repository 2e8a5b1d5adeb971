package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

var c21 = mc.Suite{
	ID:    "C21",
	Level: "model_checking",
	Rule: "the real command builds an image, and its output is taken apart by a parser of our own and compared with what base, layers and flags ask for; " +
		"a case is non-trivial if the command is expected to succeed",
	Assumptions: []string{
		"config members are those of the Docker image specification; unknown members of a base's config are not covered",
		"history entries of the appended layers are not specified, those of the base are kept",
		"the platform fields of an image without base are not specified",
		"entrypoints and commands that are given as one empty string are not covered",
	},
	Body: c21body,
}

func sum(bs []byte) string {
	h := sha256.Sum256(bs)
	return hex.EncodeToString(h[:])
}

func gz(bs []byte, level int) []byte {
	var buf bytes.Buffer
	w, _ := gzip.NewWriterLevel(&buf, level)
	_, _ = w.Write(bs)
	_ = w.Close()
	return buf.Bytes()
}

type layerFile struct {
	name  string
	plain []byte // content
	file  []byte // as stored
}

func layerFiles() []layerFile {
	one := ltar.MustEncode([]ltar.Ent{dirE("a"), fileE("a/one", 0o644)})
	big := ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "big", Mode: 0o600}, Body: bytes.Repeat([]byte("0123456789abcdef"), 10000)}
	two := ltar.MustEncode([]ltar.Ent{big, ent(tar.TypeReg, "a/.wh.one", 0o644), lnkE("l", "/x")})
	none := ltar.MustEncode(nil)
	odd := ltar.MustEncode([]ltar.Ent{fileE("../x", 0o644), fileE("dup", 0o644), fileE("dup", 0o600), fileE("/abs", 0o4755)})
	return []layerFile{
		{"one.tar", one, one},
		{"two.tar.gz", two, gz(two, 9)},
		{"none.tar", none, none},
		{"one.tar.gz", one, gz(one, 1)},
		{"odd", odd, odd},
		{"bare", nil, nil},
	}
}

type base struct {
	name   string
	config string // JSON of "config"
	top    string // JSON members of the config file, in front of "config"
	layers []layerFile
	hist   string
	tags   []string
	docker bool // layout of docker save (uncompressed layers in directories)
	dig    bool // config file named sha256:...
}

func (b base) diffIDs() []string {
	ret := []string{}
	for _, l := range b.layers {
		ret = append(ret, "sha256:"+sum(l.plain))
	}
	return ret
}

func (b base) configJSON() []byte {
	ids, _ := json.Marshal(b.diffIDs())
	s := "{" + b.top + `"rootfs":{"type":"layers","diff_ids":` + string(ids) + "}"
	if b.hist != "" {
		s += `,"history":` + b.hist
	}
	if b.config != "" {
		s += `,"config":` + b.config
	}
	return []byte(s + "}")
}

func (b base) tarball() []byte {
	cfg := b.configJSON()
	cfgName := sum(cfg) + ".json"
	if b.dig {
		cfgName = "sha256:" + sum(cfg)
	}
	ents := []ltar.Ent{{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: cfgName, Mode: 0o644}, Body: cfg}}
	names := []string{}
	for n, l := range b.layers {
		name, body := fmt.Sprintf("%064x/layer.tar", n+1), l.plain
		if !b.docker {
			body = gz(l.plain, 6)
			name = sum(body) + ".tar.gz"
		}
		seen := false
		for _, s := range names {
			seen = seen || s == name
		}
		names = append(names, name)
		if !seen {
			ents = append(ents, ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644}, Body: body})
		}
	}
	m, _ := json.Marshal([]map[string]interface{}{{"Config": cfgName, "RepoTags": b.tags, "Layers": names}})
	ents = append(ents, ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: "manifest.json", Mode: 0o644}, Body: m})
	return ltar.MustEncode(ents)
}

func bases() []base {
	lf := layerFiles()
	full := `{"AttachStderr":true,"AttachStdin":true,"AttachStdout":true,"Cmd":["old","cmd"],"Healthcheck":{"Test":["CMD","true"],"Interval":5,"Timeout":6,"StartPeriod":7,"Retries":8},` +
		`"Domainname":"dom","Entrypoint":["/old","entry"],"Env":["PATH=/usr/bin","A=1","B=x=y"],"Hostname":"host","Image":"sha256:abc","Labels":{"l":"v","m":"<&>"},"OnBuild":["RUN x"],` +
		`"OpenStdin":true,"StdinOnce":true,"Tty":true,"User":"1000:1000","Volumes":{"/v":{}},"WorkingDir":"/old","ExposedPorts":{"80/tcp":{}},"ArgsEscaped":true,"NetworkDisabled":true,` +
		`"MacAddress":"00:11","StopSignal":"SIGINT","Shell":["/bin/sh","-c"]}`
	top := `"architecture":"amd64","os":"linux","author":"me","container":"c0ffee","created":"2020-01-02T03:04:05.678Z","docker_version":"20.10","os.version":"1.2",`
	return []base{
		{name: "none"},
		{name: "full", config: full, top: top, layers: lf[:2], hist: `[{"created":"2020-01-02T03:04:05Z","created_by":"x","comment":"c","author":"a"},{"created":"2020-01-02T03:04:05Z","created_by":"e","empty_layer":true},{"created":"2020-01-02T03:04:06Z","created_by":"y"}]`, tags: []string{"old:tag"}},
		{name: "env", config: `{"Env":["A=1"]}`, top: `"architecture":"arm64","os":"linux",`, layers: lf[:1], docker: true},
		{name: "entry", config: `{"Entrypoint":["/e"],"WorkingDir":"/w"}`, top: `"architecture":"amd64","os":"linux",`, layers: []layerFile{lf[0], lf[0]}, dig: true},
		{name: "cmd", config: `{"Cmd":["c"],"Env":null}`, top: `"architecture":"","os":"windows",`, docker: true, tags: []string{"a:b", "c:d"}},
		{name: "noconfig", top: `"architecture":"amd64","os":"linux","created":"1970-01-01T00:00:00Z",`, layers: []layerFile{lf[2], lf[1]}, docker: true},
		{name: "labels", config: `{"Labels":{"k":"v"},"User":"u","Env":["PATH=/bin"],"Entrypoint":["x"],"Cmd":["y"]}`, top: `"architecture":"amd64","os":"linux",`, layers: []layerFile{lf[1]}, dig: true},
	}
}

type flagSet struct {
	clear  bool
	env    []string
	entry  []string
	cmd    []string
	wd     string
	tag    string
	format int // spelling
}

func (f flagSet) args() []string {
	var a []string
	opt := func(short, long, val string) {
		switch {
		case f.format%3 == 1 && short != "":
			a = append(a, short, val)
		case f.format%3 == 2:
			a = append(a, "--"+long, val)
		default:
			a = append(a, "--"+long+"="+val)
		}
	}
	if f.clear {
		a = append(a, []string{"--config.Env.clear", "-E", "--config.Env.clear=true"}[f.format%3])
	}
	for _, v := range f.env {
		opt("-e", "config.Env.append", v)
	}
	for _, v := range f.entry {
		opt("", "config.Entrypoint", v)
	}
	for _, v := range f.cmd {
		opt("-c", "config.Cmd", v)
	}
	if f.wd != "" {
		opt("-w", "config.WorkingDir", f.wd)
	}
	if f.tag != "" {
		opt("-t", "tag", f.tag)
	}
	return a
}

type tbl struct {
	dir   string
	lf    []layerFile
	bases []base
}

func (w tbl) layerPath(n int) string  { return filepath.Join(w.dir, "layer-"+w.lf[n].name) }
func (w tbl) basePath(n int) string   { return filepath.Join(w.dir, "base-"+w.bases[n].name) }

func c21body(t *mc.T) {
	w := tbl{lf: layerFiles(), bases: bases()}
	var err error
	w.dir, err = os.MkdirTemp("", "c21")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(w.dir)
	for n, l := range w.lf {
		must(os.WriteFile(w.layerPath(n), l.file, 0o644))
	}
	for n, b := range w.bases {
		if b.name != "none" {
			must(os.WriteFile(w.basePath(n), b.tarball(), 0o644))
		}
	}
	run := func(b int, layers []int, f flagSet) {
		if !t.Mine() {
			return
		}
		t.Run(func() string {
			var ls []string
			for _, n := range layers {
				ls = append(ls, w.lf[n].name)
			}
			return fmt.Sprintf("base=%s layers=%v flags=%q", w.bases[b].name, ls, f.args())
		}, func(c *mc.C) { w.check(c, b, layers, f) })
	}

	t.Section("config", "all combinations of base (7), Env.clear, Env.append (5), Entrypoint (3), Cmd (3), WorkingDir (2)")
	envs := [][]string{nil, {"X=1"}, {"A=2", "X=a,b"}, {"PATH=/new", "Q=a=b", "Y="}, {"A=1", "A=1"}}
	entries := [][]string{nil, {"/bin/sh"}, {"/bin/e", "a b", "--x=y,z"}}
	cmds := [][]string{nil, {"run"}, {"x,y", "-c", "$HOME \"q\""}}
	k := 0
	for b := range w.bases {
		for _, clear := range []bool{false, true} {
			for _, env := range envs {
				for _, entry := range entries {
					for _, cmd := range cmds {
						for _, wd := range []string{"", "/new/wd"} {
							k++
							run(b, []int{0}, flagSet{clear: clear, env: env, entry: entry, cmd: cmd, wd: wd, format: k})
						}
					}
				}
			}
		}
	}

	max := t.Pick(3, 4)
	t.Section("layers", fmt.Sprintf("all sequences of up to %d out of %d layer files (plain, gzip, empty, same content, odd entries, no bytes) x all bases, with and without a config flag", max, len(w.lf)))
	var gen func(p []int, f func(p []int))
	gen = func(p []int, f func(p []int)) {
		if len(p) > 0 {
			f(p)
		}
		if len(p) < max {
			for n := range w.lf {
				gen(append(p[:len(p):len(p)], n), f)
			}
		}
	}
	for b := range w.bases {
		for _, f := range []flagSet{{}, {wd: "/w"}} {
			gen(nil, func(p []int) { run(b, p, f) })
		}
	}

	c21lengths(t, run, len(w.lf), len(w.bases))
	c21words(t, run, len(w.bases))
	c21values(t, run, len(w.bases))
	c21damaged(t, w)

	t.Section("tags", "tags of all shapes x all bases")
	for b := range w.bases {
		for k, tag := range []string{"", "name", "name:tag", "user/name:1.0", "example.com/a/b:c", "localhost:5000/xx:y", "a_b-c.d:E_f-1.0", "docker.io/library/z:q", "index.docker.io/u/z"} {
			run(b, []int{0, 1}, flagSet{tag: tag, format: k})
			run(b, []int{1}, flagSet{tag: tag, cmd: []string{"z"}, format: k + 1})
		}
	}

	t.Section("errors", "invalid tags, missing, unreadable and broken inputs in every position x all bases: an error, and nothing on stdout")
	for b := range w.bases {
		for _, bad := range []string{"UPPER:x", "a:b:c", "a b", "a:", "@", "a:-x"} {
			f := flagSet{tag: bad}
			bad := bad
			b := b
			t.Case(func() string { return fmt.Sprintf("base=%s tag=%q", w.bases[b].name, bad) }, func(c *mc.C) { w.fails(c, b, f, []string{w.layerPath(0)}) })
		}
		missing := filepath.Join(w.dir, "missing")
		for _, ls := range [][]string{{missing}, {w.layerPath(0), missing}, {missing, w.layerPath(0)}, {w.dir}} {
			ls := ls
			b := b
			for _, f := range []flagSet{{}, {cmd: []string{"x"}}} {
				f := f
				t.Case(func() string { return fmt.Sprintf("base=%s layers=%q flags=%q", w.bases[b].name, ls, f.args()) }, func(c *mc.C) { w.fails(c, b, f, ls) })
			}
		}
	}
	t.Section("piped", "layers and bases that are pipes instead of files")
	for b := range w.bases {
		for n := range w.lf {
			for mode := 0; mode < 3; mode++ {
				if mode > 0 && w.bases[b].name == "none" {
					continue
				}
				b, n, mode := b, n, mode
				t.Case(func() string { return fmt.Sprintf("base=%s layer=%s piped=%s", w.bases[b].name, w.lf[n].name, []string{"layer", "base", "both"}[mode]) }, func(c *mc.C) {
					if mode == 0 || mode == 2 {
						w.checkFiles(c, b, []int{n, 0}, flagSet{wd: "/w"}, mode == 2, true)
					} else {
						w.checkFiles(c, b, []int{n, 0}, flagSet{wd: "/w"}, true, false)
					}
				})
			}
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w tbl) fails(c *mc.C, b int, f flagSet, layers []string) {
	args := append([]string{"image", "build"}, f.args()...)
	if w.bases[b].name != "none" {
		args = append(args, "--base="+w.basePath(b))
	}
	args = append(args, layers...)
	stdout, stderr, err := runCmd(nil, args)
	c.Outcome("error")
	if err == nil {
		c.Failf("exit status 0, want an error")
	}
	if len(stdout) != 0 {
		c.Failf("%d bytes on stdout", len(stdout))
	}
	if len(stderr) == 0 {
		c.Failf("no message on stderr")
	}
}

func runCmd(files []*os.File, args []string) ([]byte, []byte, error) {
	cmd := exec.Command(os.Getenv("OCIBUILD"), args...)
	cmd.ExtraFiles = files
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	return out.Bytes(), errb.Bytes(), err
}

func (w tbl) check(c *mc.C, b int, layers []int, f flagSet) { w.checkFiles(c, b, layers, f, false, false) }

func (w tbl) checkFiles(c *mc.C, b int, layers []int, f flagSet, pipeBase, pipeLayer bool) {
	bs := w.bases[b]
	args := append([]string{"image", "build"}, f.args()...)
	var files []*os.File
	pipe := func(content []byte) string {
		r, wr, err := os.Pipe()
		must(err)
		go func() { _, _ = wr.Write(content); wr.Close() }()
		files = append(files, r)
		return fmt.Sprintf("/dev/fd/%d", 2+len(files))
	}
	if bs.name != "none" {
		p := w.basePath(b)
		if pipeBase {
			p = pipe(bs.tarball())
		}
		args = append(args, "--base="+p)
	}
	want := append([]layerFile(nil), bs.layers...)
	for i, n := range layers {
		p := w.layerPath(n)
		if pipeLayer && i == 0 {
			p = pipe(w.lf[n].file)
		}
		args = append(args, p)
		want = append(want, w.lf[n])
	}
	stdout, stderr, err := runCmd(files, args)
	for _, f := range files {
		f.Close()
	}
	if err != nil {
		c.Failf("%v: %s", err, stderr)
		return
	}
	for _, e := range checkImage(stdout, bs, want, f) {
		c.Failf("%s", e)
	}
	c.Outcome(fmt.Sprintf("%d layers, %d", len(want), len(stdout)))
}

// checkImage compares an image tarball with what was asked for.
func checkImage(tarball []byte, bs base, want []layerFile, f flagSet) (errs []string) {
	fail := func(format string, args ...interface{}) { errs = append(errs, fmt.Sprintf(format, args...)) }
	ents, err := ltar.Decode(tarball)
	if err != nil {
		fail("output is not a tarball: %v", err)
		return
	}
	files := map[string][]byte{}
	for _, e := range ents {
		if _, dup := files[e.Hdr.Name]; dup {
			fail("%q is in the tarball twice", e.Hdr.Name)
		}
		files[e.Hdr.Name] = e.Body
	}
	var manifest []struct {
		Config   string
		RepoTags []string
		Layers   []string
	}
	if err := json.Unmarshal(files["manifest.json"], &manifest); err != nil || len(manifest) != 1 {
		fail("manifest.json: %d images, %v", len(manifest), err)
		return
	}
	m := manifest[0]
	var wantTags []string
	if f.tag != "" {
		wantTags = []string{normTag(f.tag)}
	}
	var gotTags []string
	for _, t := range m.RepoTags {
		gotTags = append(gotTags, normTag(t))
	}
	if !reflect.DeepEqual(gotTags, wantTags) {
		fail("tags %q, want %q", m.RepoTags, wantTags)
	}
	cfg, ok := files[m.Config]
	if !ok {
		fail("config %q is not in the tarball", m.Config)
		return
	}
	if h := strings.TrimSuffix(strings.TrimPrefix(m.Config, "sha256:"), ".json"); h != sum(cfg) {
		fail("config %q has digest %s", m.Config, sum(cfg))
	}
	var diffIDs []string
	if len(m.Layers) != len(want) {
		fail("%d layers, want %d", len(m.Layers), len(want))
		return
	}
	for i, l := range m.Layers {
		blob, ok := files[l]
		if !ok {
			fail("layer %q is not in the tarball", l)
			return
		}
		if h := strings.TrimSuffix(l, ".tar.gz"); len(h) == 64 && h != sum(blob) {
			fail("layer file %q has digest %s", l, sum(blob))
		}
		plain := blob
		if len(blob) > 2 && blob[0] == 0x1f && blob[1] == 0x8b {
			r, err := gzip.NewReader(bytes.NewReader(blob))
			if err == nil {
				plain, err = io.ReadAll(r)
			}
			if err != nil {
				fail("layer %d: %v", i, err)
				return
			}
		}
		if !bytes.Equal(plain, want[i].plain) {
			fail("layer %d: the content is not that of %s", i, want[i].name)
		}
		diffIDs = append(diffIDs, "sha256:"+sum(plain))
	}

	var wantCfg, gotCfg map[string]interface{}
	must(json.Unmarshal(bs.configJSON(), &wantCfg))
	if err := json.Unmarshal(cfg, &gotCfg); err != nil {
		fail("config: %v", err)
		return
	}
	rootfs, _ := gotCfg["rootfs"].(map[string]interface{})
	if fmt.Sprint(rootfs["diff_ids"]) != fmt.Sprint(diffIDs) || rootfs["type"] != "layers" {
		fail("rootfs is %v, want diff_ids %v", rootfs, diffIDs)
	}
	// history: that of the base comes first
	wh, _ := wantCfg["history"].([]interface{})
	gh, _ := gotCfg["history"].([]interface{})
	if len(gh) < len(wh) {
		fail("history has %d entries, the base's has %d", len(gh), len(wh))
	} else {
		for i := range wh {
			if !reflect.DeepEqual(prune(wh[i]), prune(gh[i])) {
				fail("history[%d]: %v, want %v", i, gh[i], wh[i])
			}
		}
		nonEmpty := 0
		for _, h := range gh[len(wh):] {
			if hm, ok := h.(map[string]interface{}); !ok || hm["empty_layer"] != true {
				nonEmpty++
			}
		}
		if nonEmpty > len(want)-len(bs.layers) {
			fail("history has %d new entries with a layer for %d new layers", nonEmpty, len(want)-len(bs.layers))
		}
	}
	conf, _ := wantCfg["config"].(map[string]interface{})
	if conf == nil {
		conf = map[string]interface{}{}
	}
	list := func(v []string) []interface{} {
		var r []interface{}
		for _, s := range v {
			r = append(r, s)
		}
		return r
	}
	env, _ := conf["Env"].([]interface{})
	if f.clear {
		env = nil
	}
	conf["Env"] = append(append([]interface{}{}, env...), list(f.env)...)
	if f.entry != nil {
		conf["Entrypoint"] = list(f.entry)
	}
	if f.cmd != nil {
		conf["Cmd"] = list(f.cmd)
	}
	if f.wd != "" {
		conf["WorkingDir"] = f.wd
	}
	gconf, _ := gotCfg["config"].(map[string]interface{})
	if w, g := prune(conf), prune(gconf); !reflect.DeepEqual(w, g) {
		fail("config is %v, want %v", js(g), js(w))
	}
	for _, k := range []string{"config", "rootfs", "history"} {
		delete(wantCfg, k)
		delete(gotCfg, k)
	}
	if bs.name == "none" {
		return
	}
	// the zero time stands for no time
	if gotCfg["created"] == "0001-01-01T00:00:00Z" {
		delete(gotCfg, "created")
	}
	if w, g := prune(wantCfg), prune(gotCfg); !reflect.DeepEqual(w, g) {
		fail("config file is %v, want %v", js(g), js(w))
	}
	return
}

func js(v interface{}) string { bs, _ := json.Marshal(v); return string(bs) }

// prune drops members that stand for the default.
func prune(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	ret := map[string]interface{}{}
	for k, v := range m {
		switch x := v.(type) {
		case nil:
			continue
		case string:
			if x == "" {
				continue
			}
		case bool:
			if !x {
				continue
			}
		case []interface{}:
			if len(x) == 0 {
				continue
			}
		case map[string]interface{}:
			if k != "Volumes" && k != "ExposedPorts" && k != "Labels" {
				v = prune(x)
			}
			if len(x) == 0 {
				continue
			}
		}
		ret[k] = v
	}
	return ret
}

// normTag puts a tag in to its long form.
func normTag(t string) string {
	repo, tag := t, "latest"
	if i := strings.LastIndex(t, ":"); i >= 0 && !strings.Contains(t[i:], "/") {
		repo, tag = t[:i], t[i+1:]
	}
	if i := strings.Index(repo, "/"); i < 0 || !(strings.ContainsAny(repo[:i], ".:") || repo[:i] == "localhost") {
		repo = "docker.io/" + repo
	}
	if strings.HasPrefix(repo, "index.docker.io/") {
		repo = repo[len("index."):]
	}
	if strings.HasPrefix(repo, "docker.io/") && strings.Count(repo, "/") == 1 {
		repo = "docker.io/library/" + repo[len("docker.io/"):]
	}
	return repo + ":" + tag
}
