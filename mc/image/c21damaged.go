package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// damage is a base image that is not what it says, and why.
type damage struct {
	desc string
	data []byte
}

// rebuilt is the tarball of a base with other diff IDs, other layer files, or without a member.
func (b base) rebuilt(ids []string, bodies [][]byte, drop int) []byte {
	quoted, err := json.Marshal(ids)
	must(err)
	s := "{" + b.top + `"rootfs":{"type":"layers","diff_ids":` + string(quoted) + "}"
	if b.config != "" {
		s += `,"config":` + b.config
	}
	cfg := []byte(s + "}")
	var ents []ltar.Ent
	add := func(name string, body []byte) {
		ents = append(ents, ltar.Ent{Hdr: tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644}, Body: body})
	}
	add(sum(cfg)+".json", cfg)
	names := []string{}
	for n, body := range bodies {
		name := fmt.Sprintf("%064x/layer.tar", n+1)
		names = append(names, name)
		add(name, body)
	}
	m, err := json.Marshal([]map[string]interface{}{{"Config": sum(cfg) + ".json", "RepoTags": b.tags, "Layers": names}})
	must(err)
	add("manifest.json", m)
	if drop >= 0 {
		ents = append(ents[:drop:drop], ents[drop+1:]...)
	}
	return ltar.MustEncode(ents)
}

func unpacked(bs []byte) ([]byte, bool) {
	if !bytes.HasPrefix(bs, []byte{0x1f, 0x8b}) {
		return bs, true
	}
	r, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		return nil, false
	}
	plain, err := io.ReadAll(r)
	return plain, err == nil
}

// damages are all kinds of damage to a base.
func (b base) damages(gzipped bool, step int) []damage {
	var ret []damage
	var bodies [][]byte
	for _, l := range b.layers {
		body := l.plain
		if gzipped {
			body = gz(l.plain, 6)
		}
		bodies = append(bodies, body)
	}
	ids := b.diffIDs()
	add := func(desc string, ids []string, bodies [][]byte, drop int) {
		ret = append(ret, damage{fmt.Sprintf("%s, gzip=%v", desc, gzipped), b.rebuilt(ids, bodies, drop)})
	}
	for n := range ids {
		other := append([]string(nil), ids...)
		other[n] = "sha256:" + sum([]byte("something else"))
		add(fmt.Sprintf("diff ID %d of %d is another", n, len(ids)), other, bodies, -1)
		if gzipped || n < len(ids)-1 { // which of config and manifest is right is not specified
			add(fmt.Sprintf("diff ID %d of %d is missing", n, len(ids)), append(append([]string(nil), ids[:n]...), ids[n+1:]...), bodies, -1)
		}
		add(fmt.Sprintf("layer %d of %d is missing", n, len(ids)), ids, append(append([][]byte(nil), bodies[:n]...), bodies[n+1:]...), -1)
		add(fmt.Sprintf("file of layer %d of %d is missing", n, len(ids)), ids, bodies, 1+n)
		for k := n + 1; k < len(ids); k++ {
			if ids[n] == ids[k] {
				continue
			}
			swapped := append([][]byte(nil), bodies...)
			swapped[n], swapped[k] = swapped[k], swapped[n]
			add(fmt.Sprintf("layers %d and %d are swapped", n, k), ids, swapped, -1)
		}
		step := step
		if min := len(bodies[n]) / 60; step < min && step > 10 {
			step = min
		}
		for at := 0; at < len(bodies[n]); at += step {
			bent := append([][]byte(nil), bodies...)
			bent[n] = append([]byte(nil), bodies[n]...)
			bent[n][at] ^= 0x10
			if plain, ok := unpacked(bent[n]); ok && bytes.Equal(plain, b.layers[n].plain) {
				continue // a byte that does not matter
			}
			add(fmt.Sprintf("byte %d of layer %d of %d is another", at, n, len(ids)), ids, bent, -1)
		}
		for at := 1; at < len(bodies[n]); at += step {
			cut := append([][]byte(nil), bodies...)
			cut[n] = bodies[n][:at]
			add(fmt.Sprintf("layer %d of %d ends after %d bytes", n, len(ids), at), ids, cut, -1)
		}
	}
	add("one diff ID too many", append(append([]string(nil), ids...), "sha256:"+sum([]byte("x"))), bodies, -1)
	add("no config", ids, bodies, 0)
	add("no manifest", ids, bodies, 1+len(bodies))
	return ret
}

func c21damaged(t *mc.T, w tbl) {
	t.Section("damaged", "bases whose layers are not what the config says (each layer: another diff ID, none, no file, swapped, changed bytes, cut) and compressed layers with a changed byte, with and without config flags: an error, and nothing on stdout")
	dir := filepath.Join(w.dir, "damaged")
	must(os.MkdirAll(dir, 0o755))
	refuse := func(p, layer string, f flagSet) func(c *mc.C) {
		return func(c *mc.C) {
			args := append([]string{"image", "build"}, f.args()...)
			if p != "" {
				args = append(args, "--base="+p)
			}
			stdout, stderr, err := runCmd(nil, append(args, layer))
			if err == nil {
				c.Failf("exit status 0, want an error")
			}
			if len(stdout) != 0 {
				c.Failf("%d bytes on stdout", len(stdout))
			}
			if len(stderr) == 0 {
				c.Failf("no message on stderr")
			}
			c.Outcome("error")
		}
	}
	for bi, b := range w.bases {
		if b.name == "none" || b.name == "cmd" || b.name == "entry" {
			continue // without layers, or with one layer twice: each copy stands in for the other
		}
		for _, gzipped := range []bool{false, true} {
			for di, d := range b.damages(gzipped, t.Pick(61, 3)) {
				for _, f := range []flagSet{{}, {wd: "/w"}} {
					if !t.Mine() {
						continue
					}
					b, d, f := b, d, f
					p := filepath.Join(dir, fmt.Sprintf("%d-%v-%d", bi, gzipped, di))
					t.Run(func() string { return fmt.Sprintf("base=%s flags=%q: %s", b.name, f.args(), d.desc) }, func(c *mc.C) {
						p := fmt.Sprintf("%s-%p", p, c)
						must(os.WriteFile(p, d.data, 0o644))
						defer os.Remove(p)
						refuse(p, w.layerPath(4), f)(c) // not a layer of a base: that would stand in for the damaged one
					})
				}
			}
		}
	}
	for li, l := range w.lf {
		if !bytes.HasPrefix(l.file, []byte{0x1f, 0x8b}) {
			continue
		}
		for at := 2; at < len(l.file); at += t.Pick(3, 1) {
			bent := append([]byte(nil), l.file...)
			bent[at] ^= 0x10
			if _, ok := unpacked(bent); ok || !t.Mine() {
				continue
			}
			li, l, at := li, l, at
			t.Run(func() string { return fmt.Sprintf("byte %d of %s is another", at, l.name) }, func(c *mc.C) {
				p := filepath.Join(dir, fmt.Sprintf("layer-%d-%d", li, at))
				must(os.WriteFile(p, bent, 0o644))
				defer os.Remove(p)
				refuse("", p, flagSet{})(c)
			})
		}
	}
}

// c21values: odd values of the flags arrive as they are.
func c21values(t *mc.T, run func(b int, layers []int, f flagSet), bases int) {
	vals := []string{"rel/dir", "/", "/a/../b", "/a//b/", "./x", "..", " ", " lead", "trail ", "a b", "é", "日本", "😀", "<&>", "\u2028", "\"q\"", "'q'", "\\", "a\tb", "a\nb", "$HOME", "${X}", "%d", "*", "~", "-x", "--", "=", "=v", "K", "K=", "K==", "k=V", "A=3", "a=3", "AB=1", "PATH", "PATH=", "C:\\w", "[\"a\"]", "a,b", "#c", "\x7f"}
	t.Section("values", fmt.Sprintf("each of %d values x each flag (alone, and with every other flag set) x %d bases", len(vals), bases))
	for b := 0; b < bases; b++ {
		for _, v := range vals {
			for _, f := range []flagSet{{env: []string{v}}, {entry: []string{v}}, {cmd: []string{v}}, {wd: v}, {env: []string{"Z=1", v}, clear: true}, {env: []string{v}, entry: []string{v, v}, cmd: []string{"x", v}, wd: v}} {
				run(b, []int{0}, f)
			}
		}
	}
}
