package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/datawire/ocibuild/pkg/python"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

// execCompiler is the counterpart of fakeCompiler for the command: a program that compiles in the same way.
func execCompiler(args []string) {
	root := args[len(args)-1]
	err := filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() || !strings.HasSuffix(p, ".py") {
			return err
		}
		bs, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(root, p)
		if err != nil {
			return err
		}
		out := filepath.Join(root, pycName(rel))
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return err
		}
		return os.WriteFile(out, []byte(pycData(rel, string(bs))), 0o600)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// installCommand runs `ocibuild layer wheel`.
func installCommand(bs []byte, plat python.Platform) ([]ltar.Ent, error) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	fn := writeWheel(bs)
	pf := filepath.Join(filepath.Dir(fn), "plat.yml")
	// JSON is YAML
	doc, err := json.Marshal(map[string]interface{}{
		"ConsoleShebang": plat.ConsoleShebang, "GraphicalShebang": plat.GraphicalShebang,
		"Scheme": map[string]string{"purelib": plat.Scheme.PureLib, "platlib": plat.Scheme.PlatLib, "headers": plat.Scheme.Headers, "scripts": plat.Scheme.Scripts, "data": plat.Scheme.Data},
		"UID":    plat.UID, "GID": plat.GID, "UName": plat.UName, "GName": plat.GName,
		"PyCompile": []string{self, "execcompile"},
	})
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(pf, doc, 0o600); err != nil {
		panic(err)
	}
	tmp := filepath.Join(filepath.Dir(fn), "tmp")
	if err := os.MkdirAll(tmp, 0o700); err != nil {
		panic(err)
	}
	cmd := exec.Command(os.Getenv("OCIBUILD"), "layer", "wheel", "--platform-file="+pf, fn)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=" + tmp, "GOMAXPROCS=2"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
		if out.Len() > 0 {
			return nil, fmt.Errorf("(and a layer) %s", errb.String())
		}
		return nil, fmt.Errorf("%v: %s", err, errb.String())
	}
	raw := out.Bytes()
	if bytes.HasPrefix(raw, []byte{0x1f, 0x8b}) { // compressed or not
		zr, err := gzip.NewReader(bytes.NewReader(raw))
		if err == nil {
			raw, err = io.ReadAll(zr)
		}
		if err != nil {
			return nil, fmt.Errorf("the output is not a layer: %v", err)
		}
	}
	ents, err := ltar.Decode(raw)
	if err != nil {
		return nil, fmt.Errorf("the output is not a layer: %v", err)
	}
	return ents, nil
}

// c09command: the command installs what the library does.
func c09command(t *mc.T, alpha []mem) {
	t.Section("command", fmt.Sprintf("each of %d members x 2 through `ocibuild layer wheel`, schemes rotating, with an external compiler", len(alpha)))
	for i, m := range alpha {
		for k, pl := range []string{"true", "false"} {
			pis := []int{(i + k) % len(plats)}
			if t.Thorough() {
				pis = []int{0, 1, 2, 3}
			}
			for _, pi := range pis {
				m, pl, pi := m, pl, pi
				if !t.Mine() {
					continue
				}
				t.Run(func() string { return fmt.Sprintf("purelib=%s scheme=%d: %s", pl, pi, m) }, func(c *mc.C) {
					ms := full([]mem{m, file(info+"/entry_points.txt", "[console_scripts]\nrun = p:f\n[gui_scripts]\ngui = p:g\n")}, pl)
					o := c10opts{hash: "sha256", installer: "ocibuild layer wheel"}
					want, werr := installReal(zipBytes(ms), plats[pi], options{}, &fakeCompiler{}, o.hook(plats[pi]))
					got, gerr := installCommand(zipBytes(ms), plats[pi])
					c.Transitions(2)
					switch {
					case (werr == nil) != (gerr == nil):
						c.Failf("library: %v; command: %v", werr, gerr)
					case werr != nil:
						if strings.HasPrefix(gerr.Error(), "(and a layer)") {
							c.Failf("failed, but wrote a layer too")
						}
						c.Outcome("reject")
					default:
						sameLayer(c, want, got)
						c.Outcome(ltar.Describe(got))
					}
				})
			}
		}
	}
}

func sameLayer(c *mc.C, want, got []ltar.Ent) {
	if len(want) != len(got) {
		c.Failf("%d entries, want %d", len(got), len(want))
		return
	}
	w := map[string]ltar.Ent{}
	for _, e := range want {
		w[e.Hdr.Name] = e
	}
	for _, g := range got {
		e, ok := w[g.Hdr.Name]
		if !ok {
			c.Failf("unexpected entry %q", g.Hdr.Name)
			continue
		}
		if !bytes.Equal(e.Body, g.Body) {
			c.Failf("%q has content %q, want %q", g.Hdr.Name, clip(string(g.Body)), clip(string(e.Body)))
		}
		if ltar.Meta(&e.Hdr) != ltar.Meta(&g.Hdr) {
			c.Failf("%q has metadata %s, want %s", g.Hdr.Name, ltar.Meta(&g.Hdr), ltar.Meta(&e.Hdr))
		}
	}
}

// c10command: what the command records.
func c10command(t *mc.T, alpha []mem, ep mem) {
	t.Section("command", fmt.Sprintf("each of %d members x 2 through `ocibuild layer wheel`, schemes rotating: sha256, by \"ocibuild layer wheel\"", len(alpha)))
	for i, m := range alpha {
		for k, pl := range []string{"true", "false"} {
			if !t.Mine() {
				continue
			}
			i, m, k, pl := i, m, k, pl
			t.Run(func() string { return fmt.Sprintf("purelib=%s scheme=%d: %s", pl, (i+k)%4, m) }, func(c *mc.C) {
				ms := []mem{m}
				if m.name != ep.name {
					ms = append(ms, ep)
				}
				checkRecord(c, full(ms, pl), pl, plats[(i+k)%4], c10opts{hash: "sha256", installer: "ocibuild layer wheel", compile: true, command: true})
			})
		}
	}
}

