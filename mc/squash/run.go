package main

import (
	"errors"
	"fmt"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
)

func stackString(stack []layerSpec) string {
	var parts []string
	for _, l := range stack {
		parts = append(parts, l.String())
	}
	return strings.Join(parts, " ")
}

func doSquash(raws ...[]byte) ([]byte, error) {
	layers := make([]ociv1.Layer, 0, len(raws))
	for _, r := range raws {
		layers = append(layers, ltar.RawLayer(r))
	}
	out, err := squash.Squash(layers, ltar.FastOpts...)
	if err != nil {
		return nil, err
	}
	return ltar.Bytes(out)
}

// refApply applies the stack to a copy of a lower filesystem; domain is false if the result is not
// defined.
func refApply(lower *ltar.FS, stack []*built, c *mc.C) (fs *ltar.FS, loop, domain bool) {
	fs = lower.Clone()
	for _, b := range stack {
		if err := fs.Apply(b.ents, false); err != nil {
			var le ltar.ErrLoop
			if errors.As(err, &le) {
				return nil, true, true
			}
			return nil, false, false
		}
		if c != nil {
			c.Transitions(1)
		}
	}
	return fs, false, true
}

// equivalence checks the squashed stream against the reference on every lower filesystem.
func equivalence(c *mc.C, lows []*ltar.FS, stack []*built, links bool) (outcome string) {
	empty := ltar.NewFS()
	ref0, loop, ok := refApply(empty, stack, nil)
	raws := make([][]byte, 0, len(stack))
	for _, b := range stack {
		raws = append(raws, b.raw)
	}
	out, err := doSquash(raws...)
	if !ok {
		c.Trivial()
		return "domain"
	}
	if loop {
		if err == nil {
			c.Failf("the stack has a symlink loop on the path of an entry, but squashing succeeded")
		}
		c.Outcome("loop")
		return "loop"
	}
	if err != nil {
		c.Failf("squashing failed: %v", err)
		return "err"
	}
	ents, err := ltar.Decode(out)
	if err != nil {
		c.Failf("the output is not a tar stream: %v", err)
		return "err"
	}
	c.Outcome(ltar.Describe(ents))
	c.State(ref0.String())
	for i, low := range append([]*ltar.FS{empty}, lows...) {
		want, loop, ok := refApply(low, stack, c)
		if !ok || loop {
			continue
		}
		c.State(want.String())
		for _, inOrder := range []bool{false, true} {
			got := low.Clone()
			got.Lenient = true
			if err := got.Apply(ents, inOrder); err != nil {
				c.Failf("lower %d: the output cannot be unpacked (inOrder=%v): %v; output %s", i, inOrder, err, ltar.Describe(ents))
				return
			}
			if d := ltar.Diff(want, got); d != "" {
				c.Failf("lower %d (inOrder=%v): %s; output %s", i, inOrder, d, ltar.Describe(ents))
				return
			}
			if links && i == 0 {
				if w, g := want.LinkGroups(), got.LinkGroups(); w != g {
					c.Failf("lower %d: hard link groups: want %q got %q; output %s", i, w, g, ltar.Describe(ents))
					return
				}
			}
		}
	}
	return "ok"
}

// histories enumerates all sequences of length n over the given per-position layer sets.
func histories(t *mc.T, sets [][]layerSpec, fn func(stack []layerSpec)) {
	stack := make([]layerSpec, len(sets))
	var rec func(i int)
	rec = func(i int) {
		if i == len(sets) {
			fn(stack)
			return
		}
		for _, l := range sets[i] {
			if t.Stopped() {
				return
			}
			stack[i] = l
			rec(i + 1)
		}
	}
	rec(0)
}

func buildStack(stack []layerSpec) []*built {
	ret := make([]*built, len(stack))
	for i, l := range stack {
		ret[i] = build(l, i)
	}
	return ret
}

func rep(set []layerSpec, n int) [][]layerSpec {
	ret := make([][]layerSpec, n)
	for i := range ret {
		ret[i] = set
	}
	return ret
}

func bounds(format string, args ...interface{}) string { return fmt.Sprintf(format, args...) }
