package mc

import "fmt"

// A Chooser resolves the nondeterminism of one execution: choice 0 is the default, everything else is
// a deviation.
type Chooser struct {
	prefix []int
	taken  []int
	arity  []int
	limit  int
}

// Choose picks one of n alternatives.
func (ch *Chooser) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(ch.taken)
	v := 0
	if i < len(ch.prefix) {
		v = ch.prefix[i]
		if v >= n {
			v = 0 // the program took a different turn; stay in range
		}
	}
	ch.taken = append(ch.taken, v)
	ch.arity = append(ch.arity, n)
	return v
}

// Len is the number of choices resolved so far.
func (ch *Chooser) Len() int { return len(ch.taken) }

// Explore runs f under every resolution of its choices that has at most maxDev deviations from the
// default.  Every execution is one case.
func (t *T) Explore(desc func() string, maxDev int, f func(c *C, ch *Chooser)) {
	var root *Chooser
	// The root execution is needed by every worker to know the alternatives; it is a case of
	// worker "idx mod shards", and a silent re-execution elsewhere.
	type node struct {
		prefix []int
		devs   int
	}
	exec := func(n node, silent bool) *Chooser {
		ch := &Chooser{prefix: n.prefix}
		d := func() string { return fmt.Sprintf("%s choices=%v", desc(), n.prefix) }
		if silent {
			func() {
				defer func() { _ = recover() }()
				f(&C{t: t}, ch)
			}()
			return ch
		}
		t.run(d, func(c *C) { f(c, ch); c.trace = ch.taken })
		return ch
	}
	if t.stopped {
		t.cur.Complete = false
		return
	}
	if t.only == "" && int(t.idx%int64(t.shards)) == t.shard {
		root = exec(node{}, false)
	} else if t.only != "" && t.only == t.cur.Name && t.idx == t.onlyIdx {
		root = exec(node{}, false)
	} else {
		root = exec(node{}, true)
		t.idx++
	}
	if maxDev <= 0 {
		return
	}
	expand := func(ch *Chooser, from, devs int) []node {
		var ret []node
		for i := from; i < len(ch.taken); i++ {
			for v := 1; v < ch.arity[i]; v++ {
				p := make([]int, i+1)
				copy(p, ch.taken[:i])
				p[i] = v
				ret = append(ret, node{p, devs + 1})
			}
		}
		return ret
	}
	for _, n := range expand(root, 0, 0) {
		// a whole first-level subtree is one unit of distribution; indexes inside of it are
		// numbered from the base in the subtree's own space
		mine := t.only != "" || int(t.idx%int64(t.shards)) == t.shard
		base := t.idx
		if mine {
			stack := []node{n}
			sub := int64(0)
			for len(stack) > 0 && !t.stopped {
				cur := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				t.idx = base<<20 + sub
				sub++
				var ch *Chooser
				if t.only != "" && !(t.only == t.cur.Name && t.idx == t.onlyIdx) {
					ch = exec(cur, true)
				} else {
					ch = exec(cur, false)
				}
				if cur.devs < maxDev {
					stack = append(stack, expand(ch, len(cur.prefix), cur.devs)...)
				}
			}
		}
		if t.stopped {
			t.cur.Complete = false
			return
		}
		t.idx = base + 1
	}
}
