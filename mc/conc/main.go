// Command conc explores the interleavings of clients that share a loaded filesystem (C05).
package main

import (
	"archive/tar"
	"fmt"
	"io/fs"
	"runtime"
	"sort"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"

	"github.com/datawire/ocibuild/pkg/squash"
	"github.com/datawire/ocibuild/verifmc/ltar"
	"github.com/datawire/ocibuild/verifmc/mc"
	"github.com/datawire/ocibuild/verifmc/vsched"
)

var c05 = mc.Suite{
	ID:    "C05",
	Level: "model_checking",
	Rule: "small client programs run on goroutines that are switched only at scheduling points, which are before every statement of the package and at its locks; all schedules with at most 2 (3) preemptions are run, " +
		"each under the race detector, which does not see the switching; the results of the calls must be those of a sequential order that respects which call ended before another began; a program is non-trivial if it has several schedules",
	Assumptions: []string{
		"a statement is atomic for the interleaving of results; accesses within statements are judged by the race detector",
		"sequential results are those of the code itself (C04 is about them)",
		"channels and condition variables are not scheduling points: a goroutine that is blocked by one is recognised by its lack of progress",
	},
	Body:     body,
	Deadline: 9 * time.Minute,
	CaseHang: 5 * time.Minute,
}

func main() {
	runtime.GOMAXPROCS(1)
	mc.Main(c05)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// op is a call of a client.
type op struct {
	name string
	do   func(w *world) string
}

// world is what the clients share.
type world struct {
	fsys fs.FS
	h    fs.File
}

type prog [][]op

func (p prog) String() string {
	var ts []string
	for _, t := range p {
		var os []string
		for _, o := range t {
			os = append(os, o.name)
		}
		ts = append(ts, strings.Join(os, "; "))
	}
	return strings.Join(ts, " || ")
}

func errString(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func entString(ents []fs.DirEntry) string {
	s := ""
	for _, e := range ents {
		s += e.Name() + ":" + e.Type().String()
		if i, err := e.Info(); err == nil {
			s += fmt.Sprintf(":%d", i.Size())
		}
		s += ","
	}
	return s
}

// mine is an entry that a client has of its own.
type mine struct{ fs.DirEntry }

func (mine) Name() string               { return "mine" }
func (mine) IsDir() bool                { return false }
func (mine) Type() fs.FileMode          { return 0 }
func (mine) Info() (fs.FileInfo, error) { return nil, fs.ErrInvalid }

func opRead(n int) op {
	return op{fmt.Sprintf("Read(%d)", n), func(w *world) string {
		buf := make([]byte, n)
		got, err := w.h.Read(buf)
		if got < 0 || got > n {
			return fmt.Sprint("read ", got)
		}
		return fmt.Sprintf("%d %q %s", got, buf[:got], errString(err))
	}}
}

func opReadDir(n int) op {
	return op{fmt.Sprintf("ReadDir(%d)", n), func(w *world) string {
		ents, err := w.h.(fs.ReadDirFile).ReadDir(n)
		return entString(ents) + errString(err)
	}}
}

func opAppend(n int) op {
	return op{fmt.Sprintf("ReadDir(%d), append to the result", n), func(w *world) string {
		ents, err := w.h.(fs.ReadDirFile).ReadDir(n)
		ents = append(ents, mine{}, mine{})
		return entString(ents) + errString(err)
	}}
}

func opSort(n int) op {
	return op{fmt.Sprintf("ReadDir(%d), sort the result", n), func(w *world) string {
		ents, err := w.h.(fs.ReadDirFile).ReadDir(n)
		sort.Slice(ents, func(i, j int) bool { return ents[i].Name() > ents[j].Name() })
		return entString(ents) + errString(err)
	}}
}

var opStat = op{"Stat()", func(w *world) string {
	fi, err := w.h.Stat()
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%s %v %d %d", fi.Name(), fi.Mode(), fi.Size(), fi.ModTime().Unix())
}}

var opClose = op{"Close()", func(w *world) string { return errString(w.h.Close()) }}

func opOpen(p string) op {
	return op{"open and read " + p, func(w *world) string {
		f, err := w.fsys.Open(p)
		if err != nil {
			return err.Error()
		}
		fi, err := f.Stat()
		s := errString(err)
		if err == nil {
			s = fmt.Sprintf("%s %v %d", fi.Name(), fi.Mode(), fi.Size())
		}
		buf := make([]byte, 3)
		for i := 0; i < 4; i++ {
			n, err := f.Read(buf)
			s += fmt.Sprintf(" %q %s", buf[:n], errString(err))
			if err != nil {
				break
			}
		}
		return s + " " + errString(f.Close())
	}}
}

func opList(p string) op {
	return op{"list " + p, func(w *world) string {
		f, err := w.fsys.Open(p)
		if err != nil {
			return err.Error()
		}
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			return "not a directory"
		}
		s := ""
		for i := 0; i < 8; i++ {
			ents, err := d.ReadDir(2)
			s += entString(ents) + errString(err) + " "
			if err != nil {
				break
			}
		}
		return s + errString(f.Close())
	}}
}

func opFSStat(p string) op {
	return op{"stat " + p, func(w *world) string {
		fi, err := fs.Stat(w.fsys, p)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%s %v %d", fi.Name(), fi.Mode(), fi.Size())
	}}
}

func opWalk(p string) op {
	return op{"walk " + p, func(w *world) string {
		s := ""
		err := fs.WalkDir(w.fsys, p, func(p string, d fs.DirEntry, err error) error {
			s += p + " " + errString(err) + "\n"
			return nil
		})
		return s + errString(err)
	}}
}

// stacks are the layers of the filesystems.
var stacks = func() map[string][]ociv1.Layer {
	when := time.Unix(1500000000, 0)
	e := func(typ byte, name, link, body string) ltar.Ent {
		return ltar.Ent{Hdr: tar.Header{Typeflag: typ, Name: name, Linkname: link, Mode: 0o644, ModTime: when}, Body: []byte(body)}
	}
	l := func(ents ...ltar.Ent) ociv1.Layer { return ltar.RawLayer(ltar.MustEncode(ents)) }
	return map[string][]ociv1.Layer{
		"file": {l(e('0', "d/f", "", "abcde"), e('2', "l", "d/f", ""))},
		"dir":  {l(e('0', "d/a", "", "A"), e('5', "d/b", "", ""), e('2', "d/c", "a", ""), e('0', "d/.wh.x", "", ""))},
		"many": {
			l(e('0', "f", "", "abcde"), e('5', "d", "", ""), e('0', "d/gone", "", "x"), e('0', "d/a", "", "A"), e('0', "d/i/b", "", "B"), e('2', "ld", "d", ""), e('2', "d/dangling", "nowhere", "")),
			l(e('0', "d/.wh.gone", "", ""), e('2', "l", "ld/a", ""), e('2', "loop", "loop", ""), e('1', "h", "f", "")),
		},
	}
}()

func load(name string) fs.FS {
	fsys, err := squash.Load(stacks[name], false)
	must(err)
	return fsys
}

type call struct {
	thread, start, end int
	result             string
}

// sequential runs the calls of the program in the order of the threads, and returns the result of every call
// (by thread, then by position).
func sequential(p prog, stack, open string, order []int) []string {
	w := &world{fsys: load(stack)}
	if open != "" {
		h, err := w.fsys.Open(open)
		must(err)
		w.h = h
	}
	next := make([]int, len(p))
	res := map[[2]int]string{}
	for _, t := range order {
		res[[2]int{t, next[t]}] = p[t][next[t]].do(w)
		next[t]++
	}
	var ret []string
	for t := range p {
		for i := range p[t] {
			ret = append(ret, res[[2]int{t, i}])
		}
	}
	return ret
}

// orders are all interleavings of the threads' calls.
func orders(p prog) [][]int {
	var ret [][]int
	left := make([]int, len(p))
	total := 0
	for i := range p {
		left[i] = len(p[i])
		total += len(p[i])
	}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == total {
			ret = append(ret, append([]int(nil), cur...))
			return
		}
		for t := range p {
			if left[t] > 0 {
				left[t]--
				rec(append(cur, t))
				left[t]++
			}
		}
	}
	rec(nil)
	return ret
}

// shards is the number of cases that the schedules of a program are spread over (by their first preemption).
const shards = 8

// check explores all schedules of a program.
func check(c *mc.C, p prog, stack, open string, bound, shard int) {
	ords := orders(p)
	seq := make([][]string, len(ords))
	for i, o := range ords {
		seq[i] = sequential(p, stack, open, o)
	}
	base := make([]int, len(p))
	total := 0
	for i := range p {
		base[i] = total
		total += len(p[i])
	}
	type node struct {
		plan  []int8
		preem int
	}
	todo := []node{{}}
	runs, maxSteps := 0, 0
	parents := 0 // schedules without preemptions
	outcomes := map[string]bool{}
	before := races()
	for len(todo) > 0 && !c.Failed() {
		nd := todo[len(todo)-1]
		todo = todo[:len(todo)-1]

		w := &world{fsys: load(stack)}
		if open != "" {
			h, err := w.fsys.Open(open)
			must(err)
			w.h = h
		}
		calls := make([]call, total)
		var threads []func()
		for ti := range p {
			ti := ti
			threads = append(threads, func() {
				for i, o := range p[ti] {
					vsched.Point()
					k := &calls[base[ti]+i]
					k.thread = ti
					k.start = vsched.Tick()
					k.result = o.do(w)
					k.end = vsched.Tick()
				}
			})
		}
		res := vsched.Run(nd.plan, threads)
		runs++
		if len(res.Steps) > maxSteps {
			maxSteps = len(res.Steps)
		}
		c.Transitions(len(res.Steps))
		sched := func() string {
			s := ""
			for _, st := range res.Steps {
				s += fmt.Sprint(st.Choice)
			}
			return s
		}
		for i, x := range res.Panics {
			if x != nil {
				c.Failf("schedule %s: goroutine %d panics: %v", sched(), i, x)
			}
		}
		if res.Deadlock {
			c.Failf("schedule %s: deadlock", sched())
		}
		if res.Overflow {
			c.Failf("schedule %.200s...: does not terminate", sched())
		}
		if n := races(); n != before {
			before = n
			c.Failf("schedule %s: data race (run with GORACE=log_path=stderr for details)", sched())
		}
		if c.Failed() {
			return
		}
		// linearizable?
		ok := false
		got := ""
		for _, k := range calls {
			got += k.result + "\n"
		}
		outcomes[got] = true
	order:
		for oi, o := range ords {
			for i := range calls {
				if calls[i].result != seq[oi][i] {
					continue order
				}
			}
			// the order respects real time: no call comes after one that began after it ended
			pos := make([]int, total)
			next := make([]int, len(p))
			for at, th := range o {
				pos[base[th]+next[th]] = at
				next[th]++
			}
			for i := range calls {
				for j := range calls {
					if calls[i].end < calls[j].start && pos[i] > pos[j] {
						continue order
					}
				}
			}
			ok = true
			break
		}
		if !ok {
			c.Failf("schedule %s: the results are not those of any sequential order: %q", sched(), strings.Split(strings.TrimSpace(got), "\n"))
			return
		}
		// backtracking points
		if nd.preem == 0 {
			parents++
		}
		for i := len(nd.plan); i < len(res.Steps); i++ {
			st := res.Steps[i]
			for th := 0; th < len(p); th++ {
				if th == st.Choice || st.Enabled&(1<<uint(th)) == 0 {
					continue
				}
				cost := nd.preem
				if st.Cur >= 0 && th != st.Cur {
					cost++
				}
				if cost > bound {
					continue
				}
				pl := make([]int8, i+1)
				for j := 0; j < i; j++ {
					pl[j] = int8(res.Steps[j].Choice)
				}
				pl[i] = int8(th)
				if nd.preem == 0 && cost == 1 && (i+parents*3)%shards != shard {
					continue // belongs to another case
				}
				todo = append(todo, node{pl, cost})
			}
		}
		if runs > 3000000 {
			c.Failf("too many schedules")
		}
	}
	c.Inner(runs)
	c.Count("schedules", runs)
	for o := range outcomes {
		c.State(p.String() + "\x00" + o)
	}
	if runs > 1 {
		c.Outcome(fmt.Sprintf("%d results", len(outcomes)))
	}
}

func body(t *mc.T) {
	if !raceBuild {
		panic("not built with the race detector")
	}
	all := func(p prog, stack, open string, bound int) {
		for shard := 0; shard < shards; shard++ {
			shard := shard
			t.Case(func() string { return fmt.Sprintf("%s: %s (part %d, %d preemptions)", open, p, shard, bound) }, func(c *mc.C) { check(c, p, stack, open, bound, shard) })
		}
	}
	pairs := func(stack, open string, ops []op, perThread int, bound int) {
		var seqs [][]op
		var rec func(cur []op)
		rec = func(cur []op) {
			if len(cur) > 0 {
				seqs = append(seqs, append([]op(nil), cur...))
			}
			if len(cur) < perThread {
				for _, o := range ops {
					rec(append(cur, o))
				}
			}
		}
		rec(nil)
		for i := range seqs {
			for j := i; j < len(seqs); j++ {
				all(prog{seqs[i], seqs[j]}, stack, open, bound)
			}
		}
	}
	triples := func(stack, open string, ops []op, bound int) {
		for i := range ops {
			for j := i; j < len(ops); j++ {
				for k := j; k < len(ops); k++ {
					all(prog{{ops[i]}, {ops[j]}, {ops[k]}}, stack, open, bound)
				}
			}
		}
	}

	t.Section("file handle", fmt.Sprintf("2 goroutines with up to 2 of Read, Stat, Close each, and 3 with one call each, on one handle of a file; %d preemptions", t.Pick(2, 3)))
	pairs("file", "d/f", []op{opRead(2), opRead(9), opStat, opClose}, 2, t.Pick(2, 3))
	triples("file", "l", []op{opRead(1), opRead(9), opRead(0), opStat, opClose}, t.Pick(2, 3))

	t.Section("directory handle", fmt.Sprintf("2 goroutines with up to 2 of ReadDir, Close each, and 3 with one call each, on one handle of a directory; %d preemptions", t.Pick(1, 2)))
	pairs("dir", "d", []op{opReadDir(1), opReadDir(-1), opReadDir(2), opClose}, 2, t.Pick(1, 2))
	triples("dir", "d", []op{opReadDir(1), opReadDir(0), opAppend(1), opSort(2), opSort(-1), opClose, opStat}, 1)

	t.Section("mixed", "2 goroutines with one call each, including ones that fail for the kind of file, on one handle; 2 preemptions")
	pairs("file", "d/f", []op{opReadDir(1), opRead(1), opClose, opStat}, 1, 2)
	pairs("dir", "d", []op{opReadDir(-1), opRead(1), opStat, opAppend(2), opSort(2)}, 1, 2)

	t.Section("filesystem", "2 goroutines that open, stat, list, read and walk, on one filesystem; 1 preemption")
	fsOps := []op{
		opOpen("f"), opOpen("l"), opOpen("h"), opOpen("ld/a"), opOpen("d/gone"), opOpen("d/i"), opOpen("loop"), opOpen("d/dangling"), opOpen("nowhere"), opOpen("f/x"), opOpen("../f"),
		opList("d"), opList("ld"), opList("d/i"), opFSStat("d/a"), opFSStat("ld"), opFSStat("."), opFSStat("d/i"),
	}
	if t.Thorough() {
		fsOps = append(fsOps, opList("."), opWalk("d"))
	}
	pairs("many", "", fsOps, 1, 1)
	if t.Thorough() {
		pairs("many", "", []op{opOpen("l"), opList("d"), opFSStat("ld"), opOpen("f")}, 2, 1)
		triples("many", "", []op{opOpen("ld/a"), opList("d"), opFSStat("ld"), opOpen("h"), opOpen("d/gone")}, 1)
		pairs("many", "", []op{opOpen("l"), opList("d/i"), opFSStat("ld"), opOpen("h")}, 1, 2)
	}
}
