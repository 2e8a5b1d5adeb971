// Package vsched is a scheduler that runs one of several goroutines at a time, switching between them only at
// scheduling points, as a plan says.  Handing over the processor is invisible to the race detector (it is done
// through plain memory, in functions that are not instrumented), so that in every schedule the only
// synchronization that the race detector sees is the program's own.
package vsched

import (
	"runtime"
	"unsafe"
)

const (
	maxT = 4
	maxS = 1 << 15

	ready   = 0
	blocked = 1
	done    = 2
	foreign = 3 // waits for something that isn't under our control
)

// Steal is after how many fruitless looks a waiting goroutine asks whether the running one is blocked.
const steal = 300

var (
	active  bool
	aborted bool
	turn    int
	n       int
	state   [maxT]int
	waits   [maxT]unsafe.Pointer
	clock   int

	plan    [maxS]int8
	planLen int

	steps  int
	choice [maxS]int8  // which goroutine went on
	enab   [maxS]uint8 // which could have
	curs   [maxS]int8  // which one was running (or -1: it could not go on)

	// Deadlock and Overflow say why a run was given up.
	deadlock, overflow bool
	starvation         int

	// strangers is the number of goroutines that have been taken to be blocked by something that isn't under our
	// control; while there are any, the running goroutine is looked up by its id
	strangers int
	begun     bool
	goids     [maxT]int
)

type abort struct{}

// Step is one scheduling decision of a run.
type Step struct {
	Choice, Cur int
	Enabled     uint8
}

// Result is what happened in a run.
type Result struct {
	Steps              []Step
	Deadlock, Overflow bool
	Panics             []interface{}
	Clock              int
}

//go:norace
func start(p []int8, threads int) {
	n = threads
	for i := range p {
		plan[i] = p[i]
	}
	planLen = len(p)
	steps, clock = 0, 0
	deadlock, overflow, aborted = false, false, false
	for i := range state {
		state[i] = ready
		waits[i] = nil
	}
	starvation, strangers = 0, 0
	turn = -1
	begun = false
	active = true
}

//go:norace
func stop() { active = false }

//go:norace
func snapshot(r *Result) {
	r.Steps = make([]Step, steps)
	for i := 0; i < steps; i++ {
		r.Steps[i] = Step{int(choice[i]), int(curs[i]), enab[i]}
	}
	r.Deadlock, r.Overflow, r.Clock = deadlock, overflow, clock
}

// decide picks who goes on; cur is -1 if the running goroutine cannot.
//
//go:norace
func decide(cur int) int {
	var mask uint8
	first := -1
	for i := 0; i < n; i++ {
		if state[i] == ready {
			mask |= 1 << uint(i)
			if first < 0 {
				first = i
			}
		}
	}
	if mask == 0 {
		return -1
	}
	next := first
	if cur >= 0 {
		next = cur
	}
	if steps >= maxS {
		overflow = true
		aborted = true
		return next
	}
	if steps < planLen && plan[steps] >= 0 && mask&(1<<uint(plan[steps])) != 0 {
		next = int(plan[steps])
	} else if cur >= 0 {
		// a goroutine that waits for another one in a loop has to let it go on eventually
		starvation++
		if starvation > 3000 {
			for d := 1; d < n; d++ {
				if o := (cur + d) % n; state[o] == ready {
					next = o
					break
				}
			}
		}
	}
	if next != cur {
		starvation = 0
	}
	choice[steps], enab[steps], curs[steps] = int8(next), mask, int8(cur)
	steps++
	return next
}

//go:norace
func wait(me int) {
	last, spins := steps, 0
	for turn != me {
		if aborted {
			return
		}
		if state[me] == foreign {
			// it wasn't blocked after all
			state[me] = ready
			strangers--
		}
		runtime.Gosched()
		if steps != last {
			last, spins = steps, 0
			continue
		}
		if spins++; spins > steal && begun && foremost(me) {
			spins = 0
			t := turn
			if t == me {
				return
			}
			if t >= 0 {
				// does whoever has the turn wait for something else?
				if goids[t] == 0 || !stuck(goids[t]) || turn != t || steps != last {
					continue
				}
				if state[t] == ready {
					state[t] = foreign
					strangers++
				}
			}
			turn = me
			return
		}
	}
}

// foremost reports whether a goroutine is the first of those that wait for their turn.
//
//go:norace
func foremost(me int) bool {
	for i := 0; i < me; i++ {
		if i != turn && state[i] == ready {
			return false
		}
	}
	return state[me] == ready
}

// goid is the number of the calling goroutine.
//
//go:norace
func goid() int {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	id := 0
	for _, b := range buf[len("goroutine "):n] {
		if b < '0' || b > '9' {
			break
		}
		id = id*10 + int(b-'0')
	}
	return id
}

var stackBuf [1 << 16]byte

// stuck reports whether a goroutine waits for a channel, a lock, or the like.
//
//go:norace
func stuck(id int) bool {
	all := stackBuf[:runtime.Stack(stackBuf[:], true)]
	const prefix = "goroutine "
	for i := 0; i+len(prefix) < len(all); i++ {
		if (i > 0 && all[i-1] != '\n') || string(all[i:i+len(prefix)]) != prefix {
			continue
		}
		j, num := i+len(prefix), 0
		for ; j < len(all) && all[j] >= '0' && all[j] <= '9'; j++ {
			num = num*10 + int(all[j]-'0')
		}
		if num != id {
			continue
		}
		e := j
		for e < len(all) && all[e] != '\n' {
			e++
		}
		what := string(all[j:e])
		for _, w := range []string{"chan ", "select", "semacquire", "sync.", "sleep", "IO wait"} {
			if len(what) > 2+len(w) && what[2:2+len(w)] == w {
				// it doesn't count if it is only looking itself, or has yet to begin
				for e++; e < len(all) && all[e-1] != '\n'; e++ {
				}
				if w == "semacquire" && !(e+16 < len(all) && string(all[e:e+16]) == "sync.runtime_Sem") {
					return false // the garbage collector
				}
				own := 0
				for ; e+len(mine) < len(all) && !(all[e] == '\n' && all[e-1] == '\n'); e++ {
					if all[e-1] == '\n' && string(all[e:e+len(mine)]) == mine {
						own = e
						break
					}
				}
				return own == 0 || !(string(all[own+len(mine):own+len(mine)+5]) == "stuck" || string(all[own+len(mine):own+len(mine)+6]) == "worker")
			}
		}
		return false
	}
	return false
}

const mine = "github.com/datawire/ocibuild/verifmc/vsched."

// self is the thread that is running.
//
//go:norace
func self() int {
	if strangers == 0 {
		return turn
	}
	id := goid()
	for i := 0; i < n; i++ {
		if goids[i] == id {
			if state[i] == foreign {
				// it is back
				state[i] = ready
				strangers--
				wait(i)
			}
			return i
		}
	}
	return turn
}

//go:norace
func enter(i int) {
	if goids[i] == 0 {
		goids[i] = goid()
	}
	wait(i)
}

// Active reports whether the caller is one of the scheduled goroutines.
//
//go:norace
func Active() bool { return active && !aborted }

// Aborted reports whether the run has been given up.
//
//go:norace
func Aborted() bool { return active && aborted }

// Point is a scheduling point.
//
//go:norace
func Point() {
	if !active {
		return
	}
	if aborted {
		panic(abort{})
	}
	me := self()
	if me < 0 {
		return
	}
	if aborted {
		panic(abort{})
	}
	next := decide(me)
	if aborted {
		panic(abort{})
	}
	if next != me {
		turn = next
		wait(me)
		if aborted {
			panic(abort{})
		}
	}
}

// Block suspends the running goroutine until Wake is called for the object.
//
//go:norace
func Block(obj unsafe.Pointer) {
	if aborted {
		panic(abort{})
	}
	me := self()
	state[me] = blocked
	waits[me] = obj
	pass()
	wait(me)
	if aborted {
		panic(abort{})
	}
}

// Wake makes the goroutines that are blocked on the object runnable.
//
//go:norace
func Wake(obj unsafe.Pointer) {
	for i := 0; i < n; i++ {
		if state[i] == blocked && waits[i] == obj {
			state[i] = ready
			waits[i] = nil
		}
	}
}

// pass hands over to somebody else, because the running goroutine cannot go on.
//
//go:norace
func pass() {
	turn = decide(-1)
	if turn >= 0 || strangers > 0 {
		return
	}
	for i := 0; i < n; i++ {
		if state[i] == blocked {
			deadlock = true
			aborted = true
		}
	}
}

//go:norace
func finish(me int) {
	was := state[me]
	state[me] = done
	if was == foreign {
		strangers--
		if turn >= 0 {
			return // somebody else is running
		}
	}
	if !aborted {
		pass()
	}
}

//go:norace
func begin() {
	turn = decide(-1)
	begun = true
}

// Tick advances the logical clock, which orders the calls of the clients.
//
//go:norace
func Tick() int {
	clock++
	return clock
}

type job struct {
	i   int
	f   func()
	res *Result
}

// the goroutines are kept (making them is expensive under the race detector)
var (
	pool [maxT]chan job
	fin  = make(chan int, maxT)
)

func worker(jobs chan job) {
	for j := range jobs {
		j.run()
	}
}

func (j job) run() {
	defer func() { fin <- j.i }()
	defer finish(j.i)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); !ok {
				j.res.Panics[j.i] = r
			}
		}
	}()
	enter(j.i)
	j.f()
}

// Run runs the functions under a plan: plan[i] is who goes on at the i-th decision.
func Run(p []int8, threads []func()) *Result {
	res := &Result{Panics: make([]interface{}, len(threads))}
	start(p, len(threads))
	for i, f := range threads {
		if pool[i] == nil {
			pool[i] = make(chan job)
			go worker(pool[i])
		}
		pool[i] <- job{i, f, res}
	}
	begin()
	for range threads {
		<-fin
	}
	stop()
	snapshot(res)
	return res
}
