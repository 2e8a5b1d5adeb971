// Package mc is the explorer core shared by all checks: it runs an enumeration of cases against the
// real code, sharded over worker processes, and turns failures, panics, crashes and hangs of a case
// in to violations.  The enumeration itself (what the cases are) belongs to the individual suites;
// every worker enumerates the same deterministic sequence and runs its share of it.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Suite describes one check.
type Suite struct {
	ID          string // property
	Level       string // evidence level
	Rule        string // how cases are made, what makes one non-trivial
	Assumptions []string
	Body        func(t *T)
	Procs       int           // worker processes (default NumCPU, max 8)
	Deadline    time.Duration // soft limit for enumeration (default: by tier)
	CaseHang    time.Duration // default 60s
}

type sectionStat struct {
	Name       string `json:"name"`
	Bounds     string `json:"bounds"`
	Cases      int64  `json:"cases"`
	Nontrivial int64  `json:"nontrivial"`
	Total      int64  `json:"-"`
	Complete   bool   `json:"complete"`
}

// Failure is one violating case.
type Failure struct {
	Property string `json:"property"`
	Section  string `json:"section"`
	Index    int64  `json:"index"`
	Case     string `json:"case"`
	Message  string `json:"message"`
	Trace    []int  `json:"choices,omitempty"`
	Tier     string `json:"tier"`
}

// T is the context of one worker.
type T struct {
	Tier   string
	Seed   int64
	Repo   string
	suite  *Suite
	shard  int
	shards int

	only        string
	onlyIdx     int64
	cur         *sectionStat
	idx         int64
	sections    []*sectionStat
	page        []byte
	deadline    time.Time
	truncated   bool
	fails       []Failure
	evals       int64
	inner       int64
	trans       int64
	states      map[uint64]struct{}
	outcomes    map[uint64]struct{}
	samples     []interface{}
	extra       map[string]int64
	seenOutcome map[string]int
	stopped     bool
	failBySec   map[string]int
}

// Thorough reports whether this is the thorough tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Pick returns q on the quick tier and th on the thorough tier.
func (t *T) Pick(q, th int) int {
	if t.Thorough() {
		return th
	}
	return q
}

// Section starts a new section of the enumeration.
func (t *T) Section(name, bounds string) {
	t.finishSection()
	t.cur = &sectionStat{Name: name, Bounds: bounds, Complete: true}
	t.sections = append(t.sections, t.cur)
	t.idx = 0
}

func (t *T) finishSection() {
	if t.cur != nil {
		t.cur.Total = t.idx
	}
}

// C is the context of one case.
type C struct {
	t       *T
	failed  []string
	outcome string
	nontriv bool
	trace   []int
}

// Failf records a violation of the property in this case.
func (c *C) Failf(format string, args ...interface{}) {
	if len(c.failed) < 4 {
		c.failed = append(c.failed, fmt.Sprintf(format, args...))
	}
}

// Failed reports whether the case has failed already.
func (c *C) Failed() bool { return len(c.failed) > 0 }

// Outcome records the (abstract) outcome of the case; distinct outcomes are counted.
func (c *C) Outcome(s string) { c.outcome = s; c.nontriv = true }

// Inner counts n further evaluations made inside of this case (the case itself counts as one).
func (c *C) Inner(n int) {
	c.t.inner += int64(n)
	c.t.cur.Cases += int64(n)
	c.t.cur.Nontrivial += int64(n)
}

// AddOutcome records a further distinct outcome.
func (c *C) AddOutcome(s string) { c.t.outcomes[hash64(c.t.cur.Name+"\x00"+s)] = struct{}{} }

// Trivial marks the case as trivial (it is counted as an evaluation only).
func (c *C) Trivial() { c.nontriv = false; c.outcome = "" }

// State records that a model or system state was visited.
func (c *C) State(s string) { c.t.states[hash64(s)] = struct{}{} }

// Transitions adds n to the number of transitions explored.
func (c *C) Transitions(n int) { c.t.trans += int64(n) }

// Count adds to a named counter of the evidence.
func (c *C) Count(name string, n int) { c.t.extra[name] += int64(n) }

func hash64(s string) uint64 {
	h := fnv.New64a()
	_, _ = io.WriteString(h, s)
	return h.Sum64()
}

// Stopped reports whether enumeration should stop (deadline reached or too many failures).
func (t *T) Stopped() bool { return t.stopped }

// Mine reports whether the next case belongs to this worker, without running it; it lets suites skip
// building expensive cases.  If it returns false then the case is skipped.
func (t *T) Mine() bool {
	if t.stopped {
		t.cur.Complete = false
		return false
	}
	if t.only != "" {
		if t.only == t.cur.Name && t.idx == t.onlyIdx {
			return true
		}
		t.idx++
		return false
	}
	if int(t.idx%int64(t.shards)) == t.shard {
		return true
	}
	t.idx++
	return false
}

// Case runs one case (if it belongs to this worker).
func (t *T) Case(desc func() string, f func(c *C)) {
	if !t.Mine() {
		return
	}
	t.run(desc, f)
}

// Run runs a case for which Mine() just returned true.
func (t *T) Run(desc func() string, f func(c *C)) { t.run(desc, f) }

func (t *T) run(desc func() string, f func(c *C)) {
	if !t.deadline.IsZero() && t.evals%16 == 0 && time.Now().After(t.deadline) {
		t.truncated = true
		t.stopped = true
		t.cur.Complete = false
		return
	}
	t.evals++
	t.cur.Cases++
	idx := t.idx
	t.idx++
	t.mark(idx, desc)
	c := &C{t: t}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortCase); ok {
					return
				}
				c.Failf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		f(c)
	}()
	t.settle(c, idx, desc)
}

type abortCase struct{}

// Abort ends the case immediately (after a Failf, say).
func (c *C) Abort() { panic(abortCase{}) }

func (t *T) settle(c *C, idx int64, desc func() string) {
	if c.nontriv {
		t.cur.Nontrivial++
		t.outcomes[hash64(t.cur.Name+"\x00"+c.outcome)] = struct{}{}
		if t.shard == 0 && len(t.samples) < 40 && t.seenOutcome[t.cur.Name] < 3 {
			t.seenOutcome[t.cur.Name]++
			t.samples = append(t.samples, map[string]string{
				"section": t.cur.Name, "case": clip(desc(), 600), "outcome": clip(c.outcome, 400)})
		}
	}
	if t.only != "" {
		fmt.Fprintf(os.Stderr, "case %s:%d %s\noutcome: %s\nfailures: %s\n", t.cur.Name, idx, desc(), c.outcome,
			strings.Join(c.failed, "\n"))
	}
	if len(c.failed) > 0 {
		if t.failBySec[t.cur.Name] < 8 {
			t.fails = append(t.fails, Failure{
				Property: t.suite.ID, Section: t.cur.Name, Index: idx, Case: desc(),
				Message: strings.Join(c.failed, "\n"), Trace: c.trace, Tier: t.Tier,
			})
		}
		t.failBySec[t.cur.Name]++
		if t.failBySec[t.cur.Name] >= 200 {
			t.stopped = true
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trimStack(bs []byte) string { return clip(string(bs), 3000) }

const pageSize = 16384

func (t *T) mark(idx int64, desc func() string) {
	if t.page == nil {
		return
	}
	s := t.cur.Name
	if len(s) > 200 {
		s = s[:200]
	}
	// Sections change rarely; descriptions are only needed when a worker dies, but then the worker
	// can no longer tell us, so store them eagerly (they are short).
	binary.LittleEndian.PutUint64(t.page[8:], uint64(idx))
	t.page[16] = byte(len(s))
	copy(t.page[17:], s)
	d := desc()
	if len(d) > pageSize-300 {
		d = d[:pageSize-300]
	}
	binary.LittleEndian.PutUint32(t.page[224:], uint32(len(d)))
	copy(t.page[256:], d)
	atomicAdd(t.page)
}

func atomicAdd(page []byte) {
	v := binary.LittleEndian.Uint64(page)
	binary.LittleEndian.PutUint64(page, v+1)
}

type workerResult struct {
	Sections  []*sectionStat
	Totals    []int64
	Evals     int64
	Trans     int64
	Truncated bool
	Fails     []Failure
	Samples   []interface{}
	Extra     map[string]int64
}

// Main runs the suite.
func Main(s Suite) {
	var (
		tier     = flag.String("tier", "quick", "")
		evidence = flag.String("evidence", "", "")
		replayTo = flag.String("replay-out", "", "")
		known    = flag.String("known", "", "")
		worker   = flag.String("worker", "", "")
		outFile  = flag.String("worker-out", "", "")
		pageFile = flag.String("worker-page", "", "")
		only     = flag.String("only", "", "section:index: run just that case")
		repo     = flag.String("repo", "/repo", "")
	)
	flag.Parse()
	// Where these signals are ignored (nohup, a background job), so they would be in the programs that are
	// started from here.
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sigs
		os.Exit(130)
	}()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if s.Deadline == 0 {
		s.Deadline = 240 * time.Second
		if *tier == "thorough" {
			s.Deadline = 40 * time.Minute
		}
	}
	if v := os.Getenv("VERIF_DEADLINE_S"); v != "" {
		n, _ := strconv.Atoi(v)
		s.Deadline = time.Duration(n) * time.Second
	}
	if s.CaseHang == 0 {
		s.CaseHang = 60 * time.Second
	}
	if s.Procs == 0 {
		s.Procs = runtime.NumCPU()
		if s.Procs > 8 {
			s.Procs = 8
		}
	}
	newT := func() *T {
		return &T{
			Tier: *tier, Seed: seed, Repo: *repo, suite: &s, shards: 1,
			states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{},
			extra: map[string]int64{}, seenOutcome: map[string]int{}, failBySec: map[string]int{},
		}
	}
	switch {
	case *only != "":
		t := newT()
		i := strings.LastIndex(*only, ":")
		t.only = (*only)[:i]
		t.onlyIdx, _ = strconv.ParseInt((*only)[i+1:], 10, 64)
		s.Body(t)
		if len(t.fails) > 0 {
			os.Exit(1)
		}
		return
	case *worker != "":
		t := newT()
		if _, err := fmt.Sscanf(*worker, "%d/%d", &t.shard, &t.shards); err != nil {
			panic(err)
		}
		runtime.GOMAXPROCS(2)
		debug.SetMaxStack(256 << 20)
		f, err := os.OpenFile(*pageFile, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		t.page, err = syscall.Mmap(int(f.Fd()), 0, pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
		if ns := os.Getenv("VERIF_DEADLINE_AT"); ns != "" {
			n, _ := strconv.ParseInt(ns, 10, 64)
			t.deadline = time.Unix(0, n)
		}
		s.Body(t)
		t.finishSection()
		res := workerResult{Sections: t.sections, Evals: t.evals + t.inner, Trans: t.trans, Truncated: t.truncated,
			Fails: t.fails, Samples: t.samples, Extra: t.extra}
		for _, sec := range t.sections {
			res.Totals = append(res.Totals, sec.Total)
		}
		writeJSON(*outFile, res)
		writeHashes(*outFile+".o", t.outcomes)
		writeHashes(*outFile+".s", t.states)
		os.Exit(0)
	}

	start := time.Now()
	dir, err := os.MkdirTemp("", "mc.")
	must(err)
	defer os.RemoveAll(dir)
	os.Setenv("VERIF_DEADLINE_AT", strconv.FormatInt(start.Add(s.Deadline).UnixNano(), 10))
	type wstate struct {
		res  workerResult
		fail *Failure
		err  string
	}
	ws := make([]wstate, s.Procs)
	var wg sync.WaitGroup
	for i := 0; i < s.Procs; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			page := filepath.Join(dir, fmt.Sprintf("page%d", i))
			must(os.WriteFile(page, make([]byte, pageSize), 0o600))
			out := filepath.Join(dir, fmt.Sprintf("out%d", i))
			cmd := exec.Command(os.Args[0], "-tier", *tier, "-repo", *repo,
				"-worker", fmt.Sprintf("%d/%d", i, s.Procs), "-worker-out", out, "-worker-page", page)
			var stderr tailBuf
			cmd.Stderr = &stderr
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			// Pdeathsig is per-thread: keep this thread alive.
			runtime.LockOSThread()
			must(cmd.Start())
			var hung int32
			done := make(chan struct{})
			go watchdog(cmd.Process.Pid, page, s.CaseHang, done, &hung)
			err := cmd.Wait()
			close(done)
			if err == nil {
				bs, rerr := os.ReadFile(out)
				if rerr == nil {
					rerr = json.Unmarshal(bs, &ws[i].res)
				}
				if rerr != nil {
					ws[i].err = rerr.Error()
				}
				return
			}
			pg, _ := os.ReadFile(page)
			sec, idx, desc := decodePage(pg)
			msg := fmt.Sprintf("the process executing this case died: %v\n%s", err, stderr.String())
			if atomic.LoadInt32(&hung) != 0 {
				msg = fmt.Sprintf("the case did not terminate within %v (or exhausted memory)", s.CaseHang)
			}
			if binary.LittleEndian.Uint64(pg) == 0 {
				ws[i].err = msg
				return
			}
			ws[i].fail = &Failure{Property: s.ID, Section: sec, Index: idx, Case: desc, Message: msg, Tier: *tier}
		}()
	}
	wg.Wait()

	// merge
	var (
		evals, trans, nontriv int64
		truncated             bool
		fails                 []Failure
		samples               []interface{}
		extra                 = map[string]int64{}
		secs                  []*sectionStat
		infraErr              string
	)
	for i := range ws {
		w := &ws[i]
		if w.err != "" {
			infraErr = w.err
		}
		if w.fail != nil {
			fails = append(fails, *w.fail)
			truncated = true
		}
		evals += w.res.Evals
		trans += w.res.Trans
		truncated = truncated || w.res.Truncated
		fails = append(fails, w.res.Fails...)
		samples = append(samples, w.res.Samples...)
		for k, v := range w.res.Extra {
			extra[k] += v
		}
		for j, sec := range w.res.Sections {
			if j >= len(secs) {
				secs = append(secs, &sectionStat{Name: sec.Name, Bounds: sec.Bounds, Complete: true})
			}
			secs[j].Cases += sec.Cases
			secs[j].Nontrivial += sec.Nontrivial
			secs[j].Complete = secs[j].Complete && sec.Complete
		}
	}
	for _, sec := range secs {
		nontriv += sec.Nontrivial
	}
	distinct := countHashes(dir, s.Procs, ".o")
	states := countHashes(dir, s.Procs, ".s")
	if infraErr != "" && len(fails) == 0 {
		fmt.Fprintf(os.Stderr, "check error: %s\n", infraErr)
		os.RemoveAll(dir)
		os.Exit(2)
	}

	// known findings
	kf := loadKnown(*known, s.ID)
	var real []Failure
	hit := map[string]bool{}
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Section != fails[j].Section {
			return fails[i].Section < fails[j].Section
		}
		return fails[i].Index < fails[j].Index
	})
	for _, f := range fails {
		if what, ok := kf[f.Section+"|"+f.Case]; ok {
			if !hit[f.Case] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.ID, what)
			}
			hit[f.Case] = true
			continue
		}
		real = append(real, f)
	}

	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"rule":                s.Rule,
		"samples":             samples,
		"exhaustive":          !truncated,
		"sections":            secs,
	}
	if s.Level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = evals
	} else {
		if states > 0 {
			cov["distinct_states"] = states
		}
		if trans > 0 {
			cov["steps"] = trans
		}
	}
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": s.ID, "tier": *tier, "seed": seed, "level": s.Level,
		"coverage": cov, "assumptions": s.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	if *evidence != "" {
		writeJSON(*evidence, ev)
	}
	fmt.Printf("%s %s: %d cases (%d non-trivial), %d distinct outcomes, %d states, %d transitions, exhaustive=%v, %.1fs\n",
		s.ID, *tier, evals, nontriv, distinct, states, trans, !truncated, time.Since(start).Seconds())
	os.RemoveAll(dir)
	if len(real) > 0 {
		if *replayTo != "" {
			_ = os.MkdirAll(filepath.Dir(*replayTo), 0o777)
			writeJSON(*replayTo, map[string]interface{}{"failures": real,
				"replay_cmd": fmt.Sprintf("/verif/check.sh %s replay '%s:%d' %s", s.ID, real[0].Section, real[0].Index, *tier)})
		}
		for i, f := range real {
			if i >= 5 {
				fmt.Printf("... and %d more\n", len(real)-i)
				break
			}
			fmt.Printf("FAIL [%s:%d] %s\n    %s\n", f.Section, f.Index, clip(f.Case, 1500),
				strings.ReplaceAll(clip(f.Message, 2500), "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.ID, *replayTo)
		os.Exit(1)
	}
	os.Exit(0)
}

func decodePage(pg []byte) (string, int64, string) {
	n := int(pg[16])
	dn := int(binary.LittleEndian.Uint32(pg[224:]))
	if dn > len(pg)-256 {
		dn = len(pg) - 256
	}
	return string(pg[17 : 17+n]), int64(binary.LittleEndian.Uint64(pg[8:])), string(pg[256 : 256+dn])
}

func watchdog(pid int, page string, hang time.Duration, done chan struct{}, hung *int32) {
	last := uint64(0)
	since := time.Now()
	cpu0 := cpuOf(pid)
	for {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		pg, err := os.ReadFile(page)
		if err != nil {
			return
		}
		if rssOf(pid) > 6<<30 {
			atomic.StoreInt32(hung, 1)
			_ = syscall.Kill(-pid, syscall.SIGKILL)
			return
		}
		cur := binary.LittleEndian.Uint64(pg)
		if cur != last {
			last = cur
			since = time.Now()
			cpu0 = cpuOf(pid)
			continue
		}
		if last == 0 {
			continue
		}
		el := time.Since(since)
		if (el > hang && cpuOf(pid)-cpu0 > hang.Seconds()/3) || el > 3*hang {
			atomic.StoreInt32(hung, 1)
			_ = syscall.Kill(-pid, syscall.SIGKILL)
			return
		}
	}
}

func cpuOf(pid int) float64 {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(bs)
	s = s[strings.LastIndex(s, ")")+1:]
	fs := strings.Fields(s)
	if len(fs) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(fs[11], 64)
	k, _ := strconv.ParseFloat(fs[12], 64)
	return (u + k) / 100
}

func rssOf(pid int) int64 {
	bs, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	fs := strings.Fields(string(bs))
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(fs[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.buf) < 6000 {
		b.buf = append(b.buf, p...)
	}
	return len(p), nil
}
func (b *tailBuf) String() string { return clip(string(b.buf), 4000) }

func writeJSON(fn string, v interface{}) {
	bs, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(fn, append(bs, '\n'), 0o666))
}

func writeHashes(fn string, set map[uint64]struct{}) {
	buf := make([]byte, 0, 8*len(set))
	var b [8]byte
	for h := range set {
		binary.LittleEndian.PutUint64(b[:], h)
		buf = append(buf, b[:]...)
	}
	must(os.WriteFile(fn, buf, 0o600))
}

func countHashes(dir string, n int, ext string) int {
	set := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		bs, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out%d%s", i, ext)))
		if err != nil {
			continue
		}
		for j := 0; j+8 <= len(bs); j += 8 {
			set[binary.LittleEndian.Uint64(bs[j:])] = struct{}{}
		}
	}
	return len(set)
}

func loadKnown(fn, id string) map[string]string {
	ret := map[string]string{}
	if fn == "" {
		return ret
	}
	bs, err := os.ReadFile(fn)
	if err != nil {
		return ret
	}
	var doc struct {
		Findings []struct{ Property, Section, Case, What string }
	}
	must(json.Unmarshal(bs, &doc))
	for _, f := range doc.Findings {
		if f.Property == id {
			ret[f.Section+"|"+f.Case] = f.What
		}
	}
	return ret
}

func must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "check error: %v\n", err)
		os.Exit(2)
	}
}
