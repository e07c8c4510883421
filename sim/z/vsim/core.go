// Package vsim is the deterministic simulator: one token is passed between the
// goroutines of a run, so exactly one of them executes at any time, and every
// choice (which one continues, what the clock reads, which operation fails,
// in which order a map is walked) is drawn from one seed or from a recorded
// trace of that seed's choices.
package vsim

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Decision is one recorded non-default choice.
type Decision struct {
	S string `json:"s"`           // stream
	I int    `json:"i"`           // index in the stream (for "sched": the step)
	V int    `json:"v"`           // value chosen
	N string `json:"n,omitempty"` // what it was, for the reader
}

// Trace is everything needed to repeat a run.
type Trace struct {
	Seed      uint64     `json:"seed"`
	Decisions []Decision `json:"decisions"`
}

type Config struct {
	Seed        uint64
	Replay      *Trace // nil: draw from the seed
	PreemptMean int    // mean number of scheduling points between preemptions; 0: never preempt
	WarpPct     int    // percentage of preemptions that let the clock run to the next timer instead
	StallPct    int    // percentage of preemptions that keep the running task off the CPU for a while
	MaxSteps    int
	NumCPU      int
	Root        string // scratch directory; file writes outside are refused
	Record      bool   // keep an event log
}

type Proc struct {
	ID     int
	Name   string
	Env    []string
	Killed bool
	state  []any
	Data   any
}

type Task struct {
	ID    int
	Name  string
	Proc  *Proc
	wake  chan struct{}
	ready func() bool
	why   string
	done  bool
	vc    []uint32
	Stack []Frame // simulated call stack, innermost first
	Data  any
}

type Frame struct {
	File, Function string
	Line           int
}

type timer struct {
	when time.Duration
	seq  int
	fn   func()
	dead bool
}

type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type World struct {
	stalls  int
	rank    map[uintptr]int
	pins    []any
	Steady  bool // the clock only moves when nothing can run
	Quiet   bool // tasks run one after the other, in the order they were started
	cfg     Config
	steps   int
	nextPre int
	cur     *Task
	tasks   []*Task
	procs   []*Proc
	main    *Proc
	active  *Proc // whose package state is loaded
	now     time.Duration
	timers  []*timer
	tseq    int
	over    bool
	fin     chan struct{}
	viol    *Violation

	rngs    map[string]*rng
	counts  map[string]int
	replay  map[string]map[int]Decision
	sched   []Decision
	schedAt int
	rec     []Decision

	Faults      map[string]int
	Probes      map[string]int
	Events      []string
	ilv         uint64
	switches    int
	maps        map[unsafe.Pointer]*mapState
	noRace      int
	atomicDepth int

	FSHook    func(op, path string)      // after every successful mutation
	FSFault   func(op, path string) bool // may this operation fail?
	FSRate    int                        // per mille of the operations FSFault admits
	FSFaulted []string                   // operations that were made to fail
	FSPaths   []string                   // and what they were made on
	FSMax     int                        // at most so many faults per run (0: no bound)
	fsDone    int
	unsync    map[string]bool // written since the last sync
	Vals      map[string]any
	fileSeq   int
}

// Unsynced tells whether a file has bytes that a power failure may lose.
func (w *World) Unsynced(path string) bool { return w.unsync[path] }

// MarkSync records that a file was written (true) or is on disk (false).
func (w *World) MarkSync(path string, dirty bool) {
	if w.unsync == nil {
		w.unsync = map[string]bool{}
	}
	if dirty {
		w.unsync[path] = true
	} else {
		delete(w.unsync, path)
	}
}

// W is the current run; nil outside of a simulation.
var W *World

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }

// Rand is a deterministic generator for workload plans.
type Rand struct{ r rng }

func NewRand(seed uint64, salt string) *Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, salt)
	return &Rand{rng{h.Sum64()}}
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return r.r.intn(n)
}
func (r *Rand) Pct(p int) bool { return r.r.intn(100) < p }
func (r *Rand) Uint64() uint64 { return r.r.next() }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.r.next())
	}
	return b
}

func (w *World) rng(stream string) *rng {
	r := w.rngs[stream]
	if r == nil {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s", w.cfg.Seed, stream)
		r = &rng{h.Sum64()}
		w.rngs[stream] = r
	}
	return r
}

// choose draws a value in [0,n); 0 is the default that a shortened trace falls
// back to. gen makes the value when not replaying.
func (w *World) choose(stream, note string, n int, gen func(r *rng) int) int {
	i := w.counts[stream]
	w.counts[stream]++
	if w.replay != nil {
		if d, ok := w.replay[stream][i]; ok {
			v := d.V
			if v >= n {
				v = n - 1
			}
			if v != 0 {
				w.rec = append(w.rec, Decision{stream, i, v, note})
			}
			return v
		}
		return 0
	}
	v := gen(w.rng(stream))
	if v != 0 {
		w.rec = append(w.rec, Decision{stream, i, v, note})
	}
	return v
}

// Choose draws uniformly from [0,n).
func Choose(stream string, n int) int {
	w := W
	if w == nil || n <= 1 {
		return 0
	}
	return w.choose(stream, "", n, func(r *rng) int { return r.intn(n) })
}

// Chance is true with the given per-mille probability; false is the default.
func Chance(stream, note string, permille int) bool {
	w := W
	if w == nil || permille <= 0 {
		return false
	}
	return w.choose(stream, note, 2, func(r *rng) int {
		if r.intn(1000) < permille {
			return 1
		}
		return 0
	}) == 1
}

func CountFault(kind string) {
	if W != nil {
		W.Faults[kind]++
	}
}

func Probe(name string) {
	if W != nil {
		W.Probes[name]++
	}
}

func Logf(f string, a ...any) {
	if w := W; w != nil && w.cfg.Record {
		t := "-"
		if w.cur != nil {
			t = fmt.Sprintf("%d:%s", w.cur.ID, w.cur.Name)
		}
		w.Events = append(w.Events, fmt.Sprintf("%8d %12v [%s] %s", w.steps, w.now, t, fmt.Sprintf(f, a...)))
	}
}

// FSFaultNow decides whether the file operation about to happen fails; 0 is
// no, other values select the kind of failure.
func FSFaultNow(op, path string, kinds int) int {
	w := W
	if w == nil || w.FSRate == 0 || (w.FSMax > 0 && w.fsDone >= w.FSMax) {
		return 0
	}
	if w.FSFault != nil && !w.FSFault(op, path) {
		return 0
	}
	v := w.choose("fs", op+" "+path, kinds+1, func(r *rng) int {
		if r.intn(1000) < w.FSRate {
			return 1 + r.intn(kinds)
		}
		return 0
	})
	if v != 0 {
		w.fsDone++
		w.FSFaulted = append(w.FSFaulted, op)
		w.FSPaths = append(w.FSPaths, path)
		Logf("fault: %s %s kind %d", op, path, v)
	}
	return v
}

// FSFaults is the number of file faults injected so far.
func FSFaults() int { return W.fsDone }

// Result of a run.
type Result struct {
	Violation *Violation
	Steps     int
	Tasks     int
	Switches  int
	SimTime   time.Duration
	Faults    map[string]int
	Probes    map[string]int
	Hash      uint64 // of the interleaving of synchronisation operations
	Trace     Trace
	Events    []string
}

// Fail records a violation and ends the run. It does not return when called
// from inside a run.
func Fail(kind, f string, a ...any) {
	w := W
	if w == nil {
		panic(fmt.Sprintf("violation outside of a run: "+f, a...))
	}
	w.fail(kind, fmt.Sprintf(f, a...))
}

func (w *World) fail(kind, msg string) {
	if w.viol == nil {
		w.viol = &Violation{kind, msg}
		Logf("VIOLATION %s: %s", kind, msg)
	}
	w.finish()
	select {} // abandoned
}

func (w *World) finish() {
	if !w.over {
		w.over = true
		close(w.fin)
	}
}

// Serial numbers the runs of this process.
var Serial uint64

// Run executes main as the first task of a new simulated run.
func Run(cfg Config, main func()) Result {
	Serial++
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 2
	}
	w := &World{cfg: cfg, fin: make(chan struct{}), rngs: map[string]*rng{}, counts: map[string]int{},
		Faults: map[string]int{}, Probes: map[string]int{}, maps: map[unsafe.Pointer]*mapState{}, Vals: map[string]any{}}
	w.ilv = 14695981039346656037
	if cfg.Replay != nil {
		w.replay = map[string]map[int]Decision{}
		for _, d := range cfg.Replay.Decisions {
			if d.S == "sched" {
				w.sched = append(w.sched, d)
				continue
			}
			m := w.replay[d.S]
			if m == nil {
				m = map[int]Decision{}
				w.replay[d.S] = m
			}
			m[d.I] = d
		}
		sort.SliceStable(w.sched, func(i, j int) bool { return w.sched[i].I < w.sched[j].I })
	}
	w.main = &Proc{ID: 0, Name: "lens"}
	w.procs = append(w.procs, w.main)
	w.active = w.main
	for _, ps := range procStates {
		w.main.state = append(w.main.state, ps.save())
	}
	W = w
	w.planPreempt()
	t := w.newTask("main", w.main)
	w.cur = t
	go w.body(t, func() {
		main()
	}, true)
	t.wake <- struct{}{}
	<-w.fin
	// put the tool's own package state back
	for i, ps := range procStates {
		ps.restore(w.main.state[i].([]any))
	}
	W = nil
	return Result{Violation: w.viol, Steps: w.steps, Tasks: len(w.tasks), Switches: w.switches, SimTime: w.now, Faults: w.Faults,
		Probes: w.Probes, Hash: w.ilv, Trace: Trace{cfg.Seed, w.rec}, Events: w.Events}
}

func (w *World) newTask(name string, p *Proc) *Task {
	t := &Task{ID: len(w.tasks), Name: name, Proc: p, wake: make(chan struct{}, 1)}
	w.tasks = append(w.tasks, t)
	if w.cur != nil { // spawn edge
		w.tick(w.cur)
		t.vc = append([]uint32(nil), w.cur.vc...)
	}
	w.tick(t)
	return t
}

func (w *World) body(t *Task, f func(), isMain bool) {
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			if W != w || w.over {
				select {}
			}
			w.fail("panic", fmt.Sprintf("task %d %s panicked: %v\n%s", t.ID, t.Name, r, trimStack(debug.Stack())))
		}
	}()
	f()
	if W != w || w.over {
		select {}
	}
	t.done = true
	if isMain {
		w.finish()
		return
	}
	w.leave(t)
}

// trimStack returns the calls of a stack trace, without the addresses and goroutine numbers that differ between executions.
func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "created by ") || strings.Contains(l, "/zzverif/vsim/") {
			continue
		}
		if strings.HasPrefix(l, "\t") {
			l, _, _ = strings.Cut(l, " +0x")
		} else if i := strings.LastIndex(l, "("); i >= 0 {
			l = l[:i]
		}
		if len(out) == 40 {
			break
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// Go starts a task in the current process.
func Go(f func()) { GoNamed("go", f) }

func GoNamed(name string, f func()) *Task {
	w := W
	if w == nil {
		go f()
		return nil
	}
	return w.spawn(name, w.cur.Proc, f)
}

func GoIn(p *Proc, name string, f func()) *Task { return W.spawn(name, p, f) }

func (w *World) spawn(name string, p *Proc, f func()) *Task {
	t := w.spawnAsync(name, p, f)
	Y()
	return t
}

// spawnAsync starts a task without a scheduling point (used by timers).
func (w *World) spawnAsync(name string, p *Proc, f func()) *Task {
	t := w.newTask(name, p)
	w.mix("go", uint64(t.ID))
	go w.body(t, f, false)
	return t
}

// GoAsync is GoIn for timer callbacks.
func GoAsync(p *Proc, name string, f func()) *Task { return W.spawnAsync(name, p, f) }

// MainProc is the process of the tool itself.
func MainProc() *Proc { return W.main }

func (w *World) alive(t *Task) bool { return !t.done && !t.Proc.Killed }

func (w *World) isReady(t *Task) bool {
	return w.alive(t) && (t.ready == nil || t.ready())
}

func (w *World) readyTasks(except *Task) []*Task {
	var out []*Task
	for _, t := range w.tasks {
		if t != except && w.isReady(t) {
			out = append(out, t)
		}
	}
	return out
}

func (w *World) planPreempt() {
	if w.replay != nil {
		if w.schedAt < len(w.sched) {
			w.nextPre = w.sched[w.schedAt].I
		} else {
			w.nextPre = int(^uint(0) >> 1)
		}
		return
	}
	if w.cfg.PreemptMean <= 0 {
		w.nextPre = int(^uint(0) >> 1)
		return
	}
	w.nextPre = w.steps + 1 + w.rng("sched").intn(2*w.cfg.PreemptMean)
}

// Y is a scheduling point.
func Y() {
	w := W
	if w == nil {
		return
	}
	w.steps++
	if w.steps >= w.nextPre {
		w.preempt()
	}
}

func (w *World) checkSteps() {
	if w.steps > w.cfg.MaxSteps {
		w.fail("progress", fmt.Sprintf("no end after %d steps; tasks: %s", w.steps, w.describe()))
	}
}

const warp = -1

// Decisions stallBase, stallBase-1, ... keep the running task off the CPU for
// 1 ms, 2 ms, 4 ms ... of simulated time while everything else goes on.
const (
	stallBase  = -2
	stallKinds = 12
	maxStalls  = 8
)

func (w *World) stall(t *Task, v int) {
	d := time.Millisecond << (stallBase - v)
	w.stalls++
	w.Faults["task_stall"]++
	w.rec = append(w.rec, Decision{"sched", w.steps, v, fmt.Sprintf("%s gets no CPU for %v", t.Name, d)})
	done := false
	w.At(w.now+d, func() { done = true })
	for !done {
		t.ready, t.why = func() bool { return done }, "stalled"
		n := w.pick(t)
		if n == nil {
			w.fail("deadlock", "nothing can run any more; "+w.describe())
		}
		if n != t {
			w.transfer(t, n)
		}
		t.ready = nil
	}
}

func (w *World) preempt() {
	if w.atomicDepth > 0 || w.Quiet {
		if w.replay == nil {
			w.planPreempt()
		} else if w.schedAt < len(w.sched) && w.sched[w.schedAt].I <= w.steps {
			w.schedAt++
			w.planPreempt()
		}
		return
	}
	w.checkSteps()
	t := w.cur
	if w.replay != nil {
		for w.schedAt < len(w.sched) && w.sched[w.schedAt].I < w.steps {
			w.schedAt++
		}
		if w.schedAt < len(w.sched) && w.sched[w.schedAt].I == w.steps {
			d := w.sched[w.schedAt]
			w.schedAt++
			w.planPreempt()
			w.apply(t, d.V)
			return
		}
		w.planPreempt()
		return
	}
	w.planPreempt()
	if w.cfg.WarpPct > 0 && !w.Steady && len(w.timers) > 0 && w.rng("warp").intn(100) < w.cfg.WarpPct {
		w.apply(t, warp)
		return
	}
	if w.cfg.StallPct > 0 && !w.Steady && w.stalls < maxStalls && w.rng("stall").intn(100) < w.cfg.StallPct {
		w.apply(t, stallBase-w.rng("stall").intn(stallKinds))
		return
	}
	rs := w.readyTasks(t)
	if len(rs) == 0 {
		return
	}
	w.apply(t, rs[w.rng("pick").intn(len(rs))].ID)
}

func (w *World) apply(t *Task, v int) {
	if v == warp {
		if w.fireNext() {
			w.Faults["clock_warp"]++
			w.rec = append(w.rec, Decision{"sched", w.steps, warp, "let the clock run to the next timer"})
		}
		return
	}
	if v <= stallBase && v > stallBase-stallKinds {
		w.stall(t, v)
		return
	}
	if v < 0 || v >= len(w.tasks) {
		return
	}
	n := w.tasks[v]
	if n == t || !w.isReady(n) {
		return
	}
	w.rec = append(w.rec, Decision{"sched", w.steps, v, "switch to " + n.Name})
	w.transfer(t, n)
}

// transfer hands the token to n and waits until it comes back.
func (w *World) transfer(t, n *Task) {
	w.switchTo(n)
	<-t.wake
	if W != w || w.over {
		select {}
	}
}

func (w *World) switchTo(n *Task) {
	w.switches++
	w.mix("sw", uint64(n.ID))
	w.cur = n
	if n.Proc != w.active {
		for i, ps := range procStates {
			if w.active.state == nil {
				w.active.state = make([]any, len(procStates))
			}
			w.active.state[i] = ps.save()
			if n.Proc.state != nil {
				ps.restore(n.Proc.state[i].([]any))
			}
		}
		w.active = n.Proc
	}
	n.wake <- struct{}{}
}

// pick chooses who runs when the current task cannot.
func (w *World) pick(t *Task) *Task {
	for {
		w.steps++
		w.checkSteps()
		rs := w.readyTasks(nil)
		if len(rs) == 0 {
			if w.fireNext() {
				continue
			}
			return nil
		}
		n := rs[0]
		if w.Quiet {
			if w.replay != nil {
				w.planPreempt()
			}
		} else if w.replay != nil {
			for w.schedAt < len(w.sched) && w.sched[w.schedAt].I < w.steps {
				w.schedAt++
			}
			if w.schedAt < len(w.sched) && w.sched[w.schedAt].I == w.steps {
				v := w.sched[w.schedAt].V
				w.schedAt++
				if v >= 0 && v < len(w.tasks) && w.isReady(w.tasks[v]) {
					n = w.tasks[v]
				}
			}
			w.planPreempt()
		} else if len(rs) > 1 {
			n = rs[w.rng("pick").intn(len(rs))]
		}
		if n != rs[0] {
			w.rec = append(w.rec, Decision{"sched", w.steps, n.ID, "run " + n.Name})
		}
		return n
	}
}

// Block waits until ready() holds.
func Block(why string, ready func() bool) {
	w := W
	if w == nil {
		if ready() {
			return
		}
		panic("vsim: blocking outside of a run: " + why)
	}
	Y()
	t := w.cur
	for !ready() {
		if w.atomicDepth > 0 {
			w.fail("internal", "blocking inside an atomic section: "+why)
		}
		t.ready, t.why = ready, why
		n := w.pick(t)
		if n == nil {
			w.fail("deadlock", "nothing can run any more; "+w.describe())
		}
		if n != t {
			w.transfer(t, n)
		}
		t.ready = nil
	}
	w.mix(why, uint64(t.ID))
}

func (w *World) leave(t *Task) {
	n := w.pick(t)
	if n == nil {
		w.fail("deadlock", "nothing can run any more; "+w.describe())
	}
	w.switchTo(n)
}

func (w *World) describe() string {
	var b strings.Builder
	for _, t := range w.tasks {
		if t.done {
			continue
		}
		st := t.why
		if t.ready == nil {
			st = "running"
		}
		if t.Proc.Killed {
			continue
		}
		fmt.Fprintf(&b, "[%d %s: %s] ", t.ID, t.Name, st)
	}
	return b.String()
}

func (w *World) mix(op string, id uint64) {
	h := w.ilv
	for i := 0; i < len(op); i++ {
		h = (h ^ uint64(op[i])) * 1099511628211
	}
	h = (h ^ id) * 1099511628211
	w.ilv = h
}

// Op marks a synchronisation operation in the interleaving hash.
func Op(name string) {
	if w := W; w != nil {
		w.mix(name, uint64(w.cur.ID))
		Y()
	}
}

// Drain lets every other task run until none can without the clock advancing
// by more than limit.
func Drain(limit time.Duration) {
	w := W
	end := w.now + limit
	t := w.cur
	for {
		rs := w.readyTasks(t)
		if len(rs) == 0 {
			nt := w.nextTimer()
			if nt == nil || nt.when > end {
				return
			}
			w.fireNext()
			continue
		}
		done := false
		t.ready, t.why = func() bool { return done }, "drain"
		n := w.pick(t)
		if n == nil {
			t.ready = nil
			return
		}
		done = true // come back at the next opportunity
		w.transfer(t, n)
		t.ready = nil
	}
}

// Kill stops every task of p for good.
func Kill(p *Proc) {
	w := W
	p.Killed = true
	Logf("kill %s", p.Name)
	if w.cur.Proc == p {
		w.leave(w.cur)
		select {}
	}
}

func NewProc(name string, env []string, consts map[string]int) *Proc {
	w := W
	p := &Proc{ID: len(w.procs), Name: name, Env: env}
	w.procs = append(w.procs, p)
	// boot the process's package state
	t := w.cur
	old := t.Proc
	w.atomicDepth++
	saved := make([]any, len(procStates))
	for i, ps := range procStates {
		saved[i] = ps.save()
	}
	t.Proc = p
	p.state = make([]any, len(procStates))
	for i, ps := range procStates {
		ps.boot(consts)
		p.state[i] = ps.save()
	}
	t.Proc = old
	for i, ps := range procStates {
		ps.restore(saved[i].([]any))
	}
	w.atomicDepth--
	return p
}

type procState struct {
	save    func() []any
	restore func([]any)
	boot    func(map[string]int)
}

var procStates []procState

func RegisterProcState(save func() []any, restore func([]any), boot func(map[string]int)) {
	procStates = append(procStates, procState{save, restore, boot})
}

func Assign[T any](p *T, v any) {
	x, _ := v.(T)
	*p = x
}

func Cur() *Task {
	if W == nil {
		return nil
	}
	return W.cur
}
func CurProc() *Proc {
	if W == nil {
		return nil
	}
	return W.cur.Proc
}
func (w *World) NumCPU() int  { return w.cfg.NumCPU }
func (w *World) Root() string { return w.cfg.Root }
func (w *World) Steps() int   { return w.steps }
func (w *World) NextFile() int {
	w.fileSeq++
	return w.fileSeq
}

// Atomic runs f without scheduling points.
func Atomic(f func()) {
	if W == nil {
		f()
		return
	}
	W.atomicDepth++
	defer func() { W.atomicDepth-- }()
	f()
}

// ---- time ----

var Epoch = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

func (w *World) Now() time.Duration { return w.now }

func Now() time.Duration {
	if W == nil {
		return 0
	}
	return W.now
}

func (w *World) At(d time.Duration, fn func()) *timer {
	w.tseq++
	t := &timer{when: d, seq: w.tseq, fn: fn}
	w.timers = append(w.timers, t)
	return t
}

// After schedules fn to run (in the scheduler, it must not block).
func After(d time.Duration, fn func()) (stop func() bool) {
	w := W
	if d < 0 {
		d = 0
	}
	t := w.At(w.now+d, fn)
	return func() bool {
		if t.dead {
			return false
		}
		t.dead = true
		return true
	}
}

func (w *World) nextTimer() *timer {
	var best *timer
	k := 0
	for _, t := range w.timers {
		if t.dead {
			continue
		}
		w.timers[k] = t
		k++
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	w.timers = w.timers[:k]
	return best
}

func (w *World) fireNext() bool {
	t := w.nextTimer()
	if t == nil {
		return false
	}
	if t.when > w.now {
		w.now = t.when
	}
	t.dead = true
	t.fn()
	return true
}

func Sleep(d time.Duration) {
	w := W
	if w == nil {
		return
	}
	if d <= 0 {
		Y()
		return
	}
	done := false
	w.At(w.now+d, func() { done = true })
	Block("sleep", func() bool { return done })
}

// Advance moves the clock without letting anyone run.
func Advance(d time.Duration) {
	if W != nil && d > 0 {
		W.now += d
	}
}
