package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/build"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Job is one run.
type Job struct {
	Scenario string      `json:"scenario"`
	Prop     string      `json:"property"`
	Seed     uint64      `json:"seed"`
	Preempt  int         `json:"preempt_mean"`
	Warp     int         `json:"warp_pct"`
	Stall    int         `json:"stall_pct"`
	CPU      int         `json:"cpus"`
	Replay   *vsim.Trace `json:"trace,omitempty"`
	Record   bool        `json:"record,omitempty"`
}

type Reply struct {
	Violation *vsim.Violation `json:"violation,omitempty"`
	Steps     int             `json:"steps"`
	Tasks     int             `json:"tasks"`
	Switches  int             `json:"switches"`
	SimTime   time.Duration   `json:"sim_ns"`
	Faults    map[string]int  `json:"faults"`
	Probes    map[string]int  `json:"probes"`
	Hash      uint64          `json:"hash"`
	Trace     *vsim.Trace     `json:"trace,omitempty"`
	Events    []string        `json:"events,omitempty"`
	Sample    []string        `json:"sample,omitempty"`
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Before    []Job          `json:"before,omitempty"` // runs the same process made first
	Job       Job            `json:"job"`
	Violation vsim.Violation `json:"violation"`
	Original  int            `json:"decisions_before_minimising"`
	Events    []string       `json:"events"`
	Note      string         `json:"note"`
}

func makeJob(s *Scenario, prop string, seed uint64) Job {
	r := vsim.NewRand(seed, "knobs/"+s.Name)
	return Job{Scenario: s.Name, Prop: prop, Seed: seed, Preempt: s.Preempt[r.Intn(len(s.Preempt))],
		Warp: s.Warp[r.Intn(len(s.Warp))], CPU: s.CPUs[r.Intn(len(s.CPUs))], Stall: s.Stall[r.Intn(len(s.Stall))]}
}

func runJob(j Job, root string) (rep Reply) {
	s := scenario(j.Scenario)
	if s == nil {
		rep.Violation = &vsim.Violation{Kind: "internal", Msg: "no scenario " + j.Scenario}
		return
	}
	clean(root)
	must(os.MkdirAll(filepath.Join(root, "tmp"), 0o755))
	x := &X{prop: j.Prop, root: root, seed: j.Seed}
	steps := s.Steps
	if steps == 0 {
		steps = 4_000_000
	}
	build.Default.OpenFile = nil // left by an earlier run
	res := vsim.Run(vsim.Config{Seed: j.Seed, Replay: j.Replay, PreemptMean: j.Preempt, WarpPct: j.Warp, StallPct: j.Stall, NumCPU: j.CPU,
		MaxSteps: steps, Root: root, Record: j.Record}, func() { s.Run(x) })
	rep = Reply{Violation: res.Violation, Steps: res.Steps, Tasks: res.Tasks, Switches: res.Switches, SimTime: res.SimTime, Faults: res.Faults,
		Probes: res.Probes, Hash: res.Hash, Events: res.Events, Sample: x.sample}
	t := res.Trace
	rep.Trace = &t
	// nothing that is compared between runs may depend on where the scratch directory was
	hide := func(s string) string { return strings.ReplaceAll(s, root, "$ROOT") }
	if rep.Violation != nil {
		rep.Violation.Msg = hide(rep.Violation.Msg)
	}
	for i := range rep.Events {
		rep.Events[i] = hide(rep.Events[i])
	}
	for i := range t.Decisions {
		t.Decisions[i].N = hide(t.Decisions[i].N)
	}
	clean(root)
	return
}

// clean removes the scratch directory, whatever modes the run left behind.
func clean(root string) {
	if !strings.Contains(root, "verifsim-") {
		panic("refusing to remove " + root)
	}
	if err := os.RemoveAll(root); err != nil {
		_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(root)
	}
}

func worker(root string) {
	out := os.NewFile(3, "replies")
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			break
		}
		var j Job
		if err := json.Unmarshal(line, &j); err != nil {
			panic(err)
		}
		rep := runJob(j, root)
		if rep.Violation == nil && !j.Record {
			rep.Trace = nil
		}
		b, _ := json.Marshal(rep)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if runtime.NumGoroutine() > 20000 {
			break
		}
	}
	clean(root)
}

// ---- controller ----

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	root string
	err  *tail
	hist []Job
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = t.b[len(t.b)-1<<15:]
	}
	return len(p), nil
}

var (
	scratch string
	procSeq int
	procMu  sync.Mutex
)

func start() (*proc, error) {
	procMu.Lock()
	procSeq++
	n := procSeq
	procMu.Unlock()
	root := filepath.Join(scratch, fmt.Sprintf("verifsim-w%06d", n))
	cmd := exec.Command("/proc/self/exe", "-worker", root)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), root: root, err: &tail{}}
	cmd.Stderr = p.err
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return p, nil
}

func (p *proc) stop() {
	p.in.Close()
	done := make(chan struct{})
	go func() { p.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		p.cmd.Process.Kill()
		<-done
	}
	clean(p.root)
}

type died struct{ msg string }

func (d died) Error() string { return d.msg }

func (p *proc) run(j Job, limit time.Duration) (Reply, error) {
	b, _ := json.Marshal(j)
	var rep Reply
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return rep, died{"worker is gone: " + err.Error()}
	}
	t := time.AfterFunc(limit, func() { p.cmd.Process.Kill() })
	line, err := p.out.ReadBytes('\n')
	if !t.Stop() && err != nil {
		return rep, died{fmt.Sprintf("run of %s seed %d exceeded %v of real time", j.Scenario, j.Seed, limit)}
	}
	if err != nil {
		time.Sleep(50 * time.Millisecond)
		p.err.mu.Lock()
		defer p.err.mu.Unlock()
		e := p.err.b
		if len(e) > 3000 {
			e = append(append([]byte{}, e[:2000]...), e[len(e)-1000:]...)
		}
		return rep, died{"worker died: " + err.Error() + "\n" + string(e)}
	}
	err = json.Unmarshal(line, &rep)
	p.hist = append(p.hist, j)
	return rep, err
}

// runner hands jobs to a worker, replacing it when it retires.
type runner struct{ p *proc }

func (r *runner) run(j Job) (Reply, error) {
	for try := 0; ; try++ {
		if r.p == nil {
			p, err := start()
			if err != nil {
				return Reply{}, err
			}
			r.p = p
		}
		rep, err := r.p.run(j, 90*time.Second)
		if err == nil {
			return rep, nil
		}
		r.p.stop()
		r.p = nil
		if d, ok := err.(died); ok && try > 0 {
			// twice, the second time in a fresh process: the code under test did it
			rep.Violation = &vsim.Violation{Kind: "process died", Msg: d.msg}
			return rep, nil
		}
		if try > 0 {
			return rep, err
		}
	}
}
func (r *runner) close() {
	if r.p != nil {
		r.p.stop()
		r.p = nil
	}
}

type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Scenario string `json:"scenario"`
	Match    string `json:"match"` // regular expression on "kind: message"
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type stats struct {
	runs, steps, tasks, switches int
	sim                          time.Duration
	faults, probes               map[string]int
	hashes                       map[uint64]bool
	nontrivial                   map[uint64]bool
	perScenario                  map[string]int
	samples                      []any
}

var firstRun int

func signature(v *vsim.Violation) string { return v.Kind + ": " + v.Msg }

func main() {
	var (
		prop     = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "base seed")
		isWorker = flag.String("worker", "", "internal")
		replay   = flag.String("replay", "", "replay file")
		evidence = flag.String("evidence", "", "evidence file")
		replays  = flag.String("replays", ".", "directory for replay files")
		known    = flag.String("known", "", "known findings file")
		only     = flag.String("scenario", "", "only this scenario")
		runs     = flag.Int("runs", 0, "seeds per scenario")
		workers  = flag.Int("workers", 0, "worker processes")
		budget   = flag.Duration("budget", 0, "wall-clock limit")
		list     = flag.Bool("list", false, "list scenarios")
		det      = flag.Int("determinism", 0, "run so many seeds twice and compare the event logs")
		verbose  = flag.Bool("v", false, "verbose")
		first    = flag.Int("first", 0, "skip so many seeds (development)")
		keep     = flag.Bool("keepgoing", false, "report every violation class (development)")
	)
	flag.Parse()
	firstRun = *first
	if *isWorker != "" {
		worker(*isWorker)
		return
	}
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() || os.WriteFile(base+"/.verifprobe", nil, 0o600) != nil {
		base = os.TempDir()
	} else {
		os.Remove(base + "/.verifprobe")
	}
	var err error
	// names of one length: lengths of paths must not differ between workers or runs
	for i := 0; ; i++ {
		scratch = filepath.Join(base, fmt.Sprintf("verifsim-%08x%04x", os.Getpid(), i))
		if err = os.Mkdir(scratch, 0o700); err == nil {
			break
		}
		if i > 1000 {
			panic(err)
		}
	}
	code := 0
	func() {
		defer os.RemoveAll(scratch)
		switch {
		case *list:
			for _, s := range scenarios {
				fmt.Println(s.Name, s.Props, s.Quick, s.Known)
			}
		case *replay != "":
			code = doReplay(*replay, *verbose)
		case *det > 0:
			code = determinism(*prop, *only, *seed, *det, *workers)
		default:
			code = check(*prop, *tier, *seed, *evidence, *replays, *known, *only, *runs, *workers, *budget, *verbose, *keep)
		}
	}()
	os.Exit(code)
}

func doReplay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	must(err)
	var rf ReplayFile
	must(json.Unmarshal(b, &rf))
	rf.Job.Record = true
	var r runner
	defer r.close()
	for _, b := range rf.Before {
		if _, err := r.run(b); err != nil {
			fmt.Println("replay failed:", err)
			return 2
		}
	}
	rep, err := r.run(rf.Job)
	if err != nil {
		fmt.Println("replay failed:", err)
		return 2
	}
	if verbose {
		for _, e := range rep.Events {
			fmt.Println(e)
		}
	}
	if rep.Violation == nil {
		fmt.Println("no violation on replay")
		return 0
	}
	fmt.Printf("%s\n", signature(rep.Violation))
	if signature(rep.Violation) != signature(&rf.Violation) {
		fmt.Println("(differs from the recorded violation)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Job.Prop, file)
	return 1
}

func propScenarios(prop, only string) []*Scenario {
	var out []*Scenario
	for _, s := range scenarios {
		if only != "" && s.Name != only {
			continue
		}
		for _, p := range s.Props {
			if p == prop || prop == "" {
				out = append(out, s)
				break
			}
		}
	}
	return out
}

func nworkers(n int) int {
	if n > 0 {
		return n
	}
	n = runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func determinism(prop, only string, seed uint64, n, workers int) int {
	bad := 0
	for _, s := range propScenarios(prop, only) {
		if s.Known != "" {
			continue
		}
		p := prop
		if p == "" {
			p = s.Props[0]
		}
		var mu sync.Mutex
		first := make([]Reply, n)
		for pass := 0; pass < 2; pass++ {
			w := nworkers(workers)
			if pass == 1 {
				w = w/2 + 1
			}
			next := 0
			var wg sync.WaitGroup
			for i := 0; i < w; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var r runner
					defer r.close()
					for {
						mu.Lock()
						k := next
						next++
						mu.Unlock()
						if k >= n {
							return
						}
						idx := k
						if pass == 1 {
							idx = n - 1 - k // other company, other order
						}
						j := makeJob(s, p, seed*1_000_003+uint64(idx))
						j.Record = true
						rep, err := r.run(j)
						if err != nil {
							fmt.Println("error:", err)
							mu.Lock()
							bad++
							mu.Unlock()
							return
						}
						if pass == 0 {
							first[idx] = rep
							continue
						}
						a, b := first[idx], rep
						if a.Hash != b.Hash || a.Steps != b.Steps || len(a.Events) != len(b.Events) {
							mu.Lock()
							bad++
							mu.Unlock()
							for i := range a.Events {
								if i >= len(b.Events) || a.Events[i] != b.Events[i] {
									other := "<end>"
									if i < len(b.Events) {
										other = b.Events[i]
									}
									fmt.Printf("%s seed %d differs at event %d:\n  %s\n  %s\n", s.Name, j.Seed, i, a.Events[i], other)
									break
								}
							}
							fmt.Printf("%s seed %d: steps %d/%d hash %x/%x events %d/%d\n", s.Name, j.Seed, a.Steps, b.Steps, a.Hash, b.Hash, len(a.Events), len(b.Events))
						} else {
							for i := range a.Events {
								if a.Events[i] != b.Events[i] {
									mu.Lock()
									bad++
									mu.Unlock()
									fmt.Printf("%s seed %d differs at event %d:\n  %s\n  %s\n", s.Name, j.Seed, i, a.Events[i], b.Events[i])
									break
								}
							}
						}
					}
				}()
			}
			wg.Wait()
		}
		fmt.Printf("%s: %d seeds run twice, %d differences so far\n", s.Name, n, bad)
	}
	if bad > 0 {
		return 2
	}
	return 0
}

func check(prop, tier string, seed uint64, evidence, replays, knownFile, only string, runs, workers int, budget time.Duration, verbose, keep bool) int {
	t0 := time.Now()
	scs := propScenarios(prop, only)
	if len(scs) == 0 {
		fmt.Println("no scenario for", prop)
		return 2
	}
	if budget == 0 {
		budget = 240 * time.Second
		if tier == "thorough" {
			budget = 780 * time.Second
		}
	}
	deadline := t0.Add(budget)
	var findings []Finding
	if knownFile != "" {
		b, err := os.ReadFile(knownFile)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		if err := json.Unmarshal(b, &findings); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	st := stats{faults: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]bool{}, nontrivial: map[uint64]bool{}, perScenario: map[string]int{}}

	// queue: interleave the scenarios so that a short budget still covers all
	type item struct {
		s *Scenario
		k int
	}
	var queue []item
	counts := map[string]int{}
	for _, s := range scs {
		n := s.Quick
		if runs > 0 {
			n = runs
		} else if tier == "thorough" {
			n *= 40
		}
		if s.Known != "" {
			n = 1
		}
		counts[s.Name] = n
		for k := 0; k < n; k++ {
			queue = append(queue, item{s, k})
		}
	}
	sort.SliceStable(queue, func(i, j int) bool {
		a, b := queue[i], queue[j]
		return float64(a.k)/float64(counts[a.s.Name]) < float64(b.k)/float64(counts[b.s.Name])
	})

	var mu sync.Mutex
	next := 0
	var stop bool
	var bad *Job
	var badReply Reply
	var badHist []Job
	var trouble error
	timedOut := false
	knownHit := map[string]string{}
	classes := map[string]int{}
	var wg sync.WaitGroup
	for i := 0; i < nworkers(workers); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var r runner
			defer r.close()
			for {
				mu.Lock()
				if !stop && time.Now().After(deadline) {
					timedOut, stop = true, true
				}
				if stop || next >= len(queue) {
					mu.Unlock()
					return
				}
				it := queue[next]
				next++
				mu.Unlock()
				j := makeJob(it.s, prop, seed*1_000_003+uint64(it.k+firstRun))
				rep, err := r.run(j)
				mu.Lock()
				if err != nil {
					if trouble == nil {
						trouble = err
					}
					stop = true
					mu.Unlock()
					return
				}
				st.runs++
				st.steps += rep.Steps
				st.tasks += rep.Tasks
				st.switches += rep.Switches
				st.sim += rep.SimTime
				st.perScenario[it.s.Name]++
				nf := 0
				for k, v := range rep.Faults {
					st.faults[k] += v
					nf += v
				}
				for k, v := range rep.Probes {
					st.probes[k] += v
				}
				h := rep.Hash ^ hashString(it.s.Name)
				st.hashes[h] = true
				if rep.Switches > 2 || nf > 0 {
					st.nontrivial[h] = true
				}
				if len(st.samples) < 6 && it.k%7 == 1 && len(rep.Sample) > 0 {
					st.samples = append(st.samples, map[string]any{"scenario": it.s.Name, "seed": j.Seed, "preempt_mean": j.Preempt, "cpus": j.CPU,
						"steps": rep.Steps, "switches": rep.Switches, "faults": rep.Faults, "what": rep.Sample})
				}
				if v := rep.Violation; v != nil {
					id := ""
					for _, f := range findings {
						if f.Status == "known" && f.Property == prop && f.Scenario == it.s.Name && regexp.MustCompile(f.Match).MatchString(signature(v)) {
							id = f.ID
							knownHit[f.ID] = f.What
						}
					}
					if id == "" {
						if v.Kind == "internal" {
							trouble = fmt.Errorf("%s seed %d: %s", it.s.Name, j.Seed, signature(v))
							stop = true
						} else if keep {
							c := it.s.Name + " " + firstLine(signature(v))
							classes[class(c)]++
							if classes[class(c)] == 1 {
								fmt.Printf("[%s seed %d] %s\n", it.s.Name, j.Seed, clipMid(signature(v), 1500))
							}
						} else if bad == nil || it.k < 0 {
							jj := j
							bad, badReply, badHist = &jj, rep, nil
							if r.p != nil && len(r.p.hist) > 0 {
								badHist = slices.Clone(r.p.hist[:len(r.p.hist)-1])
							}
							stop = true
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if keep {
		for c, n := range classes {
			fmt.Printf("%6d  %s\n", n, c)
		}
	}
	if trouble != nil {
		fmt.Println("ERROR:", trouble)
		return 2
	}
	wall := time.Since(t0)
	code := 0
	viol := 0
	if bad != nil {
		viol = 1
		code = 1
		path := filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", prop, bad.Scenario, bad.Seed))
		rf, err := minimise(*bad, badReply, time.Now().Add(60*time.Second))
		if err != nil {
			rf, err = withHistory(*bad, badReply, badHist, err)
		}
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		os.MkdirAll(replays, 0o755)
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		fmt.Printf("%s\n", clipMid(signature(&rf.Violation), 3000))
		fmt.Printf("scenario %s, seed %d", bad.Scenario, bad.Seed)
		if rf.Job.Replay != nil {
			fmt.Printf("; %d decisions minimised to %d", rf.Original, len(rf.Job.Replay.Decisions))
			for _, d := range rf.Job.Replay.Decisions {
				fmt.Printf("\n  %s[%d]=%d %s", d.S, d.I, d.V, d.N)
			}
		}
		fmt.Println()
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	var ids []string
	for id := range knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, knownHit[id], id)
	}
	fmt.Printf("%s %s: %d runs, %d distinct interleavings, %d steps, simulated %v, %d faults, %.1fs%s\n", prop, tier, st.runs, len(st.hashes), st.steps,
		st.sim.Round(time.Millisecond), sum(st.faults), wall.Seconds(), map[bool]string{true: " (stopped at the time budget)"}[timedOut])
	if verbose {
		fmt.Println("faults", st.faults)
		fmt.Println("probes", st.probes)
		fmt.Println("scenarios", st.perScenario)
	}
	if evidence != "" {
		writeEvidence(evidence, prop, tier, seed, &st, wall, viol, timedOut, len(queue), ids)
	}
	return code
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var digits = regexp.MustCompile(`[0-9]+|"[^"]*"`)

func class(s string) string { return clipMid(digits.ReplaceAllString(s, "#"), 160) }

func clipMid(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n*2/3] + " ... " + s[len(s)-n/3:]
}

// minimise shrinks the trace of a failing run while the same kind of violation
// persists, and confirms it in a fresh process.
func minimise(j Job, rep Reply, deadline time.Time) (*ReplayFile, error) {
	if rep.Trace == nil { // the worker died: the seed is the replay
		return &ReplayFile{Job: j, Violation: *rep.Violation, Note: "the seed alone repeats this"}, nil
	}
	orig := len(rep.Trace.Decisions)
	var r runner
	defer r.close()
	kind := rep.Violation.Kind
	try := func(ds []vsim.Decision) (*Reply, error) {
		jj := j
		jj.Replay = &vsim.Trace{Seed: j.Seed, Decisions: ds}
		jj.Record = true
		rp, err := r.run(jj)
		if err != nil {
			return nil, err
		}
		if rp.Violation == nil || rp.Violation.Kind != kind {
			return nil, nil
		}
		return &rp, nil
	}
	best, err := try(rep.Trace.Decisions)
	if err != nil {
		return nil, err
	}
	if best == nil {
		return nil, fmt.Errorf("seed %d of %s does not replay (%s)", j.Seed, j.Scenario, signature(rep.Violation))
	}
	cur := best.Trace.Decisions
	// by stream first, then by chunks
	streams := map[string]bool{}
	for _, d := range cur {
		streams[d.S] = true
	}
	var names []string
	for s := range streams {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		var ds []vsim.Decision
		for _, d := range cur {
			if d.S != s {
				ds = append(ds, d)
			}
		}
		if len(ds) == len(cur) || time.Now().After(deadline) {
			continue
		}
		if rp, err := try(ds); err != nil {
			return nil, err
		} else if rp != nil {
			cur, best = rp.Trace.Decisions, rp
		}
	}
	for n := 2; len(cur) > 0 && time.Now().Before(deadline); {
		if n > len(cur) {
			n = len(cur)
		}
		size := (len(cur) + n - 1) / n
		shrunk := false
		for at := 0; at < len(cur) && time.Now().Before(deadline); at += size {
			end := min(at+size, len(cur))
			ds := append(append([]vsim.Decision(nil), cur[:at]...), cur[end:]...)
			rp, err := try(ds)
			if err != nil {
				return nil, err
			}
			if rp != nil && len(rp.Trace.Decisions) < len(cur) {
				cur, best = rp.Trace.Decisions, rp
				shrunk = true
				break
			}
		}
		if shrunk {
			n = max(2, n-1)
			continue
		}
		if size == 1 {
			break
		}
		n *= 2
	}
	// the file that is written must fail the same way in a fresh process
	r.close()
	fin, err := try(cur)
	if err != nil {
		return nil, err
	}
	if fin == nil || signature(fin.Violation) != signature(best.Violation) {
		return nil, fmt.Errorf("the minimised trace of seed %d of %s does not replay exactly", j.Seed, j.Scenario)
	}
	jj := j
	jj.Replay = &vsim.Trace{Seed: j.Seed, Decisions: cur}
	ev := fin.Events
	if len(ev) > 400 {
		ev = append([]string{fmt.Sprintf("(%d earlier events)", len(ev)-400)}, ev[len(ev)-400:]...)
	}
	return &ReplayFile{Job: jj, Violation: *fin.Violation, Original: orig, Events: ev,
		Note: "replay with: /verif/check.sh --replay <this file>"}, nil
}

// withHistory finds how many of the runs the worker made before are needed:
// code under test that keeps state in package variables fails only after them.
func withHistory(j Job, rep Reply, hist []Job, why error) (*ReplayFile, error) {
	if rep.Violation == nil || rep.Trace == nil {
		return nil, why
	}
	j.Record = true
	try := func(n int) *Reply {
		var r runner
		defer r.close()
		for _, h := range hist[len(hist)-n:] {
			if rp, err := r.run(h); err != nil || rp.Trace == nil && rp.Violation != nil && rp.Violation.Kind == "process died" {
				return nil
			}
		}
		rp, err := r.run(j)
		if err != nil || rp.Violation == nil || rp.Violation.Kind != rep.Violation.Kind {
			return nil
		}
		return &rp
	}
	for n := 0; ; n = max(1, 2*n) {
		n = min(n, len(hist))
		if a := try(n); a != nil {
			if b := try(n); b != nil && signature(a.Violation) == signature(b.Violation) {
				return &ReplayFile{Before: slices.Clone(hist[len(hist)-n:]), Job: j, Violation: *b.Violation, Original: len(rep.Trace.Decisions), Events: b.Events,
					Note: "fails only after the runs under before, made by the same process; replay with: /verif/check.sh --replay <this file>"}, nil
			}
		}
		if n == len(hist) {
			return nil, why
		}
	}
}

func writeEvidence(path, prop, tier string, seed uint64, st *stats, wall time.Duration, viol int, timedOut bool, planned int, known []string) {
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.runs) / wall.Hours()
	}
	comp := components[prop]
	cov := map[string]any{
		"evaluations":                  st.runs,
		"distinct_nontrivial":          len(st.nontrivial),
		"rule":                         "one case is one simulated run: workload, knobs, every scheduling choice, clock step and fault drawn from one seed; distinct means a different hash over the sequence of (task, synchronisation operation, switch) events; non-trivial means more than two task switches or at least one injected fault",
		"samples":                      st.samples,
		"runs_planned":                 planned,
		"stopped_at_time_budget":       timedOut,
		"runs_per_hour":                int(perHour),
		"seeds_per_hour":               int(perHour),
		"first_seed":                   seed * 1_000_003,
		"simulated_time_s":             st.sim.Seconds(),
		"steps":                        st.steps,
		"tasks":                        st.tasks,
		"task_switches":                st.switches,
		"distinct_interleavings":       len(st.hashes),
		"faults_injected":              st.faults,
		"probes":                       st.probes,
		"runs_per_scenario":            st.perScenario,
		"known_findings_reproduced":    known,
		"components_real":              comp.real,
		"components_stub":              comp.stub,
		"decisions_replay_is_exact_by": "every violation is minimised and confirmed in a fresh worker process before it is reported",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": comp.assume}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	_ = strconv.Itoa
}

type component struct{ real, stub, assume []string }

var components = map[string]component{}
