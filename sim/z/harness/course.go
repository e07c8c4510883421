package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// What the tests do must not depend on being monitored: every execution during
// an analysis is compared with one of the original sources.

func init() {
	components["C19"] = component{
		real:   components["C10"].real,
		stub:   components["C10"].stub,
		assume: []string{"programs under test drawn from the generator (branches, loops, labels, select, closures, recursion, defer and recover, named results, methods, goroutines); whether other Go constructs still compile is not decided here"},
	}
	register(&Scenario{Name: "course", Props: []string{"C19"}, Quick: 1500, Steps: 40_000_000, Preempt: []int{6, 30, 200, 1500, 0}, Run: courseScenario})
}

// course is what one execution of a test did.
type course struct {
	calls   []string
	spawned string // calls left to goroutines of their own
	failed  bool
	crashed string
}

func courseOf(r *testRun, ordered bool) course {
	c := course{failed: r.failed, crashed: r.crashed}
	for _, in := range r.invs {
		c.calls = append(c.calls, fmt.Sprintf("%s%s %s", in.fn.qual, in.args, in.outcome))
	}
	sort.Strings(r.spawned)
	c.spawned = strings.Join(r.spawned, " ")
	if !ordered {
		sort.Strings(c.calls)
	}
	return c
}

func (c course) diff(d course, crashed bool) string {
	if c.failed != d.failed || (c.crashed == "") != (d.crashed == "") {
		return fmt.Sprintf("failed %v (%q) instead of %v (%q)", d.failed, d.crashed, c.failed, c.crashed)
	}
	if crashed {
		return "" // how far the other goroutines got is a matter of timing
	}
	if c.crashed != d.crashed {
		return fmt.Sprintf("ended with %q instead of %q", d.crashed, c.crashed)
	}
	for i := 0; i < max(len(c.calls), len(d.calls)); i++ {
		g, w := "nothing", "nothing"
		if i < len(c.calls) {
			w = c.calls[i]
		}
		if i < len(d.calls) {
			g = d.calls[i]
		}
		if g != w {
			return fmt.Sprintf("call %d is %s instead of %s", i, g, w)
		}
	}
	if c.spawned != d.spawned {
		return fmt.Sprintf("goroutines ran %s instead of %s", d.spawned, c.spawned)
	}
	return ""
}

// original executes a test as it stands on disk, with one version of the module.
func (e *world) original(pkg, name, ver string) *testRun {
	run := &testRun{e: e, test: name, pkg: pkg}
	prog := &iprog{pkgs: map[string]*ipkg{}, run: run, consts: map[string]int{}, check: true}
	prog.resolve = func(ip string) (string, bool) {
		for i := 0; i < e.p.npkgs; i++ {
			if e.p.pkgPath(i) == ip {
				return e.p.pkgDir(i), true
			}
		}
		if ip == modName {
			return filepath.Join(e.p.modcache, modName+"@"+ver), true
		}
		return "", false
	}
	q, err := prog.load(pkg, true)
	must(err)
	child := vsim.NewProc("original "+name, nil, prog.consts)
	finished := false
	vsim.GoIn(child, "testmain", func() {
		defer func() { finished = true }()
		defer prog.top(run)
		vsim.Cur().Stack = []vsim.Frame{trunnerFrame, goexitFrame}
		tf := false
		defer func() { run.failed = run.failed || tf }()
		prog.callFunc(q.funcs[name], nil, nil, []any{tval{&tf}})
	})
	vsim.Block("original test", func() bool { return finished || run.dead })
	vsim.Kill(child)
	run.failed = run.failed || run.crashed != ""
	return run
}

func courseScenario(x *X) {
	o := progOpts{spawn: true, panics: x.Pct(50), goroutine: x.Pct(40), shared: x.Pct(20), failing: x.Pct(40), subModule: x.Pct(20), maxTests: 3}
	a := newAna(x, o)
	a.faulty = true
	e := a.e
	e.check = true
	e.net.Latency = time.Duration(x.N(4)) * time.Millisecond
	trouble := x.Pct(60)
	if trouble {
		e.net.Lose, e.net.LoseResp, e.net.Cut = x.N(3)*60, x.N(3)*60, x.N(3)*60
		if x.Pct(30) {
			e.net.Lose = 1000 // the server cannot be reached at all
		}
		if x.Pct(30) {
			e.net.Refuse = []int{30, 300, 1000}[x.N(3)]
		}
		if x.Pct(20) {
			e.net.GoneAfter = 1 + x.N(12)
		}
		e.net.Stall, e.net.StallFor = x.N(2)*20, time.Duration(1+x.N(12))*time.Second
		if x.Pct(25) { // the server hangs
			e.net.StallFor = time.Duration(15+x.N(80)) * time.Second
			e.net.Stall = x.N(2) * 30
			e.net.LateResp = x.N(2) * 30
			e.net.BodyStall = x.N(2) * 30
		}
		if x.Pct(25) {
			e.net.Stranger = []int{30, 200, 1000}[x.N(3)]
		}
		e.net.Fragments = x.Pct(30)
	}
	if x.Pct(30) {
		k := x.N(3)
		a.extend(k != 1, k != 0, x.Pct(40), -1)
	}
	want := map[string]course{}
	for _, t := range a.p.tests {
		for ph, ver := range []string{modOld, modNew} {
			want[fmt.Sprintf("%s.%s %d", t.PackageName, t.FunctionName, ph)] = courseOf(e.original(t.PackageName, t.FunctionName, ver), !o.goroutine)
		}
	}
	x.Say("%d callers, %d tests, network trouble %v", len(a.p.callers), len(a.p.tests), trouble)
	a.run()
	settle(2 * time.Minute)
	x.Check("C19", a.err == nil, "error", "analysis of a valid project failed: %v", a.err)
	if a.err != nil {
		return
	}
	n := 0
	for _, r := range e.runs {
		w := want[fmt.Sprintf("%s.%s %d", r.pkg, r.test, r.phase)]
		if strings.HasPrefix(r.crashed, "test timed out") {
			vsim.Probe("course.timeout")
			for _, s := range r.sents {
				x.Check("C19", s.returned || r.ended-s.at <= 21*time.Second || vsim.W.Faults["task_stall"] > 0, "held up", "%s was held up by a message until it ran out of time", r.test)
			}
			x.Check("C19", e.net.Stall+e.net.LoseResp+e.net.LateResp+e.net.BodyStall > 0, "slow", "%s did not end in time although its messages were delivered at once", r.test)
			continue
		}
		n++
		d := w.diff(courseOf(r, !o.goroutine), w.crashed != "" && o.goroutine)
		x.Check("C19", d == "", "course", "%s (%s the update): %s", r.test, []string{"before", "after"}[r.phase], d)
		for _, s := range r.sents {
			// a message and the one about its failure
			x.Check("C19", s.took <= 21*time.Second || vsim.W.Faults["task_stall"] > 0, "held up", "%s was held up by a message for %v", r.test, s.took)
			if s.wire == nil || s.wire.Code != 200 {
				vsim.Probe("course.message-lost")
			}
		}
	}
	if n > 0 {
		vsim.Probe("course.compared")
	}
}
