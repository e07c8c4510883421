package main

import (
	"errors"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vnet"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Whole analyses in which something goes wrong: commands, disk, storage,
// network, test processes, ports, extension hooks.

func init() {
	register(&Scenario{Name: "analysis-faults", Props: []string{"C02", "C04", "C06", "C10", "C16"}, Quick: 1500, Steps: 40_000_000, Preempt: []int{6, 30, 200, 1500, 0}, Run: analysisFaults})
	register(&Scenario{Name: "analysis-ext", Props: []string{"C06", "C07", "C10", "C16"}, Quick: 500, Steps: 20_000_000, Preempt: []int{6, 30, 200, 1500, 0}, Run: analysisExt})
}

var errExt = errors.New("simulated extension failure")

// extend gives the analysis extension hooks that monitor what callers hand to
// the module, and with mods also what the module returns.
func (a *ana) extend(pre, post, mods bool, failAt int) {
	x := a.x
	hook := func(phase int) func(*lens.ASTModifier) (map[uint32]*string, error) {
		return func(m *lens.ASTModifier) (map[uint32]*string, error) {
			a.extCalls[phase]++
			out := map[uint32]*string{}
			a.ext[phase] = out
			for i, c := range a.p.callers {
				if i%2 == phase && len(a.p.callers) > 2 {
					continue
				}
				ids, err := m.InjectFuncPointBeforeCall(&c.Function, func(call *ast.CallExpr) (any, bool) {
					sel, ok := call.Fun.(*ast.SelectorExpr)
					if !ok {
						return nil, false
					}
					id, ok := sel.X.(*ast.Ident)
					return sel.Sel.Name, ok && (id.Name == "mod" || id.Name == modAlias)
				})
				if err != nil {
					return nil, err
				}
				for id, name := range ids {
					key := fmt.Sprintf("ext:%v", name)
					out[id] = &key
				}
			}
			if failAt == phase {
				vsim.CountFault("extension_hook")
				return nil, errExt
			}
			if mods {
				dir := filepath.Join(a.p.modcache, modName+"@"+[]string{modOld, modNew}[phase])
				if err := m.InjectASTClient(dir, 0, a.maxRecurse, a.maxLen); err != nil {
					return nil, err
				}
				file := filepath.Join(dir, "m0.go")
				fn := describeNow(file, modName, "M0")
				ids, err := m.InjectFuncPointReturnStates(fn)
				if err != nil {
					return nil, err
				}
				for _, id := range ids {
					key := "ext:returns"
					out[id] = &key
				}
			}
			return out, nil
		}
	}
	if pre {
		a.preExt = hook(0)
	}
	if post {
		a.postExt = hook(1)
	}
	_ = x
}

// describeNow describes a function of a file that may be instrumented already.
func describeNow(file, pkgPath, name string) *lens.Function {
	f := describe(file, pkgPath, name)
	return &f
}

func analysisExt(x *X) {
	o := progOpts{unstable: x.Pct(50), panics: x.Pct(20), goroutine: x.Pct(30), shared: x.Pct(20), failing: x.Pct(20), subModule: x.Pct(20), maxTests: 3}
	a := newAna(x, o)
	k := x.N(3)
	a.extend(k != 1, k != 0, x.Pct(40), -1)
	a.e.net.Latency = time.Duration(x.N(4)) * time.Millisecond
	a.run()
	settle(2 * time.Minute)
	for _, p := range []string{"C07", "C10", "C16"} {
		x.Check(p, a.err == nil, "error", "analysis of a valid project with extensions failed: %v", a.err)
	}
	a.restored("C06")
	if a.err != nil {
		return
	}
	for _, r := range a.e.runs {
		x.Check("C07", !strings.HasPrefix(r.crashed, "build:"), "build", "instrumented sources do not build: %s", r.crashed)
	}
	n := 0
	for _, r := range a.e.runs {
		for _, s := range r.sents {
			if a.ext[r.phase][s.id] != nil {
				n++
			}
		}
	}
	if n > 0 {
		vsim.Probe("extension.frames")
	}
	a.checkClean()
}

func analysisFaults(x *X) {
	o := progOpts{unstable: x.Pct(30), panics: x.Pct(30), goroutine: x.Pct(40), leak: x.Pct(30), failing: x.Pct(20), subModule: x.Pct(30), maxTests: 4}
	a := newAna(x, o)
	a.faulty = true
	e := a.e
	e.net.Latency = time.Duration(x.N(4)) * time.Millisecond
	var kinds []string
	late := x.Pct(12) // nothing but messages delivered after their sender has given up and sent others
	if late {
		kinds = append(kinds, "late")
		e.net.Stall, e.net.StallFor = 100, time.Duration(10500+x.N(6000))*time.Millisecond
	}
	add := func(k string, p int) bool {
		if !late && x.Pct(p) {
			kinds = append(kinds, k)
			return true
		}
		return false
	}
	if add("commands", 30) {
		e.cf.rate, e.cf.max = []int{60, 250, 600}[x.N(3)], 1+x.N(2)
	}
	if add("kills", 25) {
		e.cf.testKill = 300
	}
	if add("storage", 40) {
		a.st.rate, a.st.max = []int{60, 200, 500}[x.N(3)], 1+x.N(2)
	}
	if add("network", 30) {
		e.net.Lose, e.net.LoseResp, e.net.Cut = 20, 20, 20
		e.net.Stall, e.net.StallFor = 10, time.Duration(1+x.N(40))*time.Second
	}
	failAt := -1
	if add("extension", 30) {
		failAt = x.N(4) - 2
		k := x.N(3)
		a.extend(k != 1, k != 0, x.Pct(40), failAt)
	}
	occupied := false
	if add("port", 8) {
		occupied = true
		a.occupied = portBase + x.N(2)
		vnet.SimOccupy(a.occupied)
	}
	if !late && x.Pct(15) { // something of the user's that is in the way
		must(os.WriteFile(filepath.Join(a.p.root, "go.mod.bkp"), []byte("mine"), 0o644))
		must(os.WriteFile(a.p.callers[0].FilePath+".bkp", []byte("mine"), 0o644))
		a.before = a.snap()
	}
	disk := add("disk", 40)
	hard := disk && x.Pct(40)
	only := hard && x.Pct(60)
	renames := only && x.Pct(60)
	if disk {
		rate := []int{2, 10, 40, 200}[x.N(4)]
		if only {
			rate = []int{100, 250, 500}[x.N(3)]
		}
		x.fsFaults(rate, 1+x.N(2), func(op, path string) bool {
			if !strings.HasPrefix(path, "/proj") && !strings.HasPrefix(path, "/gopath") {
				return false
			}
			if !hard {
				return op != "rename" && op != "remove"
			}
			return !only || op == "rename" || op == "remove" && !renames
		})
	}
	x.Say("%v, %d callers, %d tests", kinds, len(a.p.callers), len(a.p.tests))
	a.run()
	x.noFaults()
	settle(5 * time.Minute)
	x.Say("returned %v; %d file faults %v, storage faults %v, commands %v", a.err, vsim.FSFaults(), vsim.W.FSFaulted, a.st.faults, e.broken)

	// C06
	impossible := false
	for _, op := range vsim.W.FSFaulted {
		if op == "rename" || op == "remove" {
			impossible = true
		}
	}
	if !impossible {
		a.restored("C06")
	} else {
		x.Check("C06", a.touchedAfter == "", "late", "the analysis still changed files after it had returned: %s", a.touchedAfter)
		ps := a.listening()
		x.Check("C06", len(ps) == 0, "server", "monitor servers still listen on %v after the analysis", ps)
		lost := a.lost()
		x.Check("C06", lost == "", "lost", "the original of %s is nowhere on disk after the analysis (faults: %v)", lost, vsim.W.FSFaulted)
		other := a.before.spared(a.snap(), func(k string) string {
			if r, ok := strings.CutPrefix(k, "GOPATH/"); ok {
				return "/gopath/" + r
			}
			return "/proj/" + k
		})
		x.Check("C06", other == "", "others", "files that no disk error concerns differ after the analysis (errors: %v on %v): %s", vsim.W.FSFaulted, vsim.W.FSPaths, other)
		vsim.Probe("restore.impossible")
	}
	x.Check("C04", e.clash == "", "clash", "%s", e.clash)

	// C16
	stored := 0
	for _, f := range a.st.faults {
		if strings.HasPrefix(f, "save") || strings.HasPrefix(f, "load") {
			stored++
		}
	}
	extFailed := failAt >= 0 && a.extCalls[failAt] > 0
	if stored > 0 {
		x.Check("C16", a.err != nil, "silent", "storage failed (%s) and the analysis reported success", a.st.faults[0])
		vsim.Probe("storage.fault.surfaced")
	}
	if extFailed {
		x.Check("C16", a.err != nil, "silent", "an extension hook failed and the analysis reported success")
		vsim.Probe("extension.fault.surfaced")
	}
	if !disk && !occupied && len(e.broken) == 0 && a.err != nil {
		x.Check("C16", stored > 0 || extFailed, "error", "the analysis failed although nothing that matters did: %v", a.err)
		if stored > 0 && !extFailed {
			x.Check("C16", errors.Is(a.err, errStore), "carries", "storage failed (%v), but the error does not carry it: %v", a.st.faults, a.err)
		}
		if extFailed && stored == 0 {
			x.Check("C16", errors.Is(a.err, errExt), "carries", "an extension hook failed, but the error does not carry it: %v", a.err)
		}
	}
	if a.err != nil {
		vsim.Probe("analysis.failed")
		return
	}
	vsim.Probe("analysis.survived")
	a.st.rate = 0
	a.checkClean()
	if !x.On("C16") {
		return
	}
	// comparing meets storage faults as well
	a.st.rate, a.st.max, a.st.faults = 150, 1, nil
	d := &lens.DefaultTestResultAnalyzer{}
	_, _, reports, err := d.CompareTestResults(a.pre, a.post, 4)
	if len(a.st.faults) > 0 {
		x.Check("C16", err != nil && errors.Is(err, errStore), "silent", "storage failed while comparing (%v), which returned %v", a.st.faults, err)
	} else {
		x.Check("C16", err == nil && len(reports) == len(a.p.tests), "compare", "comparing returned %d reports for %d tests and %v", len(reports), len(a.p.tests), err)
	}
}

// lost names a file of the project or its modules whose original bytes are
// neither in place nor beside it.
func (a *ana) lost() string {
	now := a.snap()
	for _, k := range keysOf(a.before) {
		v := a.before[k]
		if !strings.HasPrefix(v, "file:") || now[k] == v {
			continue
		}
		found := false
		for o, w := range now {
			if w == v && strings.HasPrefix(o, k) {
				found = true
			}
		}
		if !found {
			return k
		}
	}
	return ""
}

var _ = sort.Strings
