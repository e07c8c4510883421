package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Whole runs of the engine: real configuration, temporary copy, orchestration,
// monitored execution, comparison and report writing around stages that may
// fail, find nothing, or take long.

func init() {
	components["C08"] = component{
		real:   []string{"AnalysisEngine.Run, Config.Prepare, setupTempEnvironment, CopyDir, WriteChmod (lens/engine.go, file.go)", "in part of the runs the real update analysis with everything below it, comparison, report writer and storage provider"},
		stub:   []string{"module, caller and test discovery: stand-ins that return what the generator knows, or fail, or find nothing", "update analysis, mutation testing, comparison and report writer in the other runs", "os, clock, go command, database: the simulator (files are real, in a scratch directory)"},
		assume: []string{"a stage that returns an error has cleaned up after itself"},
	}
	register(&Scenario{Name: "engine", Props: []string{"C08", "C10"}, Quick: 6000, Steps: 20_000_000, Preempt: []int{6, 30, 200, 1500, 0}, Run: engineScenario})
}

var errStage = errors.New("simulated stage failure")

// at describes the same project in other directories.
func (p *project) at(root, gopath, modcache string) *project {
	move := func(f string) string {
		for _, m := range [][2]string{{p.root, root}, {p.modcache, modcache}, {p.gopath, gopath}} {
			if f == m[0] || strings.HasPrefix(f, m[0]+"/") {
				return m[1] + f[len(m[0]):]
			}
		}
		return f
	}
	q := *p
	q.root, q.gopath, q.modcache = root, gopath, modcache
	q.goModDirs = nil
	for _, d := range p.goModDirs {
		q.goModDirs = append(q.goModDirs, move(d))
	}
	q.modFns, q.modFnList, q.callers, q.tests = lens.ReachableModuleChange{}, nil, nil, nil
	for _, m := range p.modFnList {
		c := *m
		c.FilePath = move(c.FilePath)
		q.modFnList = append(q.modFnList, &c)
		q.modFns[c.FunctionIdent] = &c
	}
	for _, m := range p.callers {
		c := *m
		c.FilePath = move(c.FilePath)
		c.ChangeFunctions = q.modFnList
		q.callers = append(q.callers, &c)
	}
	for _, m := range p.tests {
		c := *m
		c.FilePath = move(c.FilePath)
		c.Targets = q.callers
		q.tests = append(q.tests, &c)
	}
	return &q
}

type eng struct {
	x      *X
	a      *ana
	cfg    *lens.Config
	failAt string
	empty  string
	dirs   [3]string // where the stages have to work
	orig   [3]string
	given  [3]string
	trees  [3]tree
	stages []string // in the order they were run
	done   map[string]bool
	failed map[string]bool
	clean  map[string]int
	ended  map[string]time.Duration
	began  time.Duration
	first  bool

	store     *engStore
	opened    lens.Storage
	changes   []*lens.ModuleChange
	byModule  map[string][]*lens.ModuleFunction
	modFns    []*lens.ModuleFunction
	callers   []*lens.CallerFunction
	reachable lens.ReachableModuleChange
	tests     []*lens.TestFunction
	update    [3]int
	views     [2]lens.Storage
	same, dif int
	reports   []lens.TestReport
	mut       lens.MutationResult
	realUpd   bool
	realRep   bool
	written   int
	onFirst   func()
	mention   bool
}

// engStore counts its uses.
type engStore struct {
	*simStore
	closed  int
	useLate string
}

func (s *engStore) late(op string) {
	if s.closed > 0 && s.useLate == "" {
		s.useLate = op
	}
}
func (s *engStore) Close() { s.closed++ }
func (s *engStore) SaveState(k string, b []byte) error {
	s.late("save")
	return s.simStore.SaveState(k, b)
}
func (s *engStore) LoadState(k string) ([]byte, bool, error) {
	s.late("load")
	return s.simStore.LoadState(k)
}
func (s *engStore) ListKeysPrefix(p string) ([]string, error) {
	s.late("list")
	return s.simStore.ListKeysPrefix(p)
}
func (s *engStore) ListKeys() ([]string, error) {
	s.late("list")
	return s.simStore.ListKeys()
}

// begin is called by every stage; it says whether the stage is to fail.
func (g *eng) begin(name string, c *lens.Config) error {
	x := g.x
	g.stages = append(g.stages, name)
	if c != nil {
		got := [3]string{c.AbsProjDir, c.Gopath, c.Gomodcache}
		if !g.first {
			g.first = true
			if g.onFirst != nil {
				g.onFirst()
			}
			g.dirs = got
			for i, what := range []string{"project", "GOPATH", "module cache"} {
				if !g.cfg.TmpCopy {
					x.Check("C08", got[i] == g.given[i], "dirs", "the %s directory given to the %s stage is %s, not the user's %s", what, name, g.rel(got[i]), g.rel(g.given[i]))
					continue
				}
				x.Check("C08", strings.HasPrefix(got[i], x.Path("tmp")+"/"), "dirs", "the %s directory given to the %s stage is %s, not inside the temporary copy", what, name, g.rel(got[i]))
				d := copyOf(g.orig[i], got[i], g.trees[i]).diff(snap(got[i]))
				x.Check("C08", d == "", "copy", "the %s given to the %s stage differs from the user's: %s", what, name, d)
			}
		}
		x.Check("C08", got == g.dirs, "dirs", "the %s stage is given %v, earlier stages had %v", name, got, g.dirs)
		x.Check("C08", c.CustomFlags["mark"] == "here" && c.MutationScope == g.cfg.MutationScope, "config", "the %s stage is given another configuration", name)
	}
	vsim.Sleep(time.Duration(x.N(5)) * 100 * time.Millisecond)
	if g.failAt == name {
		vsim.CountFault("stage_" + name)
		g.failed[name] = true
		if g.mention {
			return fmt.Errorf("%w: stat %s/%s@%s: no such file", errStage, g.orig[2], modName, []string{modOld, modNew}[x.N(2)])
		}
		return fmt.Errorf("%w (%s)", errStage, name)
	}
	return nil
}

func (g *eng) end(name string) {
	g.done[name] = true
	g.ended[name] = vsim.Now()
}

func (g *eng) rel(p string) string { return strings.TrimPrefix(p, g.x.root) }

type engModules struct{ *eng }
type engCallers struct{ *eng }
type engTests struct{ *eng }
type engUpdate struct {
	*eng
	real lens.UpdateAnalysisProvider
}
type engMutation struct{ *eng }
type engCompare struct {
	*eng
	real lens.TestResultAnalyzer
}
type engStorage struct {
	*eng
	real lens.StorageProvider
}
type engReport struct {
	*eng
	real lens.ReportWriter
}

func (g engModules) Cleanup()  { g.clean["modules"]++ }
func (g engCallers) Cleanup()  { g.clean["callers"]++ }
func (g engTests) Cleanup()    { g.clean["tests"]++ }
func (g engUpdate) Cleanup()   { g.clean["update"]++; g.real.Cleanup() }
func (g engMutation) Cleanup() { g.clean["mutation"]++ }

func (g engModules) AnalyzeModuleChanges(c lens.Config, transitive bool, changed []*lens.ModuleChange, radius int) (map[string][]*lens.ModuleFunction, map[string][]*packages.Package, error) {
	if err := g.begin("modules", &c); err != nil {
		return nil, nil, err
	}
	g.x.Check("C08", len(changed) == 1 && changed[0].Name == modName && changed[0].PriorVersion == modOld && changed[0].NewVersion == modNew, "modules", "the module stage is asked about %d changes, not about %s", len(changed), modName)
	g.x.Check("C08", transitive == (g.cfg.UpdatedGoModFile == ""), "modules", "transitive modules are expanded: %v", transitive)
	g.x.Check("C08", (radius == 1) == (g.cfg.MutationScope == "area"), "modules", "neighbour radius %d for mutation scope %s", radius, g.cfg.MutationScope)
	g.changes = changed
	q := g.a.p.at(c.AbsProjDir, c.Gopath, c.Gomodcache)
	g.a.p = q
	g.byModule = map[string][]*lens.ModuleFunction{}
	if g.cfg.TmpCopy && vsim.W.Vals["modes"] != nil { // a module is downloaded, which the toolchain makes read-only
		d := filepath.Join(c.Gomodcache, "example.com", "fetched@v1.2.3")
		must(os.MkdirAll(filepath.Join(d, "sub"), 0o755))
		must(os.WriteFile(filepath.Join(d, "sub", "f.go"), []byte("package sub\n"), 0o444))
		must(os.Chmod(filepath.Join(d, "sub"), 0o555))
		must(os.Chmod(d, 0o555))
		vsim.Probe("engine.readonly")
	}
	if g.x.Pct(40) {
		g.byModule["example.com/zother"], g.byModule["example.com/another"] = nil, nil
	}
	g.byModule[modName] = q.modFnList
	if g.empty == "modules" {
		g.byModule[modName] = nil
	}
	g.modFns = g.byModule[modName]
	g.end("modules")
	return g.byModule, nil, nil
}

func (g engCallers) PerformCallerStaticAnalysis(c lens.Config, fns []*lens.ModuleFunction) ([]*lens.CallerFunction, lens.ReachableModuleChange, error) {
	if err := g.begin("callers", &c); err != nil {
		return nil, nil, err
	}
	g.x.Check("C08", sameSlice(fns, g.modFns), "passed", "the caller stage is not given the module functions found")
	g.reachable = g.a.p.modFns
	if g.empty != "callers" {
		g.callers = g.a.p.callers
	}
	g.end("callers")
	return g.callers, g.reachable, nil
}

func sameSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (g engTests) ProvideTests(c lens.Config, callers []*lens.CallerFunction) ([]*lens.TestFunction, error) {
	if err := g.begin("tests", &c); err != nil {
		return nil, err
	}
	g.x.Check("C08", sameSlice(callers, g.callers), "passed", "the test stage is not given the callers found")
	if g.empty != "tests" {
		g.tests = g.a.p.tests
	}
	g.end("tests")
	return g.tests, nil
}

func (g engStorage) NewStorage() (lens.Storage, error) {
	if err := g.begin("storage", nil); err != nil {
		return nil, err
	}
	if g.real != nil {
		s, err := g.real.NewStorage()
		if err != nil {
			g.failed["storage"] = true
			return s, err
		}
		g.opened = s
		g.end("storage")
		return s, nil
	}
	g.opened = g.store
	g.end("storage")
	return g.store, nil
}

func (g engUpdate) RunModuleUpdateAnalysis(c lens.Config, s lens.Storage, changed []*lens.ModuleChange, reachable lens.ReachableModuleChange,
	callers []*lens.CallerFunction, tests []*lens.TestFunction) (int, int, int, lens.Storage, lens.Storage, error) {
	if err := g.begin("update", &c); err != nil {
		return 0, 0, 0, nil, nil, err
	}
	x := g.x
	x.Check("C08", s == g.opened, "passed", "the monitored execution is not given the storage that was opened")
	x.Check("C08", sameSlice(changed, g.changes) && sameSlice(callers, g.callers) && sameSlice(tests, g.tests) && len(reachable) == len(g.reachable), "passed", "the monitored execution is not given what was found")
	for k, v := range g.reachable {
		x.Check("C08", reachable[k] == v, "passed", "the monitored execution is not given the reachable module functions")
	}
	if g.realUpd {
		a, b, n, pre, post, err := g.real.RunModuleUpdateAnalysis(c, s, changed, reachable, callers, tests)
		g.update, g.views = [3]int{a, b, n}, [2]lens.Storage{pre, post}
		if err != nil {
			g.failed["update"] = true
			return a, b, n, pre, post, err
		}
		g.end("update")
		return a, b, n, pre, post, nil
	}
	g.views = [2]lens.Storage{lens.KeyPrefixStorage(s, "pre"), lens.KeyPrefixStorage(s, "post")}
	for _, v := range g.views {
		for _, t := range tests {
			r := &lens.TestResult{TestFunction: lens.MinimumTestFunction{FunctionIdent: t.FunctionIdent, FunctionName: t.FunctionName},
				CallerResults: genFrames(x, true), ModuleChangesHit: x.N(3), TestFailure: x.Pct(20)}
			b, err := r.MarshalMsgpack()
			must(err)
			if err := v.SaveState(t.FunctionIdent, b); err != nil {
				g.failed["update"] = true
				return 0, 0, 0, nil, nil, fmt.Errorf("%w: %w", errStage, err)
			}
		}
	}
	g.update = [3]int{x.N(1000), x.N(10), x.N(5)}
	g.end("update")
	return g.update[0], g.update[1], g.update[2], g.views[0], g.views[1], nil
}

func (g engMutation) RunMutationTesting(c lens.Config, fast, lines, targeted bool, fns []*lens.ModuleFunction, tests []*lens.TestFunction) (lens.MutationResult, error) {
	if err := g.begin("mutation", &c); err != nil {
		return lens.MutationResult{}, err
	}
	x := g.x
	x.Check("C08", sameSlice(fns, g.modFns) && sameSlice(tests, g.tests), "passed", "mutation testing is not given what was found")
	x.Check("C08", fast == (c.MutationMode == "fast") && lines == (c.MutationScope != "function") && targeted == (c.MutationTests == "targeted"), "passed",
		"mutation testing with scope %s, mode %s, tests %s is run with fast %v, lines %v, targeted %v", c.MutationScope, c.MutationMode, c.MutationTests, fast, lines, targeted)
	g.mut = lens.MutationResult{MutationCount: 3 + x.N(5), SquashedCount: x.N(4)}
	g.end("mutation")
	return g.mut, nil
}

func (g engCompare) CompareTestResults(pre, post lens.Storage, mult int) (int, int, []lens.TestReport, error) {
	if err := g.begin("compare", nil); err != nil {
		return 0, 0, nil, err
	}
	g.x.Check("C08", pre == g.views[0] && post == g.views[1] && mult == g.cfg.TimeMultiplier, "passed", "comparison is not given the two result sets")
	var err error
	g.same, g.dif, g.reports, err = g.real.CompareTestResults(pre, post, mult)
	if err != nil {
		g.failed["compare"] = true
		return 0, 0, nil, err
	}
	g.end("compare")
	return g.same, g.dif, g.reports, nil
}

func (g engReport) WriteReportFiles(json, chart string, start time.Time, analysis, discovery, execution, mutation time.Duration,
	changed []*lens.ModuleChange, checked []string, nfuncs, reached, untracked int,
	checks int, callers []*lens.CallerFunction, tests []*lens.TestFunction,
	same, diff int, reports []lens.TestReport, mut lens.MutationResult) error {
	x := g.x
	if err := g.begin("report", nil); err != nil {
		return err
	}
	g.written++
	x.Check("C08", json == g.cfg.ReportJsonFile && chart == g.cfg.ReportChartsFile, "report", "the report is written to %s and %s", g.rel(json), g.rel(chart))
	x.Check("C08", sameSlice(changed, g.changes) && sameSlice(checked, keysOf(g.byModule)), "report", "the report is given other modules than were checked: %v", checked)
	full := g.done["tests"] && len(g.tests) > 0
	if g.done["modules"] {
		x.Check("C08", nfuncs == len(g.modFns), "report", "the report is given %d changed functions, %d were found", nfuncs, len(g.modFns))
	}
	x.Check("C08", sameSlice(callers, g.callers) && sameSlice(tests, g.tests), "report", "the report is given other callers or tests than were found")
	if full {
		x.Check("C08", [3]int{checks, reached, untracked} == g.update, "report", "the report is given %d checks, %d reached, %d untracked; the execution had %v", checks, reached, untracked, g.update)
	}
	x.Check("C08", same == g.same && diff == g.dif && len(reports) == len(g.reports) && mut == g.mut, "report", "the report is given %d same, %d different, %d tests and mutations %v; there were %d, %d, %d and %v", same, diff, len(reports), mut, g.same, g.dif, len(g.reports), g.mut)
	if full {
		dur := func(a, b string) time.Duration { return g.ended[b] - g.ended[a] }
		g.ended["start"] = g.began
		last := "update"
		if g.done["mutation"] {
			last = "mutation"
		}
		want := [4]time.Duration{dur("start", "callers"), dur("callers", "tests"), dur("tests", "update"), dur("update", last)}
		got := [4]time.Duration{analysis, discovery, execution, mutation}
		for i := range want {
			d := want[i] - got[i]
			x.Check("C08", vsim.W.Faults["task_stall"] > 0 || d < time.Millisecond && d > -time.Millisecond, "report", "the report is given stage durations %v, they were %v", got, want)
		}
	}
	if g.realRep {
		err := g.real.WriteReportFiles(json, chart, start, analysis, discovery, execution, mutation, changed, checked, nfuncs, reached, untracked,
			checks, callers, tests, same, diff, reports, mut)
		if err != nil {
			g.failed["report"] = true
			return err
		}
	}
	g.end("report")
	return nil
}

func engineScenario(x *X) {
	o := progOpts{unstable: x.Pct(30), panics: x.Pct(20), subModule: x.Pct(30), maxTests: 2}
	a := newAna(x, o)
	p := a.p
	g := &eng{x: x, a: a, done: map[string]bool{}, failed: map[string]bool{}, clean: map[string]int{}, ended: map[string]time.Duration{},
		store: &engStore{simStore: a.st}}
	x.Dir("tmp")
	// where the module cache lies
	switch x.N(6) {
	case 0, 4, 5: // in the usual place
	case 1:
		old := p.modcache
		must(os.Rename(old, x.Path("modcache")))
		*p = *p.at(p.root, p.gopath, x.Path("modcache"))
	case 2:
		old := p.modcache
		must(os.Rename(old, filepath.Join(p.gopath, "cache")))
		*p = *p.at(p.root, p.gopath, filepath.Join(p.gopath, "cache"))
	case 3: // a directory beside it with a similar name
		old := p.modcache
		must(os.Rename(old, x.Path("gopath2")))
		*p = *p.at(p.root, p.gopath, x.Path("gopath2"))
	}
	g.realUpd = p.modcache == filepath.Join(p.gopath, "pkg", "mod") && (x.Pct(40) || x.On("C10"))
	x.Dir("elsewhere")
	other := func() tree { return snap(x.Path("elsewhere")) }
	if x.Pct(30) {
		must(os.MkdirAll(filepath.Join(p.root, "docs", "empty"), 0o755))
		must(os.WriteFile(filepath.Join(p.root, "docs", "read.me"), []byte(strings.Repeat("text\n", x.N(3000))), 0o444))
		must(os.Chmod(filepath.Join(p.root, "docs", "empty"), 0o555))
	}
	if x.Pct(25) {
		// a source file that is a link
		f := p.callers[x.N(len(p.callers))].FilePath
		d := x.Path("elsewhere")
		if x.Pct(60) {
			d = filepath.Join(p.root, "shared")
		}
		must(os.MkdirAll(d, 0o755))
		t := filepath.Join(d, "linked.go")
		must(os.Rename(f, t))
		if x.Pct(50) {
			t, _ = filepath.Rel(filepath.Dir(f), t)
		}
		must(os.Symlink(t, f))
		vsim.Probe("engine.link")
	}
	// directories reached through links
	cfgDirs := [3]string{p.root, p.gopath, p.modcache}
	for i := range cfgDirs {
		if x.Pct(12) && !g.realUpd {
			l := x.Path(fmt.Sprintf("link%d", i))
			must(os.Symlink(cfgDirs[i], l))
			cfgDirs[i] = l
		}
	}
	g.orig = [3]string{p.root, p.gopath, p.modcache}
	g.given = cfgDirs
	for i, d := range g.orig {
		g.trees[i] = snap(d)
	}
	before := other()
	g.cfg = &lens.Config{ProjectDir: cfgDirs[0], Gopath: cfgDirs[1], Gomodcache: cfgDirs[2], AstMonitorPort: portBase, MaxFieldRecurse: min(a.maxRecurse, 100), MaxFieldLen: a.maxLen,
		CacheMB: 10, TimeMultiplier: 1 + x.N(4), TmpCopy: x.Pct(75), CustomFlags: map[string]string{"mark": "here"},
		MutationScope: []string{"none", "line", "area", "function"}[x.N(4)], MutationMode: []string{"fast", "full"}[x.N(2)], MutationTests: []string{"targeted", "full"}[x.N(2)],
		ReportJsonFile: x.Path("out", "report.json")}
	g.realRep = x.Pct(60)
	g.cfg.ReportChartsFile = x.Path("out", "report.svg")
	switch k := x.N(4); {
	case k == 1 && len(p.goModDirs) == 1:
		f := filepath.Join(x.Dir("new"), "go.mod")
		b, err := os.ReadFile(filepath.Join(p.root, "go.mod"))
		must(err)
		must(os.WriteFile(f, []byte(strings.Replace(string(b), modOld, modNew, 1)), 0o644))
		g.cfg.UpdatedGoModFile = f
	case k == 2:
		g.cfg.ModulesVersionFlag = modName + "@" + modNew
		if x.Pct(50) {
			g.cfg.ModulesVersionFlag += ", example.com/unknown@v1.0.0"
		}
	default:
		g.cfg.ModuleVersionFlag = modName + "@" + modNew
	}
	none := x.Pct(5)
	if none {
		g.cfg.ModulesVersionFlag, g.cfg.UpdatedGoModFile, g.cfg.ModuleVersionFlag = "", "", "example.com/unknown@v1.0.0"
	}
	stages := []string{"modules", "callers", "tests", "storage", "update", "mutation", "compare", "report"}
	if x.Pct(60) && !x.On("C10") {
		g.failAt = stages[x.N(len(stages))]
		g.mention = g.failAt == "modules" && x.Pct(50)
	}
	if x.Pct(20) && !x.On("C10") {
		g.empty = stages[x.N(3)]
	}
	fault := ""
	if x.Pct(30) && !x.On("C10") {
		fault = []string{"copy", "report", "store", "go", "any"}[x.N(5)]
	}
	if x.Pct(40) {
		vsim.W.Vals["modes"] = true
	}
	var sp lens.StorageProvider
	if x.Pct(30) {
		sp = &lens.DefaultStorageProvider{CacheMB: 10}
	}
	switch fault {
	case "copy":
		x.fsFaults([]int{5, 30}[x.N(2)], 1+x.N(2), func(op, path string) bool {
			switch op {
			case "close": // of a file that was only read
				return strings.HasPrefix(path, "/tmp/")
			case "stat": // that only looks whether something is there
				return !strings.HasPrefix(path, "/tmp/") && !strings.HasPrefix(path, "/out")
			}
			return true
		})
		g.onFirst = func() { x.noFaults() }
	case "report":
		x.fsFaults(200, 1, func(op, path string) bool { return strings.HasPrefix(path, "/out/") })
	case "store":
		g.store.rate, g.store.max = 100, 1
	case "go":
		a.e.cf = cmdFaults{rate: 100, max: 2}
	case "any":
		x.fsFaults([]int{2, 20}[x.N(2)], 1+x.N(3), func(op, path string) bool { return true })
	}
	en := lens.NewAnalysisEngineWithProviders(g.cfg, engModules{g}, engCallers{g}, engTests{g}, engUpdate{g, &lens.DefaultUpdateAnalysisProvider{}},
		engMutation{g}, engCompare{g, &lens.DefaultTestResultAnalyzer{}}, engStorage{g, sp}, engReport{g, &lens.DefaultReportWriter{}})
	returned := false
	vsim.W.FSHook = func(op, path string) {
		if returned && a.touchedAfter == "" {
			a.touchedAfter = op + " " + g.rel(path)
		}
		if g.cfg.TmpCopy {
			if r, err := filepath.EvalSymlinks(filepath.Dir(path)); err == nil {
				path = filepath.Join(r, filepath.Base(path))
			}
			switch op {
			case "create", "write", "chmod", "chtimes", "truncate": // these follow a final link
				if r, err := filepath.EvalSymlinks(path); err == nil {
					path = r
				}
			}
			x.Check("C08", !strings.HasPrefix(path, x.Path("elsewhere")), "touched", "%s of %s, a file of the user's outside the temporary copy", op, g.rel(path))
			for i, d := range g.orig {
				if path == d || strings.HasPrefix(path, d+"/") {
					x.Check("C08", false, "touched", "%s of %s in the user's %s although a temporary copy is used", op, g.rel(path), []string{"project", "GOPATH", "module cache"}[i])
				}
			}
		}
	}
	g.began = vsim.Now()
	err := en.Run()
	returned = true
	faultsInCopy := fault == "copy" && vsim.FSFaults() > 0
	anyFaults := vsim.FSFaults()
	x.noFaults()
	settle(time.Minute)
	x.Say("copy %v, fails at %q, finds nothing at %q, faults %q; stages %v, error %v", g.cfg.TmpCopy, g.failAt, g.empty, fault, g.stages, err)

	text := "no error"
	if err != nil {
		text = strings.ReplaceAll(err.Error(), x.root, "")
	}
	// a failed stage fails the run
	for _, s := range stages {
		if g.failed[s] {
			x.Check("C08", err != nil, "lost", "the %s stage failed and the run returned success", s)
			if s == g.failAt {
				x.Check("C08", errors.Is(err, errStage), "carry", "the %s stage failed and the run returned %q", s, text)
			}
			x.Check("C08", g.stages[len(g.stages)-1] == s, "goon", "the run went on to %s after the %s stage had failed", g.stages[len(g.stages)-1], s)
			if s != "report" {
				x.Check("C08", g.written == 0, "report", "a report was written although the %s stage failed", s)
				d := strings.Join(keysOf(snap(x.Path("out"))), " ")
				x.Check("C08", !strings.Contains(d, "report."), "report", "report files exist although the %s stage failed: %s", s, d)
			}
		}
	}
	if faultsInCopy && g.cfg.TmpCopy {
		x.Check("C08", err != nil || !g.first, "copyfault", "copying or preparing failed (%v) and the run went on", vsim.W.FSFaulted)
	}
	if len(g.failed) == 0 && anyFaults == 0 {
		x.Check("C08", err == nil, "error", "no stage failed and the run returned %q", text)
		want := []string{}
		if !none {
			want = append(want, "modules")
			if g.empty != "modules" && len(p.modFnList) > 0 {
				want = append(want, "callers")
				if g.empty != "callers" {
					want = append(want, "tests")
					if g.empty != "tests" {
						want = append(want, "storage", "update")
						if g.cfg.MutationScope != "none" {
							want = append(want, "mutation")
						}
						want = append(want, "compare")
					}
				}
			}
			want = append(want, "report")
		}
		x.Check("C08", sameSlice(want, g.stages), "stages", "the run went through %v, want %v", g.stages, want)
	}
	if err == nil && g.done["report"] && g.realRep {
		for _, f := range []string{g.cfg.ReportJsonFile, g.cfg.ReportChartsFile} {
			_, e := os.Stat(f)
			x.Check("C08", e == nil, "report", "the run succeeded and %s does not exist", g.rel(f))
		}
	}
	// cleanup
	for _, s := range []string{"modules", "callers", "tests", "update", "mutation"} {
		if g.done[s] {
			x.Check("C08", g.clean[s] == 1, "cleanup", "the %s stage completed and was cleaned up %d times", s, g.clean[s])
		} else if !g.failed[s] {
			x.Check("C08", g.clean[s] == 0, "cleanup", "the %s stage never ran and was cleaned up", s)
		}
	}
	if sp == nil {
		n := 0
		if g.done["storage"] {
			n = 1
		}
		x.Check("C08", g.store.closed == n, "close", "storage was opened %d times and closed %d times", n, g.store.closed)
		x.Check("C08", g.store.useLate == "", "close", "storage was used after it had been closed: %s", g.store.useLate)
	}
	x.Check("C08", a.touchedAfter == "", "late", "files were still changed after the run had returned: %s", a.touchedAfter)
	if rem := removals(vsim.W.FSFaulted); !rem {
		t := snap(x.Path("tmp"))
		for k := range t {
			if !g.done["storage"] && strings.HasPrefix(k, "lens_state-") {
				delete(t, k) // a database that could not be opened is not removed
			}
		}
		d := strings.Join(keysOf(t), " ")
		x.Check("C08", d == "./", "left", "left in the temporary directory: %s", clip(d))
	}
	df := before.diff(other())
	x.Check("C08", df == "", "tree", "the user's linked files changed: %s", df)
	if g.cfg.TmpCopy || !g.realUpd {
		for i, d := range g.orig {
			df := g.trees[i].diff(snap(d))
			x.Check("C08", df == "", "tree", "the user's %s changed: %s", []string{"project", "GOPATH", "module cache"}[i], df)
		}
	}
	for _, s := range g.stages {
		vsim.Probe("engine." + s)
	}
	if g.realUpd && g.done["compare"] && sp == nil && anyFaults == 0 && fault != "go" && fault != "store" {
		// the verdict is the same wherever the analysis worked
		a.fieldChecks, a.reached, a.skipped = g.update[0], g.update[1], g.update[2]
		a.pre, a.post = g.views[0], g.views[1]
		a.checkClean()
		vsim.Probe("engine.verdict")
	}
}

// removals says whether a fault kept something from being removed.
func removals(l []string) bool {
	for _, s := range l {
		for _, w := range []string{"remove", "chmod", "readdir", "walk", "lstat", "stat", "open"} {
			if w != "remove" && vsim.W.Vals["modes"] == nil {
				continue // nothing is write-protected
			}
			if strings.HasPrefix(s, w) {
				return true
			}
		}
	}
	return false
}
