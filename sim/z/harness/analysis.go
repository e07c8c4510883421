package main

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vnet"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Whole update analyses: the real instrumentation, servers, monitors, storage
// views and comparison around simulated test processes that run the real client.

func init() {
	real := []string{"RunModuleUpdateAnalysis with everything below it: instrumentation, client, server, decoder, monitor, stability filter, result encoding, storage views, comparison (lens/astexec.go, asttweak.go, astclient.go, astsrv.go, types.go, engine.go)", "go/parser, go/types, go/format, msgpack"}
	stub := []string{"net/http transport, listener, processes, clock, sync, errgroup, os: the simulator (files are real, in a scratch directory)", "the go command: a simulated process that rewrites go.mod/go.sum or runs a test", "test binaries: an interpreter of the instrumented Go sources that calls the real client", "the backing store: a map whose operations may fail"}
	components["C06"] = component{real: real, stub: stub, assume: []string{"the go command itself only changes go.mod and go.sum", "renames are atomic"}}
	components["C10"] = component{real: real, stub: stub, assume: []string{"programs under test drawn from the generator: up to 4 tests, several callers and call sites, stable, unstable and changed fields, panics, goroutines, sub modules"}}
	components["C16"] = component{real: real, stub: stub, assume: []string{"the backing store either performs an operation or returns an error without performing it"}}
	register(&Scenario{Name: "analysis", Props: []string{"C02", "C04", "C06", "C07", "C10", "C16"}, Quick: 1200, Steps: 20_000_000, Preempt: []int{6, 30, 200, 1500, 0}, Run: analysisScenario})
}

const portBase = 9400

// simStore is the storage the analysis is given: a map whose operations may fail.
type simStore struct {
	m       map[string][]byte
	rate    int // per mille
	max     int
	faults  []string
	touched map[string]int
}

var errStore = errors.New("simulated storage failure")

func newStore() *simStore { return &simStore{m: map[string][]byte{}, touched: map[string]int{}} }

func (s *simStore) op(op, key string) error {
	vsim.Op("store." + op)
	s.touched[op]++
	if s.rate > 0 && len(s.faults) < s.max && vsim.Chance("store", op+" fails", s.rate) {
		s.faults = append(s.faults, op+" "+key)
		vsim.CountFault("storage_" + op)
		return fmt.Errorf("%w (%s %s)", errStore, op, key)
	}
	return nil
}

func (s *simStore) SaveState(key string, blob []byte) error {
	if err := s.op("save", key); err != nil {
		return err
	}
	s.m[key] = bytes.Clone(blob)
	return nil
}
func (s *simStore) LoadState(key string) ([]byte, bool, error) {
	if err := s.op("load", key); err != nil {
		return nil, false, err
	}
	b, ok := s.m[key]
	return bytes.Clone(b), ok, nil
}
func (s *simStore) DeleteState(key string) error {
	if err := s.op("delete", key); err != nil {
		return err
	}
	delete(s.m, key)
	return nil
}
func (s *simStore) ListKeysPrefix(prefix string) ([]string, error) {
	if err := s.op("list", prefix); err != nil {
		return nil, err
	}
	var out []string
	for k := range s.m {
		if strings.HasPrefix(k, prefix) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out, nil
}
func (s *simStore) ListKeys() ([]string, error) { return s.ListKeysPrefix("") }
func (s *simStore) Clear() error {
	if err := s.op("clear", ""); err != nil {
		return err
	}
	s.m = map[string][]byte{}
	return nil
}
func (s *simStore) Close() {}

// ana is one analysis with everything the checks need afterwards.
type ana struct {
	x      *X
	p      *project
	e      *world
	st     *simStore
	before tree

	maxRecurse, maxLen            int
	fieldChecks, reached, skipped int
	pre, post                     lens.Storage
	err                           error
	took                          time.Duration
	preExt, postExt               func(*lens.ASTModifier) (map[uint32]*string, error)
	touchedAfter                  string
	ext                           [2]map[uint32]*string // extension points by phase
	extCalls                      [2]int
	faulty                        bool
	occupied                      int // a port somebody else uses
}

func newAna(x *X, o progOpts) *ana {
	p := genProject(x, o)
	a := &ana{x: x, p: p, e: newWorld(x, p), st: newStore(), maxRecurse: 100, maxLen: 1024}
	if x.Pct(20) {
		a.maxLen = 8 + x.N(20)
	}
	if x.Pct(20) {
		a.maxRecurse = 1 + x.N(3)
	}
	a.before = a.snap()
	return a
}

func (a *ana) snap() tree {
	t := snap(a.p.root)
	for k, v := range snap(a.p.gopath) {
		t["GOPATH/"+k] = v
	}
	return t
}

func (a *ana) run() {
	returned := false
	vsim.W.FSHook = func(op, path string) {
		if returned && a.touchedAfter == "" {
			a.touchedAfter = op + " " + path
		}
	}
	begin := vsim.Now()
	a.fieldChecks, a.reached, a.skipped, a.pre, a.post, a.err = lens.RunModuleUpdateAnalysis(a.p.gopath, a.p.modcache, a.p.root, portBase,
		a.st, a.maxRecurse, a.maxLen, a.p.changes, a.p.modFns, a.p.callers, a.p.tests, a.preExt, a.postExt)
	returned = true
	a.took = vsim.Now() - begin
}

// ident of the function a message came from, by where the instrumented code
// that sent it stands.
func (a *ana) ident(s *sent) string {
	name := s.fn.decl.Name.Name
	for _, c := range a.p.callers {
		if c.FilePath == s.fn.file && c.FunctionName == name {
			return c.FunctionIdent
		}
	}
	for _, m := range a.p.modFnList {
		if m.FilePath == s.fn.file && m.FunctionName == name {
			return m.FunctionIdent
		}
	}
	return "?" + s.fn.file + "." + name
}

func (a *ana) isModule(s *sent) bool { return strings.HasPrefix(s.fn.file, a.p.modcache) }

func (a *ana) runsOf(t *lens.TestFunction, phase int) []*testRun {
	var out []*testRun
	for _, r := range a.e.runs {
		if r.test == t.FunctionName && r.pkg == t.PackageName && r.phase == phase {
			out = append(out, r)
		}
	}
	return out
}

type xframe struct {
	s      *sent
	key    string // project frames
	stack  string
	ms     uint32
	fields map[string]*xfield
}

func (a *ana) stackText(s *sent) (proj, full string) {
	var ps, fs []string
	for _, f := range s.stack {
		file := f.File
		if strings.HasPrefix(file, a.p.root+"/") {
			file = "." + strings.TrimPrefix(file, a.p.root)
			ps = append(ps, file+":"+f.Function)
		} else {
			file = strings.TrimPrefix(file, a.p.gopath)
			if i := strings.Index(file, "/pkg/mod/"); i >= 0 {
				file = file[i+len("/pkg/mod/"):]
			}
		}
		fs = append(fs, fmt.Sprintf("%s:%d:%s", file, f.Line, f.Function))
	}
	return strings.Join(ps, "|"), strings.Join(fs, "|")
}

var lineRe = regexp.MustCompile(`:\d+:`)

// unlined is a stack without line numbers.
func unlined(s string) string { return lineRe.ReplaceAllString(s, ":") }

func realStack(st []lens.StackFrame) (proj, full string) {
	var ps, fs []string
	for _, f := range st {
		if strings.HasPrefix(f.File, "./") && !strings.HasPrefix(f.File, "./vendor/") {
			ps = append(ps, f.File+":"+f.Function)
		}
		fs = append(fs, fmt.Sprintf("%s:%d:%s", f.File, f.Line, f.Function))
	}
	return strings.Join(ps, "|"), strings.Join(fs, "|")
}

// obs is what one test process told its server, as far as it was accepted.
type obs struct {
	frames  map[string][]xframe
	ext     map[string][]xframe
	states  int
	panics  map[string][]string // project
	mpanics map[string][]string // module
	points  map[string]bool     // module functions reached
	pointN  int
	failed  bool
}

func (a *ana) observe(r *testRun, include func(s *sent) bool) *obs {
	o := &obs{frames: map[string][]xframe{}, ext: map[string][]xframe{}, panics: map[string][]string{}, mpanics: map[string][]string{}, points: map[string]bool{}, failed: r.failed}
	for _, s := range r.sents {
		if !include(s) {
			continue
		}
		if key := a.ext[r.phase][s.id]; key != nil && s.kind == "state" {
			_, fs := a.stackText(s)
			o.ext[*key] = append(o.ext[*key], xframe{s: s, key: unlined(fs), stack: fs, ms: s.ms, fields: s.fields})
			o.states++
			continue
		}
		id := a.ident(s)
		switch s.kind {
		case "state":
			pk, fs := a.stackText(s)
			o.frames[id] = append(o.frames[id], xframe{s: s, key: pk, stack: fs, ms: s.ms, fields: s.fields})
			o.states++
		case "point":
			o.points[id] = true
		case "panic":
			if a.isModule(s) {
				o.mpanics[id] = append(o.mpanics[id], s.msg)
			} else {
				o.panics[id] = append(o.panics[id], s.msg)
			}
		}
	}
	return o
}

func accepted(s *sent) bool { return s.wire != nil && s.wire.Code == 200 }

func stableX(m1, m2 map[string]*xfield) map[string]*xfield {
	out := map[string]*xfield{}
	for k, f1 := range m1 {
		f2 := m2[k]
		if f2 == nil {
			continue
		}
		if f1.kids == nil && f2.kids == nil {
			if f1.leaf == f2.leaf {
				out[k] = f1
			}
		} else if f1.kids != nil && f2.kids != nil {
			if s := stableX(f1.kids, f2.kids); len(s) > 0 {
				out[k] = &xfield{kids: s}
			}
		}
	}
	return out
}

func sharedMsgs(m1, m2 map[string][]string) map[string][]string {
	out := map[string][]string{}
	for k, l1 := range m1 {
		n := map[string]int{}
		for _, m := range m2[k] {
			n[m]++
		}
		for _, m := range l1 {
			if n[m] > 0 {
				n[m]--
				out[k] = append(out[k], m)
			}
		}
	}
	return out
}

// stable is what two runs have in common.
func stable(o1, o2 *obs) *obs {
	out := &obs{panics: sharedMsgs(o1.panics, o2.panics), mpanics: sharedMsgs(o1.mpanics, o2.mpanics),
		points: o1.points, failed: o1.failed || o2.failed, states: min(o1.states, o2.states)}
	out.frames, out.ext = stableFrames(o1.frames, o2.frames), stableFrames(o1.ext, o2.ext)
	return out
}

func stableFrames(m1, m2 map[string][]xframe) map[string][]xframe {
	out := map[string][]xframe{}
	for id, l1 := range m1 {
		l2, ok := m2[id]
		if !ok {
			continue
		}
		by := map[string][]xframe{}
		for _, f := range l2 {
			by[f.key] = append(by[f.key], f)
		}
		used := map[string]int{}
		out[id] = []xframe{}
		for _, f := range l1 {
			i := used[f.key]
			used[f.key]++
			if i >= len(by[f.key]) {
				continue
			}
			g := f
			g.fields = stableX(f.fields, by[f.key][i].fields)
			out[id] = append(out[id], g)
		}
	}
	return out
}

func fieldsText(fv lens.FieldValues) string { return flatText(xfields(fv)) }

// sameFrames compares recorded frames with expected ones; frames of one stack
// are compared in order, and overall each sender's order must be kept.
// exact says whether the fields have to be exactly the expected ones.
func sameFrames(got []lens.CallFrame, want []xframe, exact bool, lower map[string][]xframe) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d frames recorded, %d messages acknowledged", len(got), len(want))
	}
	by := map[string][]xframe{}
	for _, f := range want {
		by[f.stack] = append(by[f.stack], f)
	}
	last := map[int]int{}
	occ := map[string]int{}
	for i, g := range got {
		pk, fs := realStack(g.Stack)
		l := by[fs]
		if len(l) == 0 {
			return fmt.Sprintf("frame %d has a stack nobody sent: %s", i, fs)
		}
		w := l[0]
		by[fs] = l[1:]
		if w.key != pk && w.key != unlined(fs) {
			return fmt.Sprintf("frame %d: project part of the stack is %s, want %s", i, pk, w.key)
		}
		if g.TimeMillis != w.ms {
			return fmt.Sprintf("frame %d was recorded with time %d ms, sent with %d", i, g.TimeMillis, w.ms)
		}
		gt := fieldsText(g.FieldValues)
		if exact {
			if wt := flatText(w.fields); gt != wt {
				return fmt.Sprintf("frame %d has fields %s, sent and stable: %s", i, gt, wt)
			}
		} else {
			// nothing that was not sent, and everything that is compared
			have, sentF := map[string]string{}, map[string]string{}
			flattenX("", xfields(g.FieldValues), have)
			flattenX("", w.fields, sentF)
			for _, k := range keysOf(have) {
				v := have[k]
				if sv, ok := sentF[k]; !ok || sv != v {
					return fmt.Sprintf("frame %d has field %s=%q, sent %q (%v)", i, k, v, sv, ok)
				}
			}
			if o := occ[pk]; o < len(lower[pk]) {
				need := map[string]string{}
				flattenX("", lower[pk][o].fields, need)
				for _, k := range keysOf(need) {
					if sv, ok := sentF[k]; ok {
						if _, ok := have[k]; !ok {
							return fmt.Sprintf("frame %d lacks the stable field %s=%q", i, k, sv)
						}
					}
				}
			}
		}
		occ[pk]++
		if p, ok := last[w.s.task]; ok && w.s.seq < p && w.s.wire.Err == nil && !w.s.wire.Reset {
			return fmt.Sprintf("frame %d is out of order: sent as message %d, after message %d of the same goroutine", i, w.s.seq, p)
		}
		last[w.s.task] = w.s.seq
	}
	return ""
}

func msgsText(m map[string][]string) string {
	var ks []string
	for k, l := range m {
		if len(l) > 0 {
			l = slices.Clone(l)
			sort.Strings(l)
			ks = append(ks, fmt.Sprintf("%s:%q", k, l))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// load decodes a stored result.
func (a *ana) load(view, ident string) (*lens.TestResult, string) {
	b, ok := a.st.m[view+";"+ident]
	if !ok {
		return nil, "no result stored for " + view + " " + ident
	}
	var r lens.TestResult
	if err := r.UnmarshalMsgpack(b); err != nil {
		return nil, fmt.Sprintf("stored %s result of %s cannot be decoded: %v", view, ident, err)
	}
	return &r, ""
}

// sameResult compares a stored result with what was observed.
func (a *ana) sameResult(t *lens.TestFunction, r *lens.TestResult, o *obs, exact bool, lower *obs) string {
	if r.TestFunction.FunctionIdent != t.FunctionIdent {
		return fmt.Sprintf("result of %s stored for %s", r.TestFunction.FunctionIdent, t.FunctionIdent)
	}
	ids := map[string]bool{}
	for id := range r.CallerResults {
		ids[id] = true
	}
	for id := range o.frames {
		ids[id] = true
	}
	var l []string
	for id := range ids {
		l = append(l, id)
	}
	sort.Strings(l)
	for _, id := range l {
		var low map[string][]xframe
		if lower != nil {
			low = map[string][]xframe{}
			for _, f := range lower.frames[id] {
				low[f.key] = append(low[f.key], f)
			}
		}
		if d := sameFrames(r.CallerResults[id], o.frames[id], exact, low); d != "" {
			return id + ": " + d
		}
	}
	if g, w := strings.Join(keysOf(r.ExtensionFrames), " "), strings.Join(keysOf(o.ext), " "); g != w {
		return fmt.Sprintf("extension frames recorded for {%s}, sent for {%s}", g, w)
	}
	for _, id := range keysOf(o.ext) {
		if d := sameFrames(r.ExtensionFrames[id], o.ext[id], true, nil); d != "" {
			return id + ": " + d
		}
	}
	if g, w := msgsText(r.ProjectPanics), msgsText(o.panics); g != w {
		return fmt.Sprintf("project panics are %s, sent: %s", g, w)
	}
	if g, w := msgsText(r.ModulePanics), msgsText(o.mpanics); g != w {
		return fmt.Sprintf("module panics are %s, sent: %s", g, w)
	}
	if r.ModuleChangesHit != len(o.points) {
		return fmt.Sprintf("%d module functions recorded as hit, %d were: %v", r.ModuleChangesHit, len(o.points), o.points)
	}
	if r.TestFailure != o.failed {
		return fmt.Sprintf("test failure recorded as %v, was %v", r.TestFailure, o.failed)
	}
	return ""
}

// owners says whether results are filed under the functions that reported.
func owners(r *lens.TestResult, o *obs) string {
	got, want := map[string]bool{}, map[string]bool{}
	for id := range r.CallerResults {
		got[id] = true
	}
	for id := range o.frames {
		want[id] = true
	}
	for id := range r.ProjectPanics {
		got["panic "+id] = true
	}
	for id := range o.panics {
		want["panic "+id] = true
	}
	for id := range r.ModulePanics {
		got["panic "+id] = true
	}
	for id := range o.mpanics {
		want["panic "+id] = true
	}
	g, w := strings.Join(keysOf(got), " "), strings.Join(keysOf(want), " ")
	if g != w {
		return fmt.Sprintf("points of {%s} reported, recorded as points of {%s}", w, g)
	}
	return ""
}

// verdict of one test.
type verdict struct {
	same, diff, regress int
	changes             map[string]map[string][2]string
}

func judge(pre, post *obs) verdict {
	v := verdict{changes: map[string]map[string][2]string{}}
	for id, l := range pre.frames {
		by := map[string][]xframe{}
		for _, f := range post.frames[id] {
			by[f.key] = append(by[f.key], f)
		}
		used := map[string]int{}
		for _, f := range l {
			i := used[f.key]
			used[f.key]++
			pf := map[string]string{}
			flattenX("", f.fields, pf)
			if i >= len(by[f.key]) {
				v.diff += len(pf)
				continue
			}
			qf := map[string]string{}
			flattenX("", by[f.key][i].fields, qf)
			for k, val := range pf {
				w, ok := qf[k]
				switch {
				case !ok:
					v.diff++
				case w == val:
					v.same++
				default:
					v.diff++
					if v.changes[id] == nil {
						v.changes[id] = map[string][2]string{}
					}
					v.changes[id][k] = [2]string{val, w}
				}
			}
		}
	}
	for _, m := range [][2]map[string][]string{{pre.panics, post.panics}, {pre.mpanics, post.mpanics}} {
		n := map[string]int{}
		for id, l := range m[0] {
			for _, s := range l {
				n[id+"\x00"+s]++
			}
		}
		for id, l := range m[1] {
			for _, s := range l {
				n[id+"\x00"+s]--
			}
		}
		for _, c := range n {
			v.diff += max(c, -c)
		}
	}
	if !pre.failed && post.failed {
		v.regress = 1
	}
	return v
}

// complete says whether a process reported every return and every panic of the
// monitored functions it executed, with the variables in scope and the results.
func (a *ana) complete(r *testRun) string {
	if r.invalid != "" {
		return "the instrumented sources do not compile: " + r.invalid
	}
	for _, in := range r.invs {
		caller, module := false, false
		for _, c := range a.p.callers {
			caller = caller || c.FilePath == in.fn.file && c.FunctionName == in.fn.decl.Name.Name
		}
		for _, m := range a.p.modFnList {
			module = module || filepath.Base(m.FilePath) == filepath.Base(in.fn.file) && m.FunctionName == in.fn.decl.Name.Name && r.phase == 0
		}
		if module && a.p.tooOld {
			if len(in.sents) > 0 && a.ext[r.phase][in.sents[0].id] == nil {
				return fmt.Sprintf("%s of a module too old for monitoring reported something", in.fn.qual)
			}
			continue
		}
		if !caller && !module {
			continue
		}
		name := in.fn.qual
		var states, panics, points []*sent
		for _, s := range in.sents {
			switch {
			case s.kind == "panic":
				panics = append(panics, s)
			case s.kind == "point":
				points = append(points, s)
			case a.ext[r.phase][s.id] == nil:
				states = append(states, s)
			}
		}
		if !in.ended { // the process ended in the midst of it
			if len(points) > 1 || len(states) > 1 || len(panics) > 1 {
				return fmt.Sprintf("%s ran once and reported %d times", name, max(len(points), len(states), len(panics)))
			}
			continue
		}
		want := 0
		if in.panicked {
			want = 1
		}
		if (in.panicked || in.returned) && len(panics) != want {
			return fmt.Sprintf("%s ended with %d panics and reported %d", name, want, len(panics))
		}
		if module {
			if len(points) != 1 {
				return fmt.Sprintf("%s was entered and reported %d times", name, len(points))
			}
			continue
		}
		if !in.returned {
			continue
		}
		if len(states) != 1 {
			return fmt.Sprintf("%s returned once and reported its state %d times", name, len(states))
		}
		st := states[0]
		for _, v := range st.visible {
			if !slices.Contains(st.names, v) {
				return fmt.Sprintf("%s returned with variable %s in scope, reported are only %v", name, v, st.names)
			}
		}
	results:
		for i, v := range in.results {
			if v == nil {
				continue
			}
			for _, w := range st.vals {
				if reflect.DeepEqual(v, w) {
					continue results
				}
			}
			return fmt.Sprintf("%s returned %v as result %d, which is not among the reported values %v", name, v, i, st.names)
		}
	}
	return ""
}

// listening lists the ports of servers the analysis left running.
func (a *ana) listening() []int {
	var out []int
	for _, p := range vnet.SimPorts() {
		if p != a.occupied {
			out = append(out, p)
		}
	}
	return out
}

func (a *ana) restored(prop string) {
	a.x.Check(prop, a.touchedAfter == "", "late", "the analysis still changed files after it had returned: %s", a.touchedAfter)
	d := a.before.diff(a.snap())
	a.x.Check(prop, d == "", "tree", "the project or its modules differ after the analysis (%v): %s", a.err, d)
	ps := a.listening()
	a.x.Check(prop, len(ps) == 0, "server", "monitor servers still listen on %v after the analysis", ps)
}

func analysisScenario(x *X) {
	o := progOpts{unstable: x.Pct(50), panics: x.Pct(40), goroutine: x.Pct(40), shared: x.Pct(20), failing: x.Pct(30), subModule: x.Pct(30), maxTests: 4}
	a := newAna(x, o)
	e := a.e
	e.net.Latency = time.Duration(x.N(4)) * time.Millisecond
	e.net.Fragments = x.Pct(30)
	x.Say("%d callers, %d module functions, %d tests, limits %d/%d", len(a.p.callers), len(a.p.modFnList), len(a.p.tests), a.maxLen, a.maxRecurse)
	a.run()
	settle(2 * time.Minute)
	x.Check("C07", a.err == nil, "error", "analysis of a valid project failed: %v", a.err)
	x.Check("C10", a.err == nil, "error", "analysis of a valid project failed: %v", a.err)
	a.restored("C06")
	x.Check("C04", e.clash == "", "clash", "%s", e.clash)
	if a.err != nil {
		return
	}
	for _, r := range e.runs {
		x.Check("C07", !strings.HasPrefix(r.crashed, "build:"), "build", "instrumented sources do not build: %s", r.crashed)
		for _, s := range r.sents {
			x.Check("C02", s.wire == nil || !s.returned || s.wire.Code == 200, "refused", "a %s message of point %d was refused with status %d", s.kind, s.id, code(s))
			x.Check("C10", s.wire != nil || !s.returned || s.kind == "panic" && s.msg == "<nil>", "unsent", "the %s of point %d was never reported", s.kind, s.id)
		}
	}
	a.checkClean()
}

func code(s *sent) int {
	if s.wire == nil {
		return 0
	}
	return s.wire.Code
}

func (a *ana) checkClean() {
	x := a.x
	sumSame, sumDiff := 0, 0
	pre0, post0 := 0, 0
	reached := map[string]bool{}
	verdicts := map[string]verdict{}
	for _, t := range a.p.tests {
		rs, qs := a.runsOf(t, 0), a.runsOf(t, 1)
		nq := 1
		if a.postExt != nil {
			nq = 2
		}
		if a.faulty && (len(rs) != 2 || len(qs) != nq) {
			continue // a test could not be started
		}
		x.Check("C10", len(rs) == 2 && len(qs) == nq, "runs", "%s ran %d times before and %d times after the update", t.FunctionName, len(rs), len(qs))
		o1, o2, o3 := a.observe(rs[0], accepted), a.observe(rs[1], accepted), a.observe(qs[0], accepted)
		if !a.faulty {
			for _, r := range append(rs, qs...) {
				d := a.complete(r)
				x.Check("C10", d == "", "complete", "%s: %s", t.FunctionName, d)
			}
		}
		st := stable(o1, o2)
		if nq == 2 {
			o3 = stable(o3, a.observe(qs[1], accepted))
		}
		pre0 += st.states
		post0 += o3.states
		for id := range o1.points {
			reached[id] = true
		}
		r, msg := a.load("pre", t.FunctionIdent)
		x.Check("C16", msg == "", "missing", "%s", msg)
		if r == nil {
			continue
		}
		x.Check("C07", owners(r, st) == "", "owner", "before the update: %s", owners(r, st))
		d := a.sameResult(t, r, st, true, nil)
		for _, p := range []string{"C02", "C04", "C16"} {
			x.Check(p, d == "", "result", "result of %s before the update: %s", t.FunctionName, d)
		}
		q, msg := a.load("post", t.FunctionIdent)
		x.Check("C16", msg == "", "missing", "%s", msg)
		if q == nil {
			continue
		}
		x.Check("C07", owners(q, o3) == "", "owner", "after the update: %s", owners(q, o3))
		d = a.sameResult(t, q, o3, false, st)
		for _, p := range []string{"C02", "C04", "C16"} {
			x.Check(p, d == "", "result", "result of %s after the update: %s", t.FunctionName, d)
		}
		v := judge(st, o3)
		verdicts[t.FunctionIdent] = v
		sumSame += v.same
		sumDiff += v.diff
	}
	if a.faulty && len(verdicts) != len(a.p.tests) {
		return
	}
	x.Check("C10", a.reached == len(reached), "reached", "%d module functions reported as reached, %d were", a.reached, len(reached))
	skip := 0
	if a.p.tooOld {
		skip = len(a.p.modFnList)
		vsim.Probe("analysis.module-too-old")
	}
	x.Check("C10", a.skipped == skip, "skipped", "%d functions are said to be skipped, want %d", a.skipped, skip)
	x.Check("C10", a.fieldChecks == max(pre0, post0), "checks", "%d field checks reported, want %d", a.fieldChecks, max(pre0, post0))

	d := &lens.DefaultTestResultAnalyzer{}
	same, diff, reports, err := d.CompareTestResults(a.pre, a.post, 4)
	x.Check("C10", err == nil, "error", "comparing failed: %v", err)
	x.Check("C16", err == nil, "error", "comparing failed: %v", err)
	if err != nil {
		return
	}
	seen := map[string]bool{}
	for _, r := range reports {
		id := r.OriginalResult.TestFunction.FunctionIdent
		v, ok := verdicts[id]
		x.Check("C10", ok && !seen[id], "report", "report for %q", id)
		seen[id] = true
		x.Check("C10", r.SameFieldCount == v.same && r.DiffFieldCount == v.diff && r.TestRegressionCount == v.regress, "verdict",
			"%s: %d same, %d different, %d regressions reported, but %d, %d and %d happened", id, r.SameFieldCount, r.DiffFieldCount, r.TestRegressionCount, v.same, v.diff, v.regress)
		got, want := map[string]string{}, map[string]string{}
		for c, fs := range r.CallerFieldChanges {
			for f, txt := range fs {
				got[c+" "+f] = txt
			}
		}
		for c, fs := range v.changes {
			for f, vs := range fs {
				want[c+" "+f] = "?"
				_ = vs
			}
		}
		for _, k := range keysOf(want) {
			_, ok := got[k]
			x.Check("C10", ok, "changes", "%s: change of %s is not reported", id, k)
		}
		for _, k := range keysOf(got) {
			_, ok := want[k]
			x.Check("C10", ok, "changes", "%s: %s is reported as changed and is not", id, k)
		}
	}
	x.Check("C10", len(seen) == len(verdicts), "report", "%d tests reported, %d ran", len(seen), len(verdicts))
	x.Check("C10", same == sumSame && diff == sumDiff, "totals", "totals are %d same and %d different, tests add up to %d and %d", same, diff, sumSame, sumDiff)
	if sumDiff > 0 {
		vsim.Probe("analysis.differences")
	}
	if sumSame > 0 {
		vsim.Probe("analysis.same")
	}
	_ = filepath.Join
}

func keysOf[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
