package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
	"github.com/PatchLens/go-update-lens/zzverif/vtime"
)

// Writing reports: what is on disk afterwards is what was found.

func init() {
	components["C15"] = component{
		real:   []string{"DefaultReportWriter, PrepareReportData, BuildReportMap, WriteToFile, chart rendering (lens/report.go, engine.go)", "encoding/json, the chart library"},
		stub:   []string{"os and the clock: the simulator (files are real, in a scratch directory)", "map iteration order: drawn by the simulator"},
		assume: []string{"texts in results are valid UTF-8"},
	}
	register(&Scenario{Name: "report", Props: []string{"C15"}, Quick: 2500, Stall: []int{0}, Run: reportScenario})
}

type repIn struct {
	took                       [4]time.Duration
	changed                    []*lens.ModuleChange
	checked                    []string
	nfuncs, reached, untracked int
	reach                      int // changed functions the project reaches
	checks                     int
	callers                    []*lens.CallerFunction
	tests                      []*lens.TestFunction
	same, diff                 int
	reports                    []lens.TestReport
	mut                        lens.MutationResult
	start                      time.Time
}

func genReport(x *X) *repIn {
	r := &repIn{nfuncs: x.N(30), reached: x.N(10), untracked: x.N(4), checks: x.N(5000), same: x.N(3000), diff: x.N(50),
		mut: lens.MutationResult{MutationCount: x.N(40), SquashedCount: x.N(40)}}
	for i := range r.took {
		r.took[i] = time.Duration(x.N(100000)) * time.Millisecond
	}
	for n := 1 + x.N(3); n > 0; n-- {
		r.changed = append(r.changed, &lens.ModuleChange{Name: fmt.Sprintf("example.com/m%d", n), PriorVersion: fmt.Sprintf("v1.%d.0", x.N(3)), NewVersion: fmt.Sprintf("v1.%d.0", 3+x.N(3)), Indirect: x.Pct(50)})
	}
	for n := x.N(4); n > 0; n-- {
		r.checked = append(r.checked, fmt.Sprintf("example.com/m%d", n))
	}
	sort.Strings(r.checked)
	var fns []*lens.ModuleFunction
	for i := 0; i < x.N(6); i++ {
		fns = append(fns, &lens.ModuleFunction{Function: lens.Function{FunctionIdent: fmt.Sprintf("example.com/m1:G%d", i)}})
	}
	for n := x.N(5); n > 0; n-- {
		c := &lens.CallerFunction{Function: lens.Function{FunctionIdent: fmt.Sprintf("example.com/app:F%d", x.N(6))}}
		for _, f := range fns {
			if x.Pct(40) {
				c.ChangeFunctions = append(c.ChangeFunctions, f)
			}
		}
		r.callers = append(r.callers, c)
	}
	val := func() string {
		return []string{"-1\n+2\n", "  \t'a'\n!=\n\t'b'", "", "<VALUE TOO LARGE ...abcd> != \"x\"", "@@ -1 +1 @@\n-ä\n+ö <&>\n"}[x.N(5)]
	}
	many := x.N(6)
	if x.Pct(25) {
		many = 10 + x.N(8)
	}
	for n := many; n > 0; n-- {
		name := fmt.Sprintf("Test%d", n*7%5)
		if x.Pct(20) {
			name = lens.GeneratedTestFunctionPrefix + fmt.Sprint(n)
		}
		ident := fmt.Sprintf("example.com/app/p%d:%s#%d", x.N(2), name, n)
		r.tests = append(r.tests, &lens.TestFunction{Function: lens.Function{FunctionIdent: ident, FunctionName: name}})
		if x.Pct(15) {
			continue
		}
		tr := lens.TestReport{
			OriginalResult:   lens.TestResult{TestFunction: lens.MinimumTestFunction{FunctionIdent: ident, FunctionName: name}, TestFailure: x.Pct(20), ModuleChangesHit: x.N(5)},
			PostUpdateResult: lens.TestResult{TestFunction: lens.MinimumTestFunction{FunctionIdent: ident, FunctionName: name}, TestFailure: x.Pct(20), ModuleChangesHit: 5 + x.N(5)},
			SameFieldCount:   x.N(100), DiffFieldCount: x.N(5),
			CallerFieldChanges: map[string]map[string]string{}, CallerTimeChanges: map[string]lens.PerformanceTimeChange{},
		}
		for m := x.N(5); m > 0; m-- {
			id := fmt.Sprintf("example.com/app:F%d", x.N(6))
			tr.CallerFieldChanges[id] = map[string]string{}
			for k := x.N(4); k > 0; k-- {
				tr.CallerFieldChanges[id][fmt.Sprintf("ret%d.a", k)] = val()
			}
		}
		for m := x.N(5); m > 0; m-- {
			pre, post := uint32(x.N(3000)), uint32(x.N(3000))
			tr.CallerTimeChanges[fmt.Sprintf("example.com/app:F%d", x.N(6))] = lens.PerformanceTimeChange{TimeDiff: time.Duration(int64(post)-int64(pre)) * time.Millisecond, PreTimeMs: pre, PostTimeMs: post}
		}
		r.reports = append(r.reports, tr)
	}
	reach := map[string]bool{}
	for _, c := range r.callers {
		for _, f := range c.ChangeFunctions {
			reach[f.FunctionIdent] = true
		}
	}
	r.reach = len(reach)
	r.nfuncs += r.reach
	r.mut.SquashedCount = min(r.mut.SquashedCount, r.mut.MutationCount)
	if x.Pct(20) { // nearly all
		r.mut = lens.MutationResult{MutationCount: 4000, SquashedCount: 4000 - x.N(3)}
		r.same, r.diff = 5000, x.N(4)
	}
	return r
}

func (r *repIn) write(json, chart string, reports []lens.TestReport) error {
	return (&lens.DefaultReportWriter{}).WriteReportFiles(json, chart, r.start, r.took[0], r.took[1], r.took[2], r.took[3], r.changed, r.checked,
		r.nfuncs, r.reached, r.untracked, r.checks, r.callers, r.tests, r.same, r.diff, reports, r.mut)
}

// copyReports gives the writer its own copy, as it sorts and trims what it gets.
func copyReports(in []lens.TestReport) []lens.TestReport {
	var out []lens.TestReport
	for _, t := range in {
		c := t
		c.CallerFieldChanges = map[string]map[string]string{}
		for k, m := range t.CallerFieldChanges {
			n := map[string]string{}
			for f, v := range m {
				n[f] = v
			}
			c.CallerFieldChanges[k] = n
		}
		c.CallerTimeChanges = map[string]lens.PerformanceTimeChange{}
		for k, v := range t.CallerTimeChanges {
			c.CallerTimeChanges[k] = v
		}
		out = append(out, c)
	}
	return out
}

// model is what the report has to say, in the form JSON decoding gives.
func (r *repIn) model() map[string]any {
	set := func(f func(add func(string))) []any {
		m := map[string]bool{}
		f(func(s string) { m[s] = true })
		out := []any{}
		for _, k := range keysOf(m) {
			out = append(out, k)
		}
		return out
	}
	n := func(i int) any { return float64(i) }
	ms := func(d time.Duration) any { return float64(d / time.Millisecond) }
	var root lens.ModuleChange
	direct := 0
	for _, m := range r.changed {
		if len(r.changed) == 1 || !m.Indirect {
			direct++
			root = *m
		}
	}
	if direct != 1 {
		root = lens.ModuleChange{}
	}
	gen := 0
	var tests []string
	for _, t := range r.tests {
		if strings.HasPrefix(t.FunctionName, lens.GeneratedTestFunctionPrefix) {
			gen++
		}
		tests = append(tests, t.FunctionIdent)
	}
	sort.Strings(tests)
	reach := set(func(add func(string)) {
		for _, c := range r.callers {
			for _, f := range c.ChangeFunctions {
				add(f.FunctionIdent)
			}
		}
	})
	callers := set(func(add func(string)) {
		for _, c := range r.callers {
			add(c.FunctionIdent)
		}
	})
	strs := func(l []string) []any {
		out := []any{}
		for _, s := range l {
			out = append(out, s)
		}
		return out
	}
	reps := append([]lens.TestReport(nil), r.reports...)
	sort.SliceStable(reps, func(i, j int) bool {
		return reps[i].OriginalResult.TestFunction.FunctionIdent < reps[j].OriginalResult.TestFunction.FunctionIdent
	})
	details, perf := []any{}, []any{}
	for _, t := range reps {
		f := t.OriginalResult.TestFunction
		ch := map[string]any{}
		for c, m := range t.CallerFieldChanges {
			o := map[string]any{}
			for k, v := range m {
				o[k] = strings.TrimSpace(v)
			}
			ch[c] = o
		}
		details = append(details, map[string]any{"test_function_ident": f.FunctionIdent, "test_function_name": f.FunctionName, "baseline_failure": t.OriginalResult.TestFailure,
			"pass_regression": !t.OriginalResult.TestFailure && t.PostUpdateResult.TestFailure, "diff_field_count": n(t.DiffFieldCount),
			"module_change_hit_count": n(t.OriginalResult.ModuleChangesHit), "field_changes": ch})
		for _, c := range keysOf(t.CallerTimeChanges) {
			p := t.CallerTimeChanges[c]
			perf = append(perf, map[string]any{"test_function_ident": f.FunctionIdent, "test_function_name": f.FunctionName, "caller_ident": c,
				"time_diff_ms": ms(p.TimeDiff), "pre_time_ms": n(int(p.PreTimeMs)), "post_time_ms": n(int(p.PostTimeMs))})
		}
	}
	return map[string]any{
		"analysis_ms": ms(r.took[0]), "test_discovery_ms": ms(r.took[1]), "field_check_ms": ms(r.took[2]), "mutation_ms": ms(r.took[3]),
		"module": map[string]any{"root_module_name": root.Name, "root_module_start_version": root.PriorVersion, "root_module_update_version": root.NewVersion,
			"changed_modules": strs(r.checked), "changed_module_count": n(len(r.checked)), "changed_function_count": n(r.nfuncs),
			"reachable_changed_functions": reach, "reachable_changed_function_count": n(len(reach)), "untracked_module_function_count": n(r.untracked)},
		"validation": map[string]any{"relevant_project_functions": callers, "relevant_project_function_count": n(len(callers)),
			"relevant_test_functions": strs(tests), "relevant_test_function_count": n(len(tests)), "project_field_check_point_count": n(r.checks),
			"module_change_hit_in_test_count": n(r.reached), "test_field_match_count": n(r.same), "test_field_diff_count": n(r.diff),
			"generated_test_function_count": n(gen), "mutation_count": n(r.mut.MutationCount), "mutations_squashed": n(r.mut.SquashedCount),
			"performance_changes": perf, "test_details": details},
	}
}

// jdiff finds the first difference; lists at the paths in bag may be in any order.
func jdiff(path string, want, got any, bag map[string]bool) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok && len(w) > 0 {
			return fmt.Sprintf("%s is %v", path, got)
		}
		for _, k := range keysOf(w) {
			if _, ok := g[k]; !ok {
				return path + "." + k + " is missing"
			}
			if d := jdiff(path+"."+k, w[k], g[k], bag); d != "" {
				return d
			}
		}
		for _, k := range keysOf(g) {
			if _, ok := w[k]; !ok && path != "" {
				return path + "." + k + " is extra"
			}
		}
	case []any:
		g, _ := got.([]any)
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d entries, want %d", path, len(g), len(w))
		}
		if bag[path] {
			key := func(v any) string { b, _ := json.Marshal(v); return string(b) }
			g, w = append([]any(nil), g...), append([]any(nil), w...)
			sort.Slice(g, func(i, j int) bool { return key(g[i]) < key(g[j]) })
			sort.Slice(w, func(i, j int) bool { return key(w[i]) < key(w[j]) })
		}
		for i := range w {
			if d := jdiff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i], bag); d != "" {
				return d
			}
		}
	default:
		if want != got {
			return fmt.Sprintf("%s is %v, want %v", path, got, want)
		}
	}
	return ""
}

func chartOK(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "does not exist"
	}
	if strings.HasSuffix(path, ".svg") {
		d := xml.NewDecoder(bytes.NewReader(b))
		n := 0
		for {
			t, err := d.Token()
			if err == io.EOF {
				break
			}
			if err != nil {
				return "is not a complete image: " + err.Error()
			}
			if _, ok := t.(xml.StartElement); ok {
				n++
			}
		}
		if n < 10 || !bytes.HasPrefix(bytes.TrimSpace(b), []byte("<svg")) || !bytes.HasSuffix(bytes.TrimSpace(b), []byte("</svg>")) {
			return "is not a complete image"
		}
		return ""
	}
	if _, _, err := image.Decode(bytes.NewReader(b)); err != nil {
		return "is not a complete image: " + err.Error()
	}
	return ""
}

// chartTexts are the texts of a chart in the order they were drawn.
func chartTexts(path string) []string {
	b, err := os.ReadFile(path)
	must(err)
	d := xml.NewDecoder(bytes.NewReader(b))
	var out []string
	in := false
	for {
		t, err := d.Token()
		if err != nil {
			return out
		}
		switch e := t.(type) {
		case xml.StartElement:
			if in = e.Name.Local == "text"; in {
				out = append(out, "")
			}
		case xml.EndElement:
			in = false
		case xml.CharData:
			if in {
				out[len(out)-1] += string(e)
			}
		}
	}
}

// checkChart compares what a chart says to the results: its percentages, and
// the tests it calls risky with what happened to them, the worst first.
func (r *repIn) checkChart(x *X, path string) {
	texts := chartTexts(path)
	at := func(title string) int {
		for i, t := range texts {
			if strings.HasPrefix(t, title) {
				return i
			}
		}
		x.Check("C15", false, "chart", "the chart has no %q", title)
		return 0
	}
	label := func(title string) string {
		for _, t := range texts[at(title)+1:] {
			if strings.Contains(t, "%") || t == "" || strings.ContainsAny(t[:1], "NnI") {
				return t
			}
		}
		return ""
	}
	share := func(title string, part, of int) {
		l := label(title)
		if of == 0 {
			x.Check("C15", !strings.Contains(l, "NaN") && !strings.Contains(l, "Inf"), "chart", "the chart says %s is %q of nothing", title, l)
			return
		}
		var got float64
		_, err := fmt.Sscanf(strings.ReplaceAll(l, ",", ""), "%g%%", &got)
		d := got - 100*float64(part)/float64(of)
		x.Check("C15", err == nil && d < 0.11 && d > -0.11 && (got == 100) == (part == of), "chart", "the chart says %s is %q, it is %d of %d", title, l, part, of)
	}
	share("Module Change Impact", r.reach, r.nfuncs)
	share("Field Stability", r.same, r.same+r.diff)
	share("Mutations Squashed", r.mut.SquashedCount, r.mut.MutationCount)
	pre, post := 0, 0
	type risky struct {
		name, status  string
		gen, diff, rk int
	}
	var want []risky
	for _, t := range r.reports {
		for _, c := range t.CallerTimeChanges {
			pre, post = pre+int(c.PreTimeMs), post+int(c.PostTimeMs)
		}
		w := risky{t.OriginalResult.TestFunction.FunctionName, "Pass", 0, t.DiffFieldCount, 1}
		if t.OriginalResult.TestFailure {
			w.status = "Baseline FAIL"
		} else if t.PostUpdateResult.TestFailure {
			w.status, w.rk = "FAIL", 0
		} else if t.DiffFieldCount == 0 {
			continue
		}
		if t.OriginalResult.TestFailure && t.DiffFieldCount == 0 {
			continue
		}
		if strings.HasPrefix(w.name, lens.GeneratedTestFunctionPrefix) {
			w.gen = 1
		}
		want = append(want, w)
	}
	if l := label("Performance Change"); pre > 0 {
		var got float64
		_, err := fmt.Sscanf(strings.ReplaceAll(l, ",", ""), "%g%%", &got)
		d := got - 100*float64(max(pre, post)-min(pre, post))/float64(pre)
		word := "faster"
		if post > pre {
			word = "slower"
		}
		x.Check("C15", err == nil && d < 0.11 && d > -0.11 && strings.Contains(l, word), "chart", "the chart says %q, the calls took %d ms before and %d ms after", l, pre, post)
	}
	squeeze := func(s string) string { return strings.Join(strings.Fields(s), "") }
	if len(want) == 0 {
		at("No Risky Tests")
		for _, t := range texts {
			x.Check("C15", t != "Risky Tests", "chart", "the chart lists risky tests, there are none")
		}
		return
	}
	vsim.Probe("report.risky")
	from := at("Risky Tests") + 1
	for i := from; i < len(texts); i++ {
		if strings.Contains(texts[i], "@") { // the title comes last
			texts = texts[:i]
			break
		}
	}
	rest := squeeze(strings.Join(texts[from:], ""))
	key := func(w risky) [3]int { return [3]int{w.gen, w.rk, -w.diff} }
	less := func(a, b [3]int) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	sort.SliceStable(want, func(i, j int) bool { return less(key(want[i]), key(want[j])) })
	shown := min(10, len(want))
	used := make([]bool, len(want))
	for n := 0; n < shown; n++ { // each row is one of the tests that are equally bad
		best, pos := -1, len(rest)
		for i, w := range want {
			if used[i] || key(w) != key(want[n]) {
				continue
			}
			if p := strings.Index(rest, squeeze(w.name+w.status+fmt.Sprint(w.diff))); p >= 0 && p < pos {
				best, pos = i, p
			}
		}
		w := want[n]
		x.Check("C15", best >= 0, "chart", "the chart does not list %s (%s, %d fields changed) as row %d of the risky tests", w.name, w.status, w.diff, n+1)
		used[best] = true
		rest = rest[pos+len(squeeze(want[best].name)):]
	}
	for i, w := range want {
		if !used[i] {
			dup := false
			for j := range want {
				dup = dup || used[j] && want[j].name == w.name
			}
			x.Check("C15", dup || !strings.Contains(rest, squeeze(w.name+w.status)), "chart", "the chart lists more than ten risky tests")
		}
	}
}

func reportScenario(x *X) {
	r := genReport(x)
	vsim.Sleep(time.Duration(x.N(5000)) * time.Millisecond)
	r.start = vtime.Now()
	vsim.Sleep(time.Duration(x.N(5000)) * time.Millisecond)
	jf, cf := filepath.Join(x.Dir("out"), "r.json"), x.Path("out", "r.svg")
	if x.Pct(2) {
		cf = x.Path("out", []string{"r.png", "r.jpg"}[x.N(2)])
	}
	if x.Pct(50) { // an old report is in the way
		must(os.WriteFile(jf, []byte("{\"old\": \""+strings.Repeat("x", 20000)+"\"}"), 0o644))
		must(os.WriteFile(cf, bytes.Repeat([]byte("old"), 50000), 0o644))
	}
	if x.Pct(5) {
		jf = ""
	}
	if x.Pct(3) {
		must(os.RemoveAll(x.Path("out")))
	}
	if x.Pct(50) {
		x.fsFaults([]int{60, 300}[x.N(2)], 1+x.N(2), nil)
	}
	given := copyReports(r.reports)
	err := r.write(jf, cf, given)
	took := vtime.Now().Sub(r.start)
	faults := vsim.FSFaults()
	x.noFaults()
	x.Say("%d tests, %d reports, error %v", len(r.tests), len(r.reports), err)
	x.Check("C15", faults == 0 || err != nil, "fault", "a file operation failed (%v) and writing the report returned success", vsim.W.FSFaulted)
	if err != nil {
		_, e := os.Stat(x.Path("out"))
		x.Check("C15", faults > 0 || e != nil, "error", "nothing went wrong and writing the report failed: %v", err)
		vsim.Probe("report.failed")
		return
	}
	d := chartOK(cf)
	x.Check("C15", d == "", "chart", "writing succeeded and the chart %s", d)
	if strings.HasSuffix(cf, ".svg") {
		r.checkChart(x, cf)
	}
	if jf == "" {
		return
	}
	b, e := os.ReadFile(jf)
	x.Check("C15", e == nil, "missing", "writing succeeded and there is no report")
	var got map[string]any
	e = json.Unmarshal(b, &got)
	x.Check("C15", e == nil, "json", "writing succeeded and the report is not complete JSON: %v", e)
	bag := map[string]bool{".validation.performance_changes": true}
	d = jdiff("", r.model(), got, bag)
	x.Check("C15", d == "", "content", "the report differs from what was found: %s", d)
	at, _ := got["generated_at"].(string)
	t, e := time.Parse(time.RFC3339Nano, at)
	x.Check("C15", e == nil && t.Equal(r.start), "content", "the report says it was generated at %s", at)
	ms, _ := got["run_ms"].(float64)
	x.Check("C15", int64(ms) == took.Milliseconds(), "content", "the report says the run took %v ms, it took %d", ms, took.Milliseconds())
	vsim.Probe("report.written")

	// once more, with the results in another order
	again := copyReports(r.reports)
	for i := len(again) - 1; i > 0; i-- {
		j := x.N(i + 1)
		again[i], again[j] = again[j], again[i]
	}
	cb, e := os.ReadFile(cf)
	must(e)
	err = r.write(jf, cf, again)
	x.Check("C15", err == nil, "error", "writing the same report again failed: %v", err)
	b2, _ := os.ReadFile(jf)
	if !bytes.Equal(b, b2) {
		var g2 map[string]any
		_ = json.Unmarshal(b2, &g2)
		x.Check("C15", false, "order", "the same results give two different reports: %s", jdiff("", got, g2, nil))
	}
	cb2, _ := os.ReadFile(cf)
	x.Check("C15", bytes.Equal(cb, cb2), "order", "the same results give two different charts")

	// the chart made from the report
	if x.Pct(2) {
		var m lens.ReportMetrics
		must(json.Unmarshal(b, &m))
		img, err := lens.RenderReportChartsFromJson(m)
		x.Check("C15", err == nil, "chart", "no chart can be made from the report: %v", err)
		_, _, err = image.Decode(bytes.NewReader(img))
		x.Check("C15", err == nil, "chart", "the chart made from the report is no image: %v", err)
	}
}
