package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Results on their way through the stores: many results are written and read by
// several tasks at once, and what comes back is what was put in.

func init() {
	register(&Scenario{Name: "results", Props: []string{"C16"}, Quick: 16000, Run: resultsScenario})
}

// genFields draws nested fields from few names and values, so that shapes and
// values repeat.
func genFields(x *X, depth int) lens.FieldValues {
	if x.Pct(5) {
		return lens.FieldValues{}
	}
	out := lens.FieldValues{}
	for n := 1 + x.N(3); n > 0; n-- {
		name := []string{"a", "b", "c", "ret0", "err", "a.b", "a.", ".b"}[x.N(8)]
		if depth > 0 && x.Pct(35) {
			out[name] = &lens.FieldValue{Children: genFields(x, depth-1)}
			if len(out[name].Children) == 0 {
				out[name].Children = nil
			}
			continue
		}
		out[name] = &lens.FieldValue{Value: []string{"", "1", "2", "nil", "a long enough value", "another long enough value", "vsha1-xyz", "\x00\x01", "a"}[x.N(9)]}
	}
	return out
}

// shift returns the fields with one of them moved into the nested fields before
// it: another value made of the same names and leaves in the same order.
func shift(f lens.FieldValues) lens.FieldValues {
	ks := keysOf(f)
	for i := 0; i+1 < len(ks); i++ {
		v := f[ks[i]]
		if len(v.Children) == 0 {
			continue
		}
		kids := keysOf(v.Children)
		if kids[len(kids)-1] >= ks[i+1] {
			continue
		}
		out, in := lens.FieldValues{}, lens.FieldValues{}
		for k, c := range f {
			out[k] = c
		}
		for k, c := range v.Children {
			in[k] = c
		}
		in[ks[i+1]] = f[ks[i+1]]
		delete(out, ks[i+1])
		out[ks[i]] = &lens.FieldValue{Children: in}
		return out
	}
	return f
}

func genFrames(x *X, deep bool) map[string][]lens.CallFrame {
	out := map[string][]lens.CallFrame{}
	for n := x.N(4); n > 0; n-- {
		key := fmt.Sprintf("p:F%d", x.N(4))
		var fs []lens.CallFrame
		for k := x.N(4); k > 0; k-- {
			d := 2
			if !deep {
				d = 1
			}
			f := lens.CallFrame{FieldValues: genFields(x, d), TimeMillis: uint32(x.N(5))}
			if len(fs) > 0 && x.Pct(30) {
				f.FieldValues = shift(fs[len(fs)-1].FieldValues)
			}
			for s := 1 + x.N(3); s > 0; s-- {
				f.Stack = append(f.Stack, lens.StackFrame{File: []string{"./a.go", "./b.go", "m@v1/m.go"}[x.N(3)], Line: uint32(1 + x.N(3)), Function: []string{"F", "G"}[x.N(2)]})
			}
			fs = append(fs, f)
		}
		out[key] = fs
	}
	return out
}

func genPanics(x *X) map[string][]string {
	out := map[string][]string{}
	for n := x.N(3); n > 0; n-- {
		k := fmt.Sprintf("p:F%d", x.N(3))
		for m := 1 + x.N(3); m > 0; m-- {
			out[k] = append(out[k], []string{"boom", "", "index out of range"}[x.N(3)])
		}
	}
	return out
}

func nested(b *strings.Builder, f lens.FieldValues) {
	b.WriteByte('{')
	for _, k := range keysOf(f) {
		v := f[k]
		fmt.Fprintf(b, "%q:", k)
		if v == nil {
			b.WriteString("nil ")
		} else if len(v.Children) > 0 {
			nested(b, v.Children)
		} else {
			fmt.Fprintf(b, "%q ", v.Value)
		}
	}
	b.WriteByte('}')
}

// resultText is everything a result says.
func resultText(r *lens.TestResult) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s hit %d failed %v\n", r.TestFunction.FunctionIdent, r.TestFunction.FunctionName, r.ModuleChangesHit, r.TestFailure)
	for i, m := range []map[string][]lens.CallFrame{r.CallerResults, r.ExtensionFrames} {
		for _, k := range keysOf(m) {
			for _, f := range m[k] {
				fmt.Fprintf(&b, "%d %s %d ms ", i, k, f.TimeMillis)
				nested(&b, f.FieldValues)
				for _, s := range f.Stack {
					fmt.Fprintf(&b, " %s:%d:%s", s.File, s.Line, s.Function)
				}
				b.WriteByte('\n')
			}
			if len(m[k]) == 0 {
				fmt.Fprintf(&b, "%d %s none\n", i, k)
			}
		}
	}
	for i, m := range []map[string][]string{r.ProjectPanics, r.ModulePanics} {
		for _, k := range keysOf(m) {
			fmt.Fprintf(&b, "panic %d %s %q\n", i, k, m[k])
		}
	}
	return b.String()
}

func resultsScenario(x *X) {
	var st lens.Storage
	faulty := x.Pct(30)
	ss := newStore()
	switch x.N(3) {
	case 0:
		st = ss
		if faulty {
			ss.rate, ss.max = 100, 3
		}
	case 1:
		st = lens.NewMemStorage()
	default:
		b, err := lens.NewBadgerStorage(x.Dir("db"), 10)
		must(err)
		defer b.Close()
		st = b
	}
	views := []lens.Storage{lens.KeyPrefixStorage(st, "pre"), lens.KeyPrefixStorage(st, "post")}
	n := 1 + x.N(4)
	var rs [2][]*lens.TestResult
	for v := range views {
		for i := 0; i < n; i++ {
			r := &lens.TestResult{TestFunction: lens.MinimumTestFunction{FunctionIdent: fmt.Sprintf("p:Test%d", i), FunctionName: fmt.Sprintf("Test%d", i)},
				CallerResults: genFrames(x, true), ModuleChangesHit: x.N(3), TestFailure: x.Pct(20)}
			if x.Pct(30) {
				r.ExtensionFrames = genFrames(x, false)
			}
			if x.Pct(40) {
				r.ProjectPanics, r.ModulePanics = genPanics(x), genPanics(x)
			}
			rs[v] = append(rs[v], r)
		}
	}
	var fs []func()
	for v := range views {
		for i := 0; i < n; i++ {
			fs = append(fs, func() {
				r := rs[v][i]
				want := resultText(r)
				b, err := r.MarshalMsgpack()
				x.Check("C16", err == nil, "encode", "encoding failed: %v", err)
				x.Check("C16", resultText(r) == want, "changed", "encoding a result changed it")
				key := r.TestFunction.FunctionIdent
				if err := views[v].SaveState(key, b); err != nil {
					x.Check("C16", errors.Is(err, errStore), "error", "saving failed: %v", err)
					rs[v][i] = nil
					return
				}
				got, ok, err := views[v].LoadState(key)
				if err != nil {
					x.Check("C16", errors.Is(err, errStore), "error", "loading failed: %v", err)
					return
				}
				x.Check("C16", ok, "missing", "a saved result is not there")
				var q lens.TestResult
				err = q.UnmarshalMsgpack(got)
				x.Check("C16", err == nil, "decode", "a stored result cannot be decoded: %v", err)
				if g := resultText(&q); err == nil && g != want {
					wl, gl := strings.Split(want, "\n"), strings.Split(g, "\n")
					for k := range wl {
						if k >= len(gl) || gl[k] != wl[k] {
							l := ""
							if k < len(gl) {
								l = gl[k]
							}
							x.Check("C16", false, "differs", "recorded: %s; read back: %s", wl[k], l)
							break
						}
					}
					x.Check("C16", false, "differs", "a result read back has more than was recorded")
				}
			})
		}
	}
	parallel(fs...)
	settle(time.Minute)
	ss.rate = 0
	// comparing sees each pair
	d := &lens.DefaultTestResultAnalyzer{}
	both := 0
	var same, diff int
	for i := 0; i < n; i++ {
		if rs[1][i] != nil && rs[0][i] != nil {
			both++
			s, df := modelCompare(rs[0][i], rs[1][i])
			same += s
			diff += df
		}
	}
	gs, gd, reports, err := d.CompareTestResults(views[0], views[1], 4)
	x.Check("C16", err == nil, "compare", "comparing failed: %v", err)
	got := 0
	for _, r := range reports {
		if r.OriginalResult.TestFunction.FunctionIdent != "" {
			got++
		}
	}
	x.Check("C16", got == both, "compare", "%d tests compared, %d have both results", got, both)
	x.Check("C16", gs == same && gd == diff, "compare", "comparing found %d same and %d different, the results have %d and %d", gs, gd, same, diff)
	vsim.Probe("results.compared")
}

// modelCompare counts what two results have in common.
func modelCompare(pre, post *lens.TestResult) (same, diff int) {
	conv := func(r *lens.TestResult) *obs {
		o := &obs{frames: map[string][]xframe{}, panics: r.ProjectPanics, mpanics: r.ModulePanics, failed: r.TestFailure}
		for id, fs := range r.CallerResults {
			for _, f := range fs {
				pk, full := realStack(f.Stack)
				o.frames[id] = append(o.frames[id], xframe{key: pk, stack: full, fields: xfields(f.FieldValues)})
			}
		}
		return o
	}
	v := judge(conv(pre), conv(post))
	return v.same, v.diff
}

func xfields(f lens.FieldValues) map[string]*xfield {
	out := map[string]*xfield{}
	for k, v := range f {
		if len(v.Children) > 0 {
			out[k] = &xfield{kids: xfields(v.Children)}
		} else {
			out[k] = &xfield{leaf: v.Value}
		}
	}
	return out
}
