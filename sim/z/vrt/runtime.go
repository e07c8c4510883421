// Package vrt stands in for the parts of runtime that depend on the machine or
// on real stacks.
package vrt

import (
	"runtime"
	"strings"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func NumCPU() int {
	if vsim.W == nil {
		return 2
	}
	return vsim.W.NumCPU()
}

func GOMAXPROCS(n int) int { return NumCPU() }
func Gosched()             { vsim.Y() }

// frames: real frames down to the simulated instrumented function, then the
// simulated stack of the task.
func frames() []runtime.Frame {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs) // from vrt.Callers
	it := runtime.CallersFrames(pcs[:n])
	var out []runtime.Frame
	for {
		f, more := it.Next()
		if i := strings.LastIndex(f.Function, "/vclient.Send"); i >= 0 {
			break
		}
		out = append(out, f)
		if !more {
			break
		}
	}
	for _, s := range vsim.Cur().Stack {
		out = append(out, runtime.Frame{PC: 1, File: s.File, Function: s.Function, Line: s.Line})
	}
	return out
}

func simulated() bool {
	t := vsim.Cur()
	return t != nil && len(t.Stack) > 0
}

// Callers: entry 0 is Callers itself, as in the original.
func Callers(skip int, pc []uintptr) int {
	if !simulated() {
		return runtime.Callers(skip+1, pc)
	}
	fs := frames()
	if skip > len(fs) {
		return 0
	}
	fs = fs[skip:]
	w := vsim.W
	tab, _ := w.Vals["frames"].([]runtime.Frame)
	n := 0
	for n < len(fs) && n < len(pc) {
		tab = append(tab, fs[n])
		pc[n] = uintptr(len(tab))
		n++
	}
	w.Vals["frames"] = tab
	return n
}

type Frames struct {
	real *runtime.Frames
	fs   []runtime.Frame
}

func CallersFrames(callers []uintptr) *Frames {
	if !simulated() {
		return &Frames{real: runtime.CallersFrames(callers)}
	}
	tab, _ := vsim.W.Vals["frames"].([]runtime.Frame)
	f := &Frames{}
	for _, pc := range callers {
		if pc > 0 && int(pc) <= len(tab) {
			f.fs = append(f.fs, tab[pc-1])
		}
	}
	return f
}

func (f *Frames) Next() (runtime.Frame, bool) {
	if f.real != nil {
		return f.real.Next()
	}
	if len(f.fs) == 0 {
		return runtime.Frame{}, false
	}
	x := f.fs[0]
	f.fs = f.fs[1:]
	return x, len(f.fs) > 0
}

func Caller(skip int) (uintptr, string, int, bool) {
	if !simulated() {
		return runtime.Caller(skip + 1)
	}
	fs := frames()
	if skip+1 >= len(fs) {
		return 0, "", 0, false
	}
	return 1, fs[skip+1].File, fs[skip+1].Line, true
}
