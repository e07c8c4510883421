package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vexec"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func init() {
	register(&Scenario{Name: "rolling", Props: []string{"C12"}, Quick: 40000, Run: rollingScenario})
	register(&Scenario{Name: "lockedbuffer", Props: []string{"C12"}, Quick: 16000, Run: lockedBufferScenario})
	register(&Scenario{Name: "tee", Props: []string{"C12"}, Quick: 40000, Run: teeScenario})
	register(&Scenario{Name: "captured-exec", Props: []string{"C12"}, Quick: 20000, Run: capturedExecScenario})
	components["C12"] = component{
		real:   []string{"rolling buffer, locked buffer, TeeWriter (lens/util_io.go), NewProjectCapturedOutputExec and ExecGoTest (lens/exec.go)"},
		stub:   []string{"os/exec: simulated processes writing through pipes that fragment at random", "the terminal: a sink that may fail"},
		assume: []string{"limits of at least 8 bytes"},
	}
}

// chunks draws a fragmented stream over the given alphabet.
func (x *X) chunks(n, maxLen int, alphabet string) []string {
	var out []string
	k := 0
	for i := 0; i < n; i++ {
		l := x.N(maxLen + 1)
		var b strings.Builder
		for j := 0; j < l; j++ {
			b.WriteByte(alphabet[(k*7+k/len(alphabet))%len(alphabet)])
			k++
		}
		out = append(out, b.String())
	}
	return out
}

const lower, upper = "\nabcdefghijklmnopqrstuvwxyz", " ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func checkRolling(x *X, limit int, total, got string) {
	x.Check("C12", len(got) <= limit, "bound", "capture of %d bytes exceeds its limit %d", len(got), limit)
	if len(total) <= limit {
		// may have been trimmed only if it did not fit at some time, and it always fitted
		x.Check("C12", got == total, "complete", "output of %d bytes fits into %d, but the capture is %s instead of %s", len(total), limit, clip(got), clip(total))
		return
	}
	vsim.Probe("rolling.trimmed")
	body := got
	if !strings.HasSuffix(total, body) {
		body = strings.TrimPrefix(got, "...")
	}
	x.Check("C12", strings.HasSuffix(total, body), "newest", "capture %s does not end with the newest output %s", clip(got), clip(total[max(0, len(total)-limit):]))
	x.Check("C12", len(body) >= limit/2, "newest", "only %d bytes of the newest output kept with a limit of %d", len(body), limit)
}

func rollingScenario(x *X) {
	limit := []int{8, 9, 16, 33, 64, 200}[x.N(6)]
	var buf bytes.Buffer
	w := lens.SimRolling(&buf, limit)
	var total strings.Builder
	cs := x.chunks(1+x.N(14), []int{3, limit / 2, limit, limit + 1, limit * 3}[x.N(5)], lower)
	x.Say("limit %d, %d writes", limit, len(cs))
	for _, c := range cs {
		b := []byte(c)
		n, err := w.Write(b)
		for i := range b {
			b[i] = '#'
		}
		total.WriteString(c)
		x.Check("C12", n == len(c) && err == nil, "accepts", "write of %d bytes returned %d, %v", len(c), n, err)
		checkRolling(x, limit, total.String(), buf.String())
	}
}

func lockedBufferScenario(x *X) {
	lb := lens.SimLockedBuffer()
	n := 2 + x.N(2)
	var fs []func()
	var want [][]string
	for i := 0; i < n; i++ {
		var ws []string
		for j, k := 0, 1+x.N(5); j < k; j++ {
			size := x.N(90)
			if x.Pct(10) { // a large write is whole too
				size = 300 + x.N(9000)
			}
			ws = append(ws, fmt.Sprintf("<%d.%d%s>", i, j, strings.Repeat("x", size)))
		}
		want = append(want, ws)
		fs = append(fs, func() {
			for _, w := range ws {
				b := []byte(w)
				n, err := lb.Write(b)
				x.Check("C12", n == len(w) && err == nil, "accepts", "write returned %d, %v", n, err)
				for i := range b {
					b[i] = '#'
				}
			}
		})
	}
	var snaps []string
	var views [][]byte
	fs = append(fs, func() {
		for i := 0; i < 3; i++ {
			v := lb.Bytes()
			views = append(views, v)
			snaps = append(snaps, string(v))
			x.Check("C12", lb.Len() >= len(v), "shrunk", "the capture shrank")
		}
	})
	x.Say("%d writers", n)
	parallel(fs...)
	got := lb.String()
	pos := make([]int, n)
	rest := got
	for rest != "" {
		ok := false
		for i := range want {
			if pos[i] < len(want[i]) && strings.HasPrefix(rest, want[i][pos[i]]) {
				rest = rest[len(want[i][pos[i]]):]
				pos[i]++
				ok = true
				break
			}
		}
		x.Check("C12", ok, "mixed", "capture is not a sequence of whole writes in order: %s", clip(got))
		if !ok {
			return
		}
	}
	for i := range want {
		x.Check("C12", pos[i] == len(want[i]), "lost", "writer %d: %d of %d writes captured", i, pos[i], len(want[i]))
	}
	for i, s := range snaps {
		x.Check("C12", strings.HasPrefix(got, s) && string(views[i]) == s, "view", "earlier content %s is not a prefix of %s", clip(s), clip(got))
	}
}

type simSink struct {
	got    strings.Builder
	failAt int // -1: never
	n      int
	short  bool
	closed int
	err    error // of its writes
	cerr   error // of its closing
}

func (s *simSink) Write(p []byte) (int, error) {
	vsim.Y()
	s.n++
	if s.failAt >= 0 && s.n > s.failAt {
		vsim.CountFault("sink_write_error")
		if s.short && len(p) > 0 {
			s.got.Write(p[:len(p)/2])
			return len(p) / 2, s.err
		}
		return 0, s.err
	}
	s.got.Write(p)
	return len(p), nil
}

type simCloser struct{ *simSink }

func (s simCloser) Close() error {
	s.closed++
	if s.cerr != nil {
		vsim.CountFault("sink_close_error")
	}
	return s.cerr
}

func teeScenario(x *X) {
	n := 1 + x.N(4)
	var sinks []*simSink
	var ws []io.Writer
	for i := 0; i < n; i++ {
		s := &simSink{failAt: -1, err: fmt.Errorf("sink %d failed", i)}
		if x.Pct(25) {
			s.failAt = x.N(4)
			s.short = x.Pct(50)
		}
		sinks = append(sinks, s)
		if x.Pct(15) {
			ws = append(ws, nil)
		}
		if x.Pct(40) {
			ws = append(ws, simCloser{s})
			s.closed = -100 // to become -99
			if x.Pct(20) {
				s.cerr = fmt.Errorf("sink %d failed to close", i)
			}
		} else {
			ws = append(ws, s)
		}
	}
	t := lens.TeeWriter(ws...)
	cs := x.chunks(1+x.N(6), 40, lower)
	x.Say("%d sinks, %d writes", n, len(cs))
	var total strings.Builder
	for k, c := range cs {
		m, err := t.Write([]byte(c))
		total.WriteString(c)
		bad := false
		for _, s := range sinks {
			x.Check("C12", s.n == k+1, "starved", "a sink saw %d of %d writes", s.n, k+1)
			if s.failAt >= 0 && k >= s.failAt {
				bad = true
				x.Check("C12", errors.Is(err, s.err), "silent", "a sink failed (%v), but write returned %v", s.err, err)
			} else {
				x.Check("C12", s.got.String() == total.String(), "bytes", "sink got %s instead of %s", clip(s.got.String()), clip(total.String()))
			}
		}
		if !bad {
			x.Check("C12", err == nil && m == len(c), "accepts", "all sinks took the write, but it returned %d, %v", m, err)
		}
	}
	err := t.Close()
	bad := false
	for _, s := range sinks {
		bad = bad || s.cerr != nil
		x.Check("C12", s.cerr == nil || errors.Is(err, s.cerr), "close", "a sink was not closed (%v), but close returned %v", s.cerr, err)
		x.Check("C12", s.closed == 0 || s.closed == -99, "close", "a closable sink was closed %d times", s.closed+100)
	}
	x.Check("C12", bad || err == nil, "close", "close failed: %v", err)
}

func capturedExecScenario(x *X) {
	out := x.chunks(1+x.N(5), []int{5, 60, 9000}[x.N(3)], lower)
	errs := x.chunks(x.N(5), []int{5, 60, 9000}[x.N(3)], upper)
	code := []int{0, 0, 1, 137}[x.N(4)]
	mode := x.N(2)
	limit := 8192
	vexec.SimSetHook(func(c *vexec.Cmd) (vexec.SimProg, error) {
		return func(p *vexec.SimProc) int {
			done := 0
			vsim.GoIn(p.Proc, "stderr", func() {
				for _, c := range errs {
					_, _ = io.WriteString(p.Stderr, c)
				}
				done++
			})
			for _, c := range out {
				_, _ = io.WriteString(p.Stdout, c)
				vsim.Sleep(time.Millisecond)
			}
			vsim.Block("stderr done", func() bool { return done == 1 })
			return code
		}, nil
	})
	x.Say("mode %d, %d+%d writes, exit %d", mode, len(out), len(errs), code)
	allOut, allErr := strings.Join(out, ""), strings.Join(errs, "")
	filter := func(s, alphabet string) string {
		return strings.Map(func(r rune) rune {
			if strings.ContainsRune(alphabet, r) {
				return r
			}
			return -1
		}, s)
	}
	if mode == 0 {
		b, err := lens.NewProjectCapturedOutputExec(x.Dir("p"), nil, "go", "version")
		x.Check("C12", (err == nil) == (code == 0), "status", "exit code %d, error %v", code, err)
		got := string(b)
		x.Check("C12", filter(got, lower) == allOut && filter(got, upper) == allErr && len(got) == len(allOut)+len(allErr), "complete",
			"captured %s; stdout was %s, stderr %s", clip(got), clip(allOut), clip(allErr))
		return
	}
	var buf bytes.Buffer
	err := lens.ExecGoTest(x.Dir("p"), nil, lens.SimRolling(&buf, limit), &lens.TestFunction{})
	x.Check("C12", (err == nil) == (code == 0), "status", "exit code %d, error %v", code, err)
	got := buf.String()
	x.Check("C12", len(got) <= limit, "bound", "%d bytes captured", len(got))
	if len(allOut)+len(allErr) <= limit {
		x.Check("C12", filter(got, lower) == allOut && filter(got, upper) == allErr, "complete", "captured %s; stdout was %s, stderr %s", clip(got), clip(allOut), clip(allErr))
	} else {
		x.Check("C12", strings.HasSuffix(allOut, filter(got, lower)) && strings.HasSuffix(allErr, filter(got, upper)), "newest", "captured %s is not the newest output", clip(got))
	}
}
