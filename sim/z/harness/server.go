package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vclient"
	"github.com/PatchLens/go-update-lens/zzverif/vctx"
	"github.com/PatchLens/go-update-lens/zzverif/vexec"
	"github.com/PatchLens/go-update-lens/zzverif/vhttp"
	"github.com/PatchLens/go-update-lens/zzverif/vnet"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func init() {
	register(&Scenario{Name: "monitor", Props: []string{"C02"}, Quick: 8000, Run: monitorScenario})
	register(&Scenario{Name: "wire", Props: []string{"C03"}, Quick: 20000, Run: wireScenario})
	register(&Scenario{Name: "damage", Props: []string{"C03"}, Quick: 16000, Steps: 100_000_000, Run: damageScenario})
	register(&Scenario{Name: "serverstart", Props: []string{"C14"}, Quick: 20000, Warp: []int{0, 20, 60}, Run: serverStartScenario})
	register(&Scenario{Name: "serverstop", Props: []string{"C14"}, Quick: 20000, Stall: []int{0}, Run: serverStopScenario})
	components["C02"] = component{
		real:   []string{"client, server, decoder and test monitor (lens/astclient.go, astsrv.go, astexec.go)", "in whole analyses also instrumentation, storage views and result encoding"},
		stub:   []string{"net/http transport and listener, processes, clock, sync: the simulator", "test binaries: an interpreter of the instrumented Go sources that calls the real client"},
		assume: []string{"a message counts as acknowledged when the server answered it with status 200"},
	}
	components["C03"] = component{
		real:   []string{"client encoder and server decoder with their HTTP handlers (lens/astclient.go, astsrv.go)"},
		stub:   []string{"net/http transport: the simulator fragments, cuts and damages bodies"},
		assume: []string{"allocation is measured by the Go runtime while one message is decoded"},
	}
	components["C14"] = component{
		real:   []string{"astExecServerStart, StopOnProcessOrTimeout, Stop (lens/astsrv.go)"},
		stub:   []string{"net/http listener and shutdown, kill(2), clock: the simulator"},
		assume: []string{"http.Server.Shutdown closes listeners first and then waits for handlers until its context ends"},
	}
}

// rig is a server with simulated client processes.
type rig struct {
	x      *X
	net    *vhttp.SimNet
	consts map[string]int
	port   int
	sents  []*sent
	order  int
}

func newRig(x *X) *rig {
	r := &rig{x: x, net: &vhttp.SimNet{Latency: time.Duration(x.N(3)) * time.Millisecond}, port: 9300,
		consts: map[string]int{"lensMonitorServerPort": 1, "lensMonitorFieldMaxLen": 1024, "lensMonitorFieldMaxRecurse": 100}}
	if x.Pct(40) {
		r.consts["lensMonitorFieldMaxLen"] = 4 + x.N(60)
	}
	if x.Pct(40) {
		r.consts["lensMonitorFieldMaxRecurse"] = 1 + x.N(4)
	}
	follow(r.net)
	vhttp.SimSetNet(r.net)
	return r
}

func (r *rig) proc(name string) *vsim.Proc {
	return vsim.NewProc(name, []string{fmt.Sprintf("LENS_MONITOR_PORT=%d", r.port)}, r.consts)
}

// send hands one message to the client of the current process.
func (r *rig) send(s *sent) {
	t := vsim.Cur()
	s.task, s.at = t.ID, vsim.Now()
	r.order++
	s.seq = r.order
	s.stack = append([]vsim.Frame(nil), t.Stack...)
	r.sents = append(r.sents, s)
	old := t.Data
	t.Data = s
	switch s.kind {
	case "point":
		vclient.SendPoint(s.id)
	case "panic":
		vclient.SendPanic(s.id, s.vals[0])
	default:
		vclient.SendState(s.id, s.names, s.vals)
	}
	t.Data = old
	s.returned = true
}

func frameFor(i int) vsim.Frame {
	return vsim.Frame{File: fmt.Sprintf("/w/proj/p%d/a.go", i%3), Function: fmt.Sprintf("example.com/app/p%d.F%d", i%3, i), Line: 10 + i}
}

func monitorScenario(x *X) {
	r := newRig(x)
	r.net.Fragments = x.Pct(40)
	if x.Pct(50) {
		r.net.Lose, r.net.LoseResp, r.net.Cut = x.N(2)*100, x.N(2)*100, x.N(2)*100
		r.net.Stall, r.net.StallFor = x.N(2)*60, time.Duration(1+x.N(14))*time.Second
	}
	nf := 1 + x.N(4)
	owner := map[uint32]string{} // point -> function
	kind := map[uint32]string{}
	maps := map[string]map[uint32]*string{"state": {}, "panic": {}, "point": {}, "mpanic": {}, "ext": {}}
	id := uint32(0)
	for i := 0; i < nf; i++ {
		name := fmt.Sprintf("example.com/app/p%d.F%d", i%3, i)
		for k := 0; k < 1+x.N(3); k++ {
			id++
			what := []string{"state", "state", "ext", "panic", "point", "mpanic"}[x.N(6)]
			n := name
			if what == "ext" {
				n = "ext:" + name
			}
			owner[id], kind[id] = n, what
			maps[what][id] = &n
		}
	}
	mon := lens.SimNewMonitor("/gopath", "/w/proj", maps["state"], maps["panic"], maps["point"], maps["mpanic"], maps["ext"])
	srv, err := lens.SimServerStart(r.port, mon.Handler(), r.consts["lensMonitorFieldMaxLen"])
	if err != nil {
		return
	}
	unknown := x.Pct(40)
	np, done, tasks := 1+x.N(2), 0, 0
	serial := 0
	for p := 0; p < np; p++ {
		proc := r.proc(fmt.Sprintf("client%d", p))
		for g := 0; g < 1+x.N(3); g++ {
			tasks++
			var msgs []*sent
			for i := 0; i < 1+x.N(4); i++ {
				s := &sent{id: uint32(1 + x.N(int(id)))}
				s.kind = kind[s.id]
				if unknown && x.Pct(30) {
					s.id = id + 1 + uint32(x.N(3))
					s.kind = []string{"state", "point", "panic"}[x.N(3)]
				}
				serial++
				switch s.kind {
				case "mpanic":
					s.kind = "panic"
					fallthrough
				case "panic":
					s.vals = []any{fmt.Sprintf("boom %d", serial)}
				case "ext":
					s.kind = "state"
					fallthrough
				case "state":
					s.names = []string{"serial", "v"}
					s.vals = []any{serial, genValue(x, 0)}
					if x.Pct(20) {
						s.names, s.vals = append(s.names, "nil"), append(s.vals, 1)
					}
					s.fields = refFields(r.consts, s.names, s.vals)
				}
				msgs = append(msgs, s)
			}
			depth := 1 + x.N(5)
			vsim.GoIn(proc, "sender", func() {
				var st []vsim.Frame
				for d := 0; d < depth; d++ {
					st = append(st, frameFor(d+depth))
				}
				vsim.Cur().Stack = append(st, goexitFrame)
				for _, s := range msgs {
					r.send(s)
				}
				done++
			})
		}
	}
	x.Say("%d points, %d senders, unknown points %v", id, tasks, unknown)
	wait(&done, tasks)
	ctx, cancel := vctx.WithTimeout(context.Background(), 20*time.Second)
	_ = srv.Stop(ctx)
	cancel()
	// assembling always finishes
	assembled := false
	vsim.GoNamed("watch", func() {
		vsim.Sleep(2 * time.Minute)
		x.Check("C02", assembled, "hang", "waiting for the monitor never ends although every client is done")
	})
	mon.Wait()
	assembled = true
	caller, ext := mon.Frames()
	want := map[string][]*sent{}
	for _, s := range r.sents {
		if s.kind == "state" && accepted(s) && owner[s.id] != "" {
			want[owner[s.id]] = append(want[owner[s.id]], s)
		}
	}
	names := map[string]bool{}
	for k := range caller {
		names[k] = true
		x.Check("C02", !strings.HasPrefix(k, "ext:"), "owner", "extension point filed as caller %s", k)
	}
	for k := range ext {
		names[k] = true
		x.Check("C02", strings.HasPrefix(k, "ext:"), "owner", "caller point filed as extension %s", k)
	}
	for k := range want {
		names[k] = true
	}
	for _, n := range keysOf(names) {
		fs := caller[n]
		if strings.HasPrefix(n, "ext:") {
			fs = ext[n]
		}
		if d := r.sameSerials(fs, want[n]); d != "" {
			x.Check("C02", false, "frames", "%s: %s", n, d)
		}
	}
	if len(r.sents) > 3 {
		vsim.Probe("monitor.messages")
	}
}

// sameSerials matches frames and messages by the serial number they carry.
func (r *rig) sameSerials(got []lens.CallFrame, want []*sent) string {
	by := map[string]*sent{}
	for _, s := range want {
		by[fmt.Sprint(s.vals[0])] = s
	}
	last := map[int]int{}
	for i, g := range got {
		fl := map[string]string{}
		flattenX("", xfields(g.FieldValues), fl)
		s := by[fl["serial"]]
		if s == nil {
			return fmt.Sprintf("frame %d (%s) was recorded but not acknowledged, or twice", i, fieldsText(g.FieldValues))
		}
		delete(by, fl["serial"])
		if gt, wt := fieldsText(g.FieldValues), flatText(s.fields); gt != wt {
			return fmt.Sprintf("frame %d has fields %s, sent: %s", i, gt, wt)
		}
		if g.TimeMillis != s.ms {
			return fmt.Sprintf("frame %d has time %d, sent %d", i, g.TimeMillis, s.ms)
		}
		if len(g.Stack) != len(s.stack) {
			return fmt.Sprintf("frame %d has %d stack frames, sent %d", i, len(g.Stack), len(s.stack))
		}
		for j, f := range g.Stack {
			w := s.stack[j]
			file := w.File
			if strings.HasPrefix(file, "/w/proj/") {
				file = "./" + strings.TrimPrefix(file, "/w/proj/")
			}
			if f.File != file || f.Function != w.Function || f.Line != uint32(w.Line) {
				return fmt.Sprintf("frame %d: stack frame %d is %+v, sent %+v", i, j, f, w)
			}
		}
		if p, ok := last[s.task]; ok && s.seq < p && s.wire.Err == nil && !s.wire.Reset {
			return fmt.Sprintf("frame %d is out of order: message %d after message %d of the same goroutine", i, s.seq, p)
		}
		last[s.task] = s.seq
	}
	if len(by) > 0 {
		l := keysOf(by)
		return fmt.Sprintf("message %s was acknowledged but is missing", l[0])
	}
	return ""
}

// recorder is a handler that keeps every message.
type recorder struct {
	points []lens.LensMonitorMessagePoint
	states []lens.LensMonitorMessagePointState
	panics []lens.LensMonitorMessagePointPanic
}

func (h *recorder) HandleFuncPoint(m lens.LensMonitorMessagePoint) { h.points = append(h.points, m) }
func (h *recorder) HandleFuncPointState(m lens.LensMonitorMessagePointState) {
	h.states = append(h.states, m)
}
func (h *recorder) HandleFuncPointPanic(m lens.LensMonitorMessagePointPanic) {
	h.panics = append(h.panics, m)
}
func (h *recorder) n() int { return len(h.points) + len(h.states) + len(h.panics) }

// wireScenario: what the client encodes is what the server decodes.
func wireScenario(x *X) {
	r := newRig(x)
	r.net.Fragments = x.Pct(70)
	if x.Pct(30) {
		r.net.Cut = 200
	}
	if x.Pct(20) {
		r.net.BodyStall, r.net.StallFor = 200, 3*time.Second
	}
	h := &recorder{}
	srv, err := lens.SimServerStart(r.port, h, r.consts["lensMonitorFieldMaxLen"])
	x.Check("C03", err == nil, "start", "%v", err)
	proc := r.proc("client")
	n := 1 + x.N(5)
	done := 0
	vsim.GoIn(proc, "sender", func() {
		for i := 0; i < n; i++ {
			var st []vsim.Frame
			d := x.N(6)
			if x.Pct(5) {
				d = 300
			}
			for j := 0; j < d; j++ {
				st = append(st, frameFor(j*j%7))
			}
			vsim.Cur().Stack = append(st, goexitFrame)
			s := &sent{id: uint32(1) << x.N(32), kind: []string{"state", "state", "state", "point", "panic"}[x.N(5)]}
			switch s.kind {
			case "panic":
				v := genValue(x, 2)
				if _, ok := v.(func()); ok || v == nil || hasPtr(v) {
					v = genString(x)
				}
				s.vals = []any{v}
			case "state":
				for j := 0; j < x.N(4); j++ {
					s.names = append(s.names, fmt.Sprintf("f%d", j))
					s.vals = append(s.vals, genValue(x, 0))
				}
			}
			before := h.n()
			r.send(s)
			// stalled or lost messages may be handled later; wait them out
			vsim.Block("handled", func() bool { return s.wire.Handled || (s.wire.Done && !s.wire.Taken) })
			m := s.wire
			x.Check("C03", m.GotPanic == nil, "crash", "the server panicked on a message: %v", m.GotPanic)
			if m.Cut {
				x.Check("C03", m.Code >= 400 && h.n() == before, "cut", "a %s message cut after %d of %d bytes was answered with %d and left %d entries", s.kind, len(m.Body), m.Len, m.Code, h.n()-before)
				vsim.Probe("wire.cut")
				continue
			}
			x.Check("C03", m.Code == 200, "refused", "a valid %s message was refused with %d %s: %s", s.kind, m.Code, m.Resp, clip(fmt.Sprint(describeSent(r, s))))
			x.Check("C03", h.n() == before+1, "count", "one message was handled %d times", h.n()-before)
			if d := r.decoded(h, s); d != "" {
				x.Check("C03", false, "decode", "%s", d)
			}
		}
		done++
	})
	wait(&done, 1)
	ctx, cancel := vctx.WithTimeout(context.Background(), 20*time.Second)
	_ = srv.Stop(ctx)
	cancel()
}

func hasPtr(v any) bool {
	switch reflect.ValueOf(v).Kind() {
	case reflect.Pointer, reflect.Map, reflect.Struct, reflect.Slice, reflect.Interface, reflect.Chan:
		return true
	}
	return false
}

func describeSent(r *rig, s *sent) string {
	var l []string
	for i, n := range s.names {
		l = append(l, refValue(r.consts, n, s.vals[i]).String())
	}
	return strings.Join(l, ", ")
}

func sameStack(got []lens.SimFrame, want []vsim.Frame) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d stack frames decoded, %d sent", len(got), len(want))
	}
	for i, g := range got {
		if w := want[i]; g.File != w.File || g.Function != w.Function || g.Line != uint(w.Line) {
			return fmt.Sprintf("stack frame %d decoded as %+v, sent %+v", i, g, w)
		}
	}
	return ""
}

func (r *rig) decoded(h *recorder, s *sent) string {
	switch s.kind {
	case "point":
		m := h.points[len(h.points)-1]
		if m.PointID != s.id {
			return fmt.Sprintf("point %d decoded as %d", s.id, m.PointID)
		}
		return sameStack(lens.SimStack(m.Stack), s.stack)
	case "panic":
		m := h.panics[len(h.panics)-1]
		if m.PointID != s.id || m.Message != fmt.Sprint(s.vals[0]) {
			return fmt.Sprintf("panic %d %v decoded as %d %s", s.id, s.vals[0], m.PointID, m.Message)
		}
	case "state":
		m := h.states[len(h.states)-1]
		if m.PointID != s.id {
			return fmt.Sprintf("point %d decoded as %d", s.id, m.PointID)
		}
		if d := sameStack(lens.SimStack(m.Stack), s.stack); d != "" {
			return d
		}
		if uint32((m.TimeNS+500000)/1_000_000) != s.ms {
			return fmt.Sprintf("time decoded as %d", m.TimeNS)
		}
		if len(m.Fields) != len(s.names) {
			return fmt.Sprintf("%d fields decoded, %d sent", len(m.Fields), len(s.names))
		}
		for i, f := range m.Fields {
			got, want := fromMsg(f).String(), refValue(r.consts, s.names[i], s.vals[i]).String()
			if got != want {
				return fmt.Sprintf("field decoded as %s, sent %s", clip(got), clip(want))
			}
		}
	}
	return ""
}

// damageScenario: bodies that are not messages.
func damageScenario(x *X) {
	r := newRig(x)
	r.net.Fragments = x.Pct(30)
	h := &recorder{}
	srv, err := lens.SimServerStart(r.port, h, r.consts["lensMonitorFieldMaxLen"])
	x.Check("C03", err == nil, "start", "%v", err)
	proc := r.proc("client")
	paths := []string{"/ast.0/point/state", "/ast.0/point/point", "/ast.0/point/panic", "/ast.0/event/error"}
	done := 0
	limit := r.consts["lensMonitorFieldMaxLen"]
	vsim.GoIn(proc, "sender", func() {
		defer func() { done++ }()
		known := r.protocolKnown(h)
		for i := 0; i < 1+x.N(6); i++ {
			path := paths[x.N(4)]
			var body []byte
			var kind string
			if x.Pct(50) {
				body, kind = crafted(x, path, limit), "numbers"
			} else {
				body, kind = hostile(x, r)
			}
			before := h.n()
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			m := &vnet.SimMsg{Method: "POST", Path: path, Body: body, Header: map[string][]string{}}
			if x.Pct(5) {
				m.Method = "GET"
			}
			follow := x.Pct(20) && len(body) > 0
			if follow {
				m.Len, m.Cut = len(body), true
				m.Body = body[:x.N(len(body))]
			}
			_, _ = vhttp.SimSend(context.Background(), m, r.port, time.Minute)
			runtime.ReadMemStats(&m1)
			grew := int64(m1.TotalAlloc - m0.TotalAlloc)
			vsim.Probe("damage." + kind)
			x.Check("C03", m.GotPanic == nil, "crash", "%s with a %s body % x: the server panicked: %v", path, kind, head(body), m.GotPanic)
			x.Check("C03", m.Handled, "hang", "%s with a %s body % x is never answered", path, kind, head(body))
			allowed := int64(8<<20) + int64(len(body))*4096
			x.Check("C03", grew <= allowed, "memory", "%s with a %s body of %d bytes (% x) made the server allocate more than %d MB", path, kind, len(body), head(body), allowed>>20)
			x.Check("C03", m.Code == 200 || m.Code >= 400, "status", "answered with %d", m.Code)
			if m.Code != 200 {
				x.Check("C03", h.n() == before, "trace", "a refused message was handled (%s, % x)", path, head(body))
			} else {
				x.Check("C03", m.Method == "POST", "method", "%s accepted", m.Method)
				x.Check("C03", h.n()-before <= 1, "trace", "one message was handled %d times", h.n()-before)
			}
			if known && m.Method == "POST" {
				want, bad, sure := refDecode(path, m.Body, limit)
				switch {
				case sure && bad != "":
					x.Check("C03", m.Code >= 400, "accepted", "%s with a body that %s was accepted (% x)", path, bad, head(m.Body))
					vsim.Probe("damage.refused")
				case sure && m.Code == 200 && !want.odd && h.n() > before:
					if d := want.diff(h, path); d != "" {
						x.Check("C03", false, "decode", "%s (% x): %s", path, head(m.Body), d)
					}
					vsim.Probe("damage.accepted")
				}
			}
			if m.Cut && m.Code == 200 {
				vsim.Probe("damage.cut accepted") // the part that arrived was a whole message
			}
		}
		// still in working order
		s := &sent{id: 7, kind: "state", names: []string{"v"}, vals: []any{genValue(x, 0)}}
		before := h.n()
		vsim.Cur().Stack = []vsim.Frame{frameFor(1), goexitFrame}
		r.send(s)
		x.Check("C03", accepted(s) && h.n() == before+1, "after", "a valid message after damaged ones was answered with %d", code(s))
		if accepted(s) {
			if d := r.decoded(h, s); d != "" {
				x.Check("C03", false, "decode", "after damaged messages: %s", d)
			}
		}
	})
	wait(&done, 1)
	ctx, cancel := vctx.WithTimeout(context.Background(), 20*time.Second)
	_ = srv.Stop(ctx)
	cancel()
}

// protocolKnown reports whether the client still writes messages the way the
// reference decoder reads them.
func (r *rig) protocolKnown(h *recorder) bool {
	s := &sent{id: 77, kind: "state", names: []string{"a", "b"}, vals: []any{[]string{"x", "y"}, map[string]int{"k": 5}}}
	vsim.Cur().Stack = []vsim.Frame{frameFor(1), frameFor(2), frameFor(1), goexitFrame}
	r.send(s)
	if s.wire == nil || s.wire.Cut || s.wire.Path != "/ast.0/point/state" {
		return false
	}
	m, bad, sure := refDecode(s.wire.Path, s.wire.Body, r.consts["lensMonitorFieldMaxLen"])
	return bad == "" && sure && m.left == 0 && m.point == 77 && len(h.states) == 1 && m.diff(h, s.wire.Path) == ""
}

func head(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func uvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// hostile makes a body that the client would never send, or only by chance.
func hostile(x *X, r *rig) ([]byte, string) {
	huge := func() uint64 {
		return []uint64{1 << 27, 1 << 21, 1 << 24, 1 << 40, 1 << 62, math.MaxUint64, math.MaxUint32 - 1, 100000}[x.N(8)]
	}
	// a valid beginning: point id, time
	b := uvarint(nil, uint64(x.N(1000)))
	b = append(b, 1, 2, 3, 0, 0, 0, 0, 0)
	switch x.N(9) {
	case 1: // stack table
		return uvarint(append(uvarint(b, 2048), 0xff, 0x1f), huge()), "stack table"
	case 2: // field count
		return uvarint(append(b, 0), min(huge(), 1<<24)), "field count"
	case 3: // field name
		return uvarint(append(b, 0, 1), min(huge(), 1<<29)), "field name"
	case 4: // containers and slices
		b = append(b, 0, 1, 1, 'f', 1, 't')
		tag := []byte{0x41, 0x40, 0x42, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x09}[x.N(13)]
		n := huge()
		if tag == 0x41 && n > 1<<24 && n < 1<<50 {
			n = 1 << 24
		}
		if tag == 9 {
			n = min(n, 1<<29)
		}
		return uvarint(append(b, tag), n), fmt.Sprintf("value 0x%02x", tag)
	case 5: // nested containers
		b = append(b, 0, 1)
		levels := 2000
		if x.Pct(2) {
			b = append(b, bytes.Repeat([]byte{0, 0, 0x42, 1}, 5_000_000)...)
		}
		for i := 0; i < levels; i++ {
			b = append(b, 1, 'f', 1, 't', []byte{0x42, 0x40, 0x41}[i%3], 1)
		}
		return b, "nesting"
	case 6: // panic message
		return uvarint(b, min(huge(), 1<<29)), "message length"
	case 7: // endless varint
		for i := 0; i < 3+x.N(20); i++ {
			b = append(b, 0xff)
		}
		return b, "varint"
	case 8:
		b = make([]byte, x.N(200))
		for i := range b {
			b[i] = byte(x.N(256))
		}
		return b, "noise"
	}
	// a real message with some bytes changed
	m := sampleBody(x)
	for i := 0; i < 1+x.N(3) && len(m) > 0; i++ {
		m[x.N(len(m))] ^= byte(1 << x.N(8))
	}
	return m, "bit flips"
}

// sampleBody is a message written by hand after the protocol's description.
func sampleBody(x *X) []byte {
	str := func(b []byte, s string) []byte { return append(uvarint(b, uint64(len(s))), s...) }
	b := append(uvarint(nil, 5), 9, 0, 0, 0, 0, 0, 0, 0)
	b = uvarint(b, 1)
	b = uvarint(b, 2)
	b = str(str(b, "/a/b.go"), "pkg.Fn")
	b = append(b, 0, 1, 12)
	b = uvarint(b, 3)
	b = append(str(str(b, "a"), "int"), 0x03, 0x14)
	b = str(append(str(str(b, "s"), "string"), 0x09), "hello world")
	b = append(str(str(b, "l"), "[]pkg.T"), 0x42, 1)
	b = append(str(str(b, "[0]"), "pkg.T"), 0x41, 1)
	b = append(str(str(b, "x"), "[]string"), 0x28, 2)
	return str(str(b, "one"), "two")
}

// ---- starting and stopping ----

func serverStartScenario(x *X) {
	r := newRig(x)
	taken := x.Pct(30)
	if taken {
		vnet.SimOccupy(r.port)
	}
	h := &recorder{}
	// other work going on
	for i := 0; i < x.N(3); i++ {
		vsim.GoNamed("busy", func() {
			for k := 0; k < 30; k++ {
				vsim.Sleep(7 * time.Millisecond)
			}
		})
	}
	srv, err := lens.SimServerStart(r.port, h, 1024)
	vsim.W.Steady = true
	if taken {
		x.Check("C14", err != nil, "taken", "starting on a port that is in use reported success")
		vsim.Probe("server.port taken")
		return
	}
	x.Check("C14", err == nil, "start", "starting failed although the port is free: %v", err)
	if err != nil {
		return
	}
	proc := r.proc("client")
	done := 0
	r.net.Latency = 0
	vsim.GoIn(proc, "sender", func() {
		s := &sent{id: 3, kind: "point"}
		vsim.Cur().Stack = []vsim.Frame{frameFor(1), goexitFrame}
		r.send(s)
		x.Check("C14", accepted(s) && len(h.points) == 1, "refused", "a message sent as soon as the server had started was not accepted: status %d, %v", code(s), s.wire.Err)
		done++
	})
	wait(&done, 1)
	ctx, cancel := vctx.WithTimeout(context.Background(), 20*time.Second)
	err = srv.Stop(ctx)
	cancel()
	x.Check("C14", err == nil, "stop", "stopping an idle server failed: %v", err)
	x.Check("C14", vnet.SimBound(r.port) == nil, "bound", "the server still listens after it was stopped")
	// the port can be used again
	srv, err = lens.SimServerStart(r.port, h, 1024)
	x.Check("C14", err == nil, "start", "starting again failed: %v", err)
	if err == nil {
		ctx, cancel := vctx.WithTimeout(context.Background(), 20*time.Second)
		_ = srv.Stop(ctx)
		cancel()
	}
}

func serverStopScenario(x *X) {
	r := newRig(x)
	h := &recorder{}
	srv, err := lens.SimServerStart(r.port, h, 1024)
	if err != nil {
		return
	}
	life := time.Duration(1+x.N(40)) * 100 * time.Millisecond
	limit := time.Duration(1+x.N(40))*100*time.Millisecond + 30*time.Millisecond
	if x.Pct(15) {
		limit = 0 // no limit
	} else if x.Pct(15) {
		life = time.Hour
	}
	var stall time.Duration
	if x.Pct(40) {
		stall = time.Duration(1+x.N(50)) * time.Second
		if x.Pct(40) {
			stall = time.Duration(1+x.N(50)) * 100 * time.Millisecond
		}
		r.net.BodyStall, r.net.StallFor = 500, stall
	}
	began := vsim.Now()
	var ended time.Duration = -1
	vexec.SimSetHook(func(c *vexec.Cmd) (vexec.SimProg, error) {
		return func(sp *vexec.SimProc) int {
			child := r.proc("test")
			for i := 0; i < 1+x.N(3); i++ {
				vsim.GoIn(child, "sender", func() {
					vsim.Cur().Stack = []vsim.Frame{frameFor(1), goexitFrame}
					for k := 0; k < 3; k++ {
						r.send(&sent{id: 3, kind: "state", names: []string{"v"}, vals: []any{k}})
						vsim.Sleep(time.Duration(1+k) * 50 * time.Millisecond)
					}
				})
			}
			vsim.Sleep(life)
			ended = vsim.Now()
			vsim.Kill(child)
			return 0
		}, nil
	})
	cmd := vexec.Command("prog")
	must(cmd.Start())
	pid := cmd.Process.Pid
	reaped := false
	vsim.GoNamed("reaper", func() {
		_ = cmd.Wait()
		reaped = true
	})
	err = srv.StopOnProcessOrTimeout(pid, limit)
	took := vsim.Now() - began
	x.Say("process lives %v, limit %v, body stall %v: returned after %v, %v", life, limit, stall, took, err)
	// once the wait is over, stopping takes at most its own deadline
	const slack, stopping = 450 * time.Millisecond, 20 * time.Second
	first := life
	timedOut := limit > 0 && limit < life
	if timedOut {
		first = limit
	}
	x.Check("C14", took <= first+slack+stopping, "late", "stopped after %v; the process lived %v, the limit was %v", took, life, limit)
	if stall == 0 {
		x.Check("C14", took <= first+slack+time.Second, "late", "stopped after %v although nothing was in flight; the process lived %v, the limit was %v", took, life, limit)
	}
	x.Check("C14", took >= first-time.Millisecond, "early", "stopped after %v; the process lived %v, the limit was %v", took, life, limit)
	isTimeout := err != nil && strings.Contains(err.Error(), "timeout waiting for process")
	if limit > 0 && limit+slack < life {
		x.Check("C14", err != nil && isTimeout, "timeout", "the process outlived the timeout but the error is %v", err)
		vsim.Probe("server.timeout")
	}
	if limit == 0 || life+slack < limit {
		x.Check("C14", !isTimeout, "timeout", "a timeout was reported although the process ended in time: %v", err)
	}
	if stall <= 5*time.Second { // anything in flight finishes well within the time stopping allows for it
		x.Check("C14", err == nil || !strings.Contains(err.Error(), "deadline exceeded"), "cut", "requests in flight for at most %v were not given the time to finish: %v", stall, err)
		if limit == 0 || life+slack < limit {
			x.Check("C14", err == nil, "error", "stopping failed although what was in flight took at most %v: %v", stall, err)
		}
	}
	_ = reaped
	x.Check("C14", vnet.SimBound(r.port) == nil, "bound", "the server still listens after StopOnProcessOrTimeout returned")
	r.net.BodyStall = 0
	proc := r.proc("late")
	done := 0
	before := h.n()
	vsim.GoIn(proc, "sender", func() {
		vsim.Cur().Stack = []vsim.Frame{frameFor(1), goexitFrame}
		s := &sent{id: 3, kind: "point"}
		r.send(s)
		x.Check("C14", !accepted(s), "accepted", "a stopped server accepted a message")
		done++
	})
	wait(&done, 1)
	_ = before
	_ = ended
	_ = sort.Strings
}
