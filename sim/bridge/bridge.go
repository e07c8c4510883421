package lens

import (
	"bytes"
	"context"
	"io"
	"time"
)

// Reached by the simulation harness; only names that the repository's own tests
// also use.

func SimSetSplitLimit(n int) (old int) { old, badgerSplitLimit = badgerSplitLimit, n; return }

func SimRolling(buf *bytes.Buffer, limit int) io.Writer {
	return newLimitedRollingBufferWriter(buf, limit)
}

type SimBuffer interface {
	io.Writer
	Bytes() []byte
	Len() int
	Reset()
	String() string
}

func SimLockedBuffer() SimBuffer { return newLockedBuffer() }

// SimStriped returns the lock function of a striped lock.
func SimStriped(n uint) func(key string) (unlock func()) {
	m := newStripedMutex(n)
	return func(key string) func() {
		l := m.Lock(key)
		return func() { l.Unlock() }
	}
}

// SimServer is a running monitor server.
type SimServer struct{ s *astServer }

// SimHandler receives decoded messages.
type SimHandler interface {
	HandleFuncPoint(LensMonitorMessagePoint)
	HandleFuncPointState(LensMonitorMessagePointState)
	HandleFuncPointPanic(LensMonitorMessagePointPanic)
}

func SimServerStart(port int, h SimHandler, maxFieldLen int) (*SimServer, error) {
	s, err := astExecServerStart("127.0.0.1", port, h, maxFieldLen)
	if s == nil {
		return nil, err
	}
	return &SimServer{s}, err
}

func (s *SimServer) SetHandler(h SimHandler) error { return s.s.SetPointHandler(h) }

func (s *SimServer) Stop(ctx context.Context) error { return s.s.Stop(ctx) }

func (s *SimServer) StopOnProcessOrTimeout(pid int, d time.Duration) error {
	return s.s.StopOnProcessOrTimeout(pid, d)
}

// SimMonitor is the handler an analysis uses.
type SimMonitor struct{ m *testMonitor }

func SimNewMonitor(goroot, projectDir string, state, ppanic, mentry, mpanic, ext map[uint32]*string) *SimMonitor {
	return &SimMonitor{newTestMonitor(nil, goroot, projectDir, state, ppanic, mentry, mpanic, ext)}
}

func (m *SimMonitor) Handler() SimHandler { return m.m }
func (m *SimMonitor) Wait()               { m.m.wait.Wait() }
func (m *SimMonitor) Frames() (caller, extension map[string][]CallFrame) {
	return m.m.callerFrames, m.m.extensionFrames
}

type SimFrame struct {
	File, Function string
	Line           uint
}

func SimStack(st []lensMonitorStackFrame) []SimFrame {
	out := make([]SimFrame, len(st))
	for i, f := range st {
		out[i] = SimFrame{f.File, f.Function, f.Line}
	}
	return out
}
