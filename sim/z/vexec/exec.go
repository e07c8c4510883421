// Package vexec stands in for os/exec. No process is ever started: a command
// is handed to the run's hook, which plays the program as simulated tasks in a
// simulated process with its own environment.
package vexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vos"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// SimProg plays a program: it runs in the simulated process and returns the
// exit code. SimHook chooses the program; an error means that it could not be
// started.
type SimProg func(c *SimProc) int
type SimHook func(c *Cmd) (SimProg, error)

const simHookKey = "exec"

func SimSetHook(h SimHook) { vsim.W.Vals[simHookKey] = h }

// SimProc is what a program sees.
type SimProc struct {
	Cmd    *Cmd
	Proc   *vsim.Proc
	Stdout io.Writer
	Stderr io.Writer
	Pid    int
	Exited bool
	Code   int
	killed bool
}

// SimKill ends the process at once.
func (p *SimProc) SimKill() {
	if !p.Exited {
		p.Exited, p.killed, p.Code = true, true, -1
		vsim.Kill(p.Proc)
	}
}

type procTable struct {
	next  int
	byPid map[int]*SimProc
}

func table() *procTable {
	t, _ := vsim.W.Vals["pids"].(*procTable)
	if t == nil {
		t = &procTable{next: 5000, byPid: map[int]*SimProc{}}
		vsim.W.Vals["pids"] = t
	}
	return t
}

// SimAlive reports whether a pid belongs to a process that has not been
// reaped.
func SimAlive(pid int) bool {
	if vsim.W == nil {
		return false
	}
	p := table().byPid[pid]
	return p != nil && !p.Exited
}

// SimAddPid registers a process that is not started through a Cmd.
func SimAddPid(p *SimProc) int {
	t := table()
	t.next++
	p.Pid = t.next
	t.byPid[p.Pid] = p
	return p.Pid
}

type Error = exec.Error

type ProcessState struct {
	code   int
	pid    int
	killed bool
}

func (p *ProcessState) ExitCode() int {
	if p == nil {
		return -1
	}
	return p.code
}
func (p *ProcessState) Success() bool             { return p.code == 0 }
func (p *ProcessState) Exited() bool              { return !p.killed }
func (p *ProcessState) Pid() int                  { return p.pid }
func (p *ProcessState) SystemTime() time.Duration { return 0 }
func (p *ProcessState) UserTime() time.Duration   { return 0 }
func (p *ProcessState) Sys() any                  { return syscall.WaitStatus(p.code << 8) }
func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	if p.killed {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", p.code)
}

type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Process struct {
	Pid int
	p   *SimProc
}

func (p *Process) Kill() error    { return p.Signal(syscall.SIGKILL) }
func (p *Process) Release() error { return nil }
func (p *Process) Signal(s syscall.Signal) error {
	vsim.Op("signal")
	if p.p.Exited {
		return errors.New("os: process already finished")
	}
	if s == 0 {
		return nil
	}
	p.p.SimKill()
	return nil
}

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*vos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx     context.Context
	p       *SimProc
	copies  int
	copyErr error
	clk     vsim.Clock
	pipes   []*pipe
	ctxDone chan struct{}
	waited  bool
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

var ErrNotFound = exec.ErrNotFound

func LookPath(file string) (string, error) {
	vsim.Op("lookpath")
	if h, ok := vsim.W.Vals[simHookKey].(SimHook); ok {
		if _, err := h(&Cmd{Path: file, Args: []string{file}}); errors.Is(err, exec.ErrNotFound) {
			return "", err
		}
	}
	return "/usr/bin/" + file, nil
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return append([]string(nil), c.Env...) }

// pipe is a bounded byte queue between the process and a copying task.
type pipe struct {
	buf    []byte
	closed bool // no more writers
	broken bool // no more reader
	clk    vsim.Clock
}

const pipeCap = 4096

func (p *pipe) Write(b []byte) (int, error) {
	n := 0
	for n < len(b) {
		vsim.Op("pipe.write")
		vsim.Block("pipe full", func() bool { return len(p.buf) < pipeCap || p.broken })
		if p.broken {
			return n, syscall.EPIPE
		}
		k := min(pipeCap-len(p.buf), len(b)-n)
		p.buf = append(p.buf, b[n:n+k]...)
		n += k
		vsim.Release(&p.clk)
	}
	return n, nil
}

func (p *pipe) Read(b []byte) (int, error) {
	vsim.Op("pipe.read")
	vsim.Block("pipe empty", func() bool { return len(p.buf) > 0 || p.closed })
	vsim.Acquire(&p.clk)
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(p.buf))
	if n > 1 {
		n -= vsim.Choose("fragment", n)
	}
	copy(b, p.buf[:n])
	p.buf = append([]byte(nil), p.buf[n:]...)
	return n, nil
}

func (p *pipe) Close() error { p.broken = true; return nil }

func comparable(a, b io.Writer) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	return a == b
}

func (c *Cmd) sink(w io.Writer) io.Writer {
	if w == nil {
		return io.Discard
	}
	if f, ok := w.(*vos.File); ok { // inherited descriptor
		return f
	}
	p := &pipe{}
	c.pipes = append(c.pipes, p)
	c.copies++
	vsim.GoNamed("exec-copy", func() {
		buf := make([]byte, 1024)
		for {
			n, err := p.Read(buf)
			if n > 0 {
				m, werr := w.Write(buf[:n])
				if werr == nil && m != n {
					werr = io.ErrShortWrite
				}
				if werr != nil {
					p.broken = true
					if c.copyErr == nil {
						c.copyErr = werr
					}
					break
				}
			}
			if err != nil {
				break
			}
		}
		vsim.Release(&c.clk)
		c.copies--
	})
	return p
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	p := &pipe{}
	c.Stdout = p
	c.pipes = append(c.pipes, p)
	return p, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	p := &pipe{}
	c.Stderr = p
	c.pipes = append(c.pipes, p)
	return p, nil
}

func (c *Cmd) Start() error {
	vsim.Op("exec")
	if c.Err != nil {
		return c.Err
	}
	if c.p != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			return err
		}
	}
	vsim.Y()
	h, _ := vsim.W.Vals[simHookKey].(SimHook)
	if h == nil {
		vsim.Fail("internal", "command without a simulated program: %s", c)
	}
	vsim.Logf("exec %s (in %s)", c, c.Dir)
	prog, err := h(c)
	if err != nil {
		return err
	}
	env := append([]string(nil), c.Env...)
	if c.Env == nil {
		env = vos.Environ()
	}
	proc := vsim.NewProc(strings.Join(c.Args, " "), env, nil)
	c.p = &SimProc{Cmd: c, Proc: proc}
	SimAddPid(c.p)
	sim := c.p
	if _, ok := c.Stdout.(*pipe); ok {
		sim.Stdout = c.Stdout
	} else {
		sim.Stdout = c.sink(c.Stdout)
	}
	if c.Stderr != nil && c.Stdout != nil && comparable(c.Stdout, c.Stderr) {
		sim.Stderr = sim.Stdout
	} else if _, ok := c.Stderr.(*pipe); ok {
		sim.Stderr = c.Stderr
	} else {
		sim.Stderr = c.sink(c.Stderr)
	}
	c.Process = &Process{Pid: sim.Pid, p: sim}
	vsim.GoIn(proc, c.Args[0], func() {
		code := prog(sim)
		vsim.Op("exit")
		if !sim.Exited {
			sim.Exited, sim.Code = true, code
		}
		// whatever else the process was doing ends with it
		proc.Killed = true
	})
	if c.ctx != nil && c.ctx.Done() != nil {
		c.ctxDone = make(chan struct{})
		done := c.ctxDone
		vsim.GoNamed("exec-ctx", func() {
			if vsim.Select(false, vsim.RecvCase(c.ctx.Done()), vsim.RecvCase[struct{}](done)) == 0 {
				if c.Cancel != nil {
					_ = c.Cancel()
				} else {
					_ = c.Process.Kill()
				}
			}
		})
	}
	return nil
}

func (c *Cmd) Wait() error {
	if c.p == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	vsim.Block("process exit", func() bool { return c.p.Exited })
	for _, p := range c.pipes {
		p.closed = true
	}
	vsim.Block("output copied", func() bool { return c.copies == 0 })
	vsim.Acquire(&c.clk)
	if c.ctxDone != nil {
		vsim.Close(c.ctxDone)
	}
	c.ProcessState = &ProcessState{code: c.p.Code, pid: c.p.Pid, killed: c.p.killed}
	if c.p.Code != 0 || c.p.killed {
		if c.ctx != nil && c.ctx.Err() != nil && c.p.killed {
			return c.ctx.Err()
		}
		return &ExitError{ProcessState: c.ProcessState}
	}
	return c.copyErr
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b, e bytes.Buffer
	c.Stdout = &b
	cap := c.Stderr == nil
	if cap {
		c.Stderr = &e
	}
	err := c.Run()
	var x *ExitError
	if cap && errors.As(err, &x) {
		x.Stderr = e.Bytes()
	}
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
