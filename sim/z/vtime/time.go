// Package vtime stands in for time under the simulator: one virtual clock.
package vtime

import (
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func Now() time.Time {
	if vsim.W == nil {
		return vsim.Epoch
	}
	vsim.Y()
	vsim.Advance(time.Microsecond)
	return vsim.Epoch.Add(vsim.Now())
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { vsim.Sleep(d) }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
	proc *vsim.Proc
}

func (t *Timer) arm(d time.Duration) {
	t.proc = vsim.CurProc()
	t.stop = vsim.After(d, func() {
		if t.f != nil {
			vsim.GoAsync(t.proc, "timer", t.f)
			return
		}
		select {
		case t.c <- vsim.Epoch.Add(vsim.Now()):
		default:
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	vsim.Op("timer.stop")
	r := t.stop()
	t.drain()
	return r
}

func (t *Timer) Reset(d time.Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.stop = vsim.After(t.d, func() {
		select {
		case t.c <- vsim.Epoch.Add(vsim.Now()):
		default:
		}
		t.arm()
	})
}

func (t *Ticker) Stop() { vsim.Op("ticker.stop"); t.stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	select {
	case <-t.c:
	default:
	}
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
