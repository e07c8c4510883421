// Package vsync stands in for sync under the simulator.
package vsync

import (
	"fmt"
	"sync"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex may be unlocked by another task than the one that locked it, as the
// original. State left by an earlier run is dropped.
type Mutex struct {
	_      noCopy
	w      *vsim.World
	locked bool
	clk    vsim.Clock
}

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

func (m *Mutex) fresh() {
	if m.w != vsim.W {
		m.w, m.locked, m.clk = vsim.W, false, vsim.Clock{}
	}
}

func (m *Mutex) Lock() {
	m.fresh()
	vsim.Op("lock")
	if m.locked {
		vsim.Probe("mutex contended")
	}
	vsim.Block("mutex", func() bool { return !m.locked })
	m.locked = true
	vsim.Acquire(&m.clk)
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	vsim.Op("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	vsim.Acquire(&m.clk)
	return true
}

func (m *Mutex) Unlock() {
	m.fresh()
	if !m.locked {
		if vsim.W == nil {
			panic("sync: unlock of unlocked mutex")
		}
		vsim.Fail("fatal", "sync: unlock of unlocked mutex (the Go runtime aborts the process)")
	}
	vsim.Release(&m.clk)
	m.locked = false
	vsim.Op("unlock")
}

type RWMutex struct {
	w       *vsim.World
	writer  bool
	readers int
	waiting int
	clk     vsim.Clock
	rclk    vsim.Clock
}

func (m *RWMutex) fresh() {
	if m.w != vsim.W {
		*m = RWMutex{w: vsim.W}
	}
}

func (m *RWMutex) Lock() {
	m.fresh()
	vsim.Op("lock")
	m.waiting++
	vsim.Block("rwmutex write", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	vsim.Acquire(&m.clk)
	vsim.Acquire(&m.rclk)
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	vsim.Op("trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vsim.Acquire(&m.clk)
	vsim.Acquire(&m.rclk)
	return true
}

func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.writer {
		vsim.Fail("fatal", "sync: Unlock of unlocked RWMutex (the Go runtime aborts the process)")
	}
	vsim.Release(&m.clk)
	m.writer = false
	vsim.Op("unlock")
}

func (m *RWMutex) RLock() {
	m.fresh()
	vsim.Op("rlock")
	vsim.Block("rwmutex read", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	vsim.Acquire(&m.clk)
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	vsim.Op("tryrlock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vsim.Acquire(&m.clk)
	return true
}

func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.readers == 0 {
		vsim.Fail("fatal", "sync: RUnlock of unlocked RWMutex (the Go runtime aborts the process)")
	}
	vsim.Release(&m.rclk)
	m.readers--
	vsim.Op("runlock")
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	w   *vsim.World
	n   int
	clk vsim.Clock
}

func (g *WaitGroup) fresh() {
	if g.w != vsim.W {
		*g = WaitGroup{w: vsim.W}
	}
}

func (g *WaitGroup) Add(d int) {
	g.fresh()
	vsim.Op("wg.add")
	vsim.Release(&g.clk)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	g.fresh()
	vsim.Op("wg.wait")
	vsim.Block("waitgroup", func() bool { return g.n == 0 })
	vsim.Acquire(&g.clk)
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsim.GoNamed("wg", func() {
		defer g.Done()
		f()
	})
}

// Once outside of a run is an ordinary once; a once first used inside a run
// belongs to that run.
type Once struct {
	w       *vsim.World
	running bool
	done    bool
	clk     vsim.Clock
}

func (o *Once) Do(f func()) {
	if o.w != vsim.W && (o.w != nil || !o.done) {
		*o = Once{w: vsim.W}
	}
	vsim.Op("once")
	if o.done {
		vsim.Acquire(&o.clk)
		return
	}
	if o.running {
		vsim.Block("once", func() bool { return o.done })
		vsim.Acquire(&o.clk)
		return
	}
	o.running = true
	defer func() {
		o.done = true
		vsim.Release(&o.clk)
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool keeps everything put into it and hands out a seed-chosen element or a
// new one.
type Pool struct {
	New   func() any
	w     *vsim.World
	items []any
	clk   vsim.Clock
}

func (p *Pool) fresh() {
	if p.w != vsim.W {
		p.w, p.items, p.clk = vsim.W, nil, vsim.Clock{}
	}
}

func (p *Pool) Get() any {
	p.fresh()
	vsim.Op("pool.get")
	if len(p.items) > 0 {
		vsim.Acquire(&p.clk)
		i := len(p.items) - 1 - vsim.Choose("pool", len(p.items))
		x := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.fresh()
	vsim.Op("pool.put")
	if x == nil || vsim.W == nil {
		return
	}
	vsim.Release(&p.clk)
	p.items = append(p.items, x)
}

// Map keeps insertion order internally and is walked in a seed-chosen order.
type Map struct {
	w   *vsim.World
	m   map[any]any
	clk vsim.Clock
}

func (m *Map) fresh(op string) {
	if m.w != vsim.W || m.m == nil {
		if m.w != vsim.W {
			m.clk = vsim.Clock{}
		}
		if m.w != nil || m.m == nil { // entries made before any run are kept
			m.m = map[any]any{}
		}
		m.w = vsim.W
	}
	vsim.Op(op)
	vsim.Acquire(&m.clk)
	vsim.Release(&m.clk)
}

func (m *Map) Load(k any) (any, bool) {
	m.fresh("map.load")
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.fresh("map.store"); m.m[k] = v }
func (m *Map) Clear()         { m.fresh("map.clear"); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.fresh("map.loadorstore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.fresh("map.loaddelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.fresh("map.swap")
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.fresh("map.cas")
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.m[k] = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.fresh("map.cad")
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	delete(m.m, k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	m.fresh("map.range")
	for _, k := range vsim.Order(m.m) {
		vsim.Op("map.range")
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L    Locker
	wait []*bool
	clk  vsim.Clock
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	b := new(bool)
	c.wait = append(c.wait, b)
	c.L.Unlock()
	vsim.Block("cond", func() bool { return *b })
	vsim.Acquire(&c.clk)
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsim.Release(&c.clk)
	vsim.Op("signal")
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	vsim.Release(&c.clk)
	vsim.Op("broadcast")
	for _, b := range c.wait {
		*b = true
	}
	c.wait = nil
}

var _ = fmt.Sprint
