package vsim

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

// ---- happens-before clocks ----

type Clock struct{ v []uint32 }

func (w *World) tick(t *Task) {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// Release publishes the current task's history through c.
func Release(c *Clock) {
	w := W
	if w == nil {
		return
	}
	t := w.cur
	join(&c.v, t.vc)
	w.tick(t)
}

// Acquire takes over the history published through c.
func Acquire(c *Clock) {
	w := W
	if w == nil {
		return
	}
	join(&w.cur.vc, c.v)
}

func join(a *[]uint32, b []uint32) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

type mapState struct {
	keep  any
	wTask int
	wClk  uint32
	reads map[int]uint32
}

func at(v []uint32, i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func access[M ~map[K]V, K comparable, V any](m M, write bool) {
	w := W
	if w == nil || len(w.tasks) < 2 || m == nil || w.noRace > 0 {
		return
	}
	p := mapPtr(m)
	s := w.maps[p]
	t := w.cur
	if s == nil {
		s = &mapState{keep: m, wTask: -1}
		w.maps[p] = s
	}
	if s.wTask >= 0 && s.wTask != t.ID && at(t.vc, s.wTask) < s.wClk {
		w.fail("map-race", fmt.Sprintf("concurrent access to one map of type %T by task %d (%s) and task %d (%s): the Go runtime aborts the process when this happens", m,
			t.ID, t.Name, s.wTask, w.tasks[s.wTask].Name))
	}
	clk := at(t.vc, t.ID)
	if write {
		for id, c := range s.reads {
			if id != t.ID && at(t.vc, id) < c {
				w.fail("map-race", fmt.Sprintf("concurrent map write and read, type %T, by task %d (%s) and task %d (%s): the Go runtime aborts the process when this happens", m,
					t.ID, t.Name, id, w.tasks[id].Name))
			}
		}
		s.wTask, s.wClk = t.ID, clk
		s.reads = nil
		return
	}
	if s.reads == nil {
		s.reads = map[int]uint32{}
	}
	s.reads[t.ID] = clk
}

// MR and MW report a map read or write and return the map.
func MR[M ~map[K]V, K comparable, V any](m M) M { access(m, false); return m }
func MW[M ~map[K]V, K comparable, V any](m M) M { access(m, true); return m }

// ---- map iteration ----

// Order returns the keys of m in a seed-determined order, independent of the
// runtime's random one.
func Order[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	SortAny(keys)
	Shuffle("maporder", len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

// Shuffle permutes by recorded choices; the default is no change.
func Shuffle(stream string, n int, swap func(i, j int)) {
	w := W
	if w == nil || n < 2 {
		return
	}
	r := w.choose(stream, "permutation", 1<<30, func(r *rng) int {
		if r.intn(3) == 0 {
			return 0
		}
		return 1 + r.intn(1<<30-1)
	})
	if r == 0 {
		return
	}
	g := rng{uint64(r)}
	for i := n - 1; i > 0; i-- {
		swap(i, g.intn(i+1))
	}
}

// SortAny sorts keys of any comparable type by a canonical order where there
// is one.
func SortAny[K any](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []uint32:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	if len(keys) < 2 {
		return
	}
	sort.SliceStable(keys, func(i, j int) bool { return lessAny(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) < 0 })
}

func lessAny(a, b reflect.Value) int {
	if !a.IsValid() || !b.IsValid() {
		return 0
	}
	if a.Kind() != b.Kind() {
		return cmp.Compare(a.Kind(), b.Kind())
	}
	switch a.Kind() {
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.Bool:
		if a.Bool() == b.Bool() {
			return 0
		} else if b.Bool() {
			return -1
		}
		return 1
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := lessAny(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := lessAny(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	case reflect.Interface:
		return lessAny(a.Elem(), b.Elem())
	case reflect.Pointer:
		// keys such as *string: order by what they point to
		switch {
		case a.IsNil() && b.IsNil():
			return 0
		case a.IsNil():
			return -1
		case b.IsNil():
			return 1
		}
		if i, ok := W.rank[a.Pointer()]; ok {
			if j, ok := W.rank[b.Pointer()]; ok {
				return cmp.Compare(i, j)
			}
		}
		if k := a.Elem().Kind(); k != reflect.Struct {
			return lessAny(a.Elem(), b.Elem())
		}
	}
	return 0
}

// Rank gives a pointer a place in the canonical order of map keys.
func Rank(p any, i int) {
	v := reflect.ValueOf(p).Pointer()
	if W.rank == nil {
		W.rank = map[uintptr]int{}
	}
	W.rank[v] = i
	W.pins = append(W.pins, p)
}

func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if W == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		access(m, false)
		for _, k := range Order(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			access(m, false)
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	access(m, false)
	return Order(m)
}

func ReflectMapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	if W == nil {
		return ks
	}
	sort.SliceStable(ks, func(i, j int) bool { return lessAny(ks[i], ks[j]) < 0 })
	Shuffle("maporder", len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

// MapIter stands in for reflect.MapIter.
type MapIter struct {
	m  reflect.Value
	ks []reflect.Value
	i  int
}

func ReflectMapRange(v reflect.Value) *MapIter {
	return &MapIter{m: v, ks: ReflectMapKeys(v), i: -1}
}
func (it *MapIter) Next() bool           { it.i++; return it.i < len(it.ks) }
func (it *MapIter) Key() reflect.Value   { return it.ks[it.i] }
func (it *MapIter) Value() reflect.Value { return it.m.MapIndex(it.ks[it.i]) }

// ---- channels ----
//
// Channels stay real Go channels; operations are non-blocking attempts. For
// unbuffered channels a rendezvous queue is kept on the side.

type waiting struct {
	v     any
	taken bool
}

type chanState struct {
	send   []*waiting // queued senders of an unbuffered channel
	recv   int        // receivers waiting
	clk    Clock
	closed bool
}

func (w *World) ch(p unsafe.Pointer) *chanState {
	m, _ := w.Vals["chans"].(map[unsafe.Pointer]*chanState)
	if m == nil {
		m = map[unsafe.Pointer]*chanState{}
		w.Vals["chans"] = m
	}
	s := m[p]
	if s == nil {
		s = &chanState{}
		m[p] = s
	}
	return s
}

// chPtr identifies a channel; as a key it also keeps the channel alive, so that
// no other channel gets its address during the run.
func chPtr(c any) unsafe.Pointer { return reflect.ValueOf(c).UnsafePointer() }

func trySend[T any](s *chanState, c chan<- T, v T) bool {
	if cap(c) == 0 {
		return false
	}
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

func Send[T any](c chan<- T, v T) {
	w := W
	if w == nil {
		c <- v
		return
	}
	if c == nil {
		Block("send on nil channel", func() bool { return false })
	}
	s := w.ch(chPtr(c))
	Y()
	if s.closed {
		panic("send on closed channel")
	}
	Release(&s.clk)
	if cap(c) > 0 {
		ok := false
		Block("chan send", func() bool {
			if ok || s.closed {
				return true
			}
			return len(c) < cap(c)
		})
		if s.closed {
			panic("send on closed channel")
		}
		c <- v
		return
	}
	q := &waiting{v: v}
	s.send = append(s.send, q)
	Block("chan send", func() bool { return q.taken || s.closed })
	if !q.taken {
		panic("send on closed channel")
	}
	Acquire(&s.clk)
}

// tryRecv reports done when a value was received or the channel is closed.
func tryRecv[T any](w *World, s *chanState, c <-chan T) (v T, ok, done bool) {
	if len(s.send) > 0 {
		q := s.send[0]
		s.send = s.send[1:]
		q.taken = true
		v, _ = q.v.(T)
		return v, true, true
	}
	select {
	case v, ok = <-c:
		return v, ok, true
	default:
		return v, false, false
	}
}

// canRecv is a readiness test without side effects on buffered channels; for
// unbuffered ones a real non-blocking receive only succeeds when closed.
func canRecv[T any](s *chanState, c <-chan T) bool {
	if len(s.send) > 0 || len(c) > 0 {
		return true
	}
	if s.closed {
		return true
	}
	if cap(c) == 0 {
		select {
		case _, ok := <-c:
			return !ok
		default:
			return false
		}
	}
	// a buffered, empty channel closed by code outside the simulation
	return false
}

func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	w := W
	if w == nil {
		v, ok := <-c
		return v, ok
	}
	if c == nil {
		Block("receive on nil channel", func() bool { return false })
	}
	s := w.ch(chPtr(c))
	s.recv++
	for {
		Block("chan recv", func() bool { return canRecv(s, c) })
		if v, ok, done := tryRecv(w, s, c); done {
			s.recv--
			Acquire(&s.clk)
			Release(&s.clk)
			return v, ok
		}
	}
}

func RangeChan[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func Close[T any](c chan<- T) {
	if w := W; w != nil && c != nil {
		Y()
		s := w.ch(chPtr(c))
		Release(&s.clk)
		s.closed = true
	}
	close(c)
}

type Case interface {
	can() bool
	do() bool
	arm()
	disarm()
}

type recvCase[T any] struct {
	c  <-chan T
	s  *chanState
	v  T
	ok bool
}

func RecvCase[T any](c <-chan T) *recvCase[T] {
	r := &recvCase[T]{c: c}
	if W != nil && c != nil {
		r.s = W.ch(chPtr(c))
	}
	return r
}
func (r *recvCase[T]) Val() T          { return r.v }
func (r *recvCase[T]) Val2() (T, bool) { return r.v, r.ok }
func (r *recvCase[T]) can() bool       { return r.c != nil && canRecv(r.s, r.c) }
func (r *recvCase[T]) arm() {
	if r.s != nil {
		r.s.recv++
	}
}
func (r *recvCase[T]) disarm() {
	if r.s != nil {
		r.s.recv--
	}
}
func (r *recvCase[T]) do() bool {
	var done bool
	r.v, r.ok, done = tryRecv(W, r.s, r.c)
	if done {
		Acquire(&r.s.clk)
	}
	return done
}

type sendCase[T any] struct {
	c chan<- T
	s *chanState
	v T
}

func SendCase[T any](c chan<- T, v T) *sendCase[T] {
	r := &sendCase[T]{c: c, v: v}
	if W != nil && c != nil {
		r.s = W.ch(chPtr(c))
	}
	return r
}
func (r *sendCase[T]) arm()    {}
func (r *sendCase[T]) disarm() {}
func (r *sendCase[T]) can() bool {
	if r.c == nil {
		return false
	}
	if r.s.closed {
		return true
	}
	if cap(r.c) > 0 {
		return len(r.c) < cap(r.c)
	}
	return r.s.recv > len(r.s.send)
}
func (r *sendCase[T]) do() bool {
	if r.s.closed {
		panic("send on closed channel")
	}
	Release(&r.s.clk)
	if cap(r.c) > 0 {
		r.c <- r.v
		return true
	}
	r.s.send = append(r.s.send, &waiting{v: r.v, taken: false})
	return true
}

// Select runs one ready case and returns its index, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w == nil {
		panic("vsim: select outside of a run")
	}
	Y()
	ready := func() []int {
		var r []int
		for i, c := range cases {
			if c.can() {
				r = append(r, i)
			}
		}
		return r
	}
	for _, c := range cases {
		c.arm()
	}
	defer func() {
		for _, c := range cases {
			c.disarm()
		}
	}()
	for {
		r := ready()
		if len(r) == 0 {
			if hasDefault {
				return -1
			}
			Block("select", func() bool { return len(ready()) > 0 })
			continue
		}
		i := r[Choose("select", len(r))]
		if cases[i].do() {
			return i
		}
	}
}

// CloseQuiet closes a channel without a scheduling point (timer callbacks).
func CloseQuiet[T any](c chan T) {
	if w := W; w != nil {
		s := w.ch(chPtr(c))
		Release(&s.clk)
		s.closed = true
	}
	close(c)
}
