package main

import (
	"fmt"
	"math"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// A decoder written after the description of the protocol, and messages made of
// every kind of value with numbers in them that do not fit.

type refMsg struct {
	point uint32
	text  string
	stack []vsim.Frame
	field []lens.LensMonitorField
	left  int  // bytes after the message
	odd   bool // holds values no client encodes
}

type refReader struct {
	b     []byte
	limit int // longest slice; beyond it anything goes
	depth int
	odd   bool
}

type refBad string    // not a message
type refUnsure string // nothing is said about such a message

func (r *refReader) take(n uint64) []byte {
	if n > uint64(len(r.b)) {
		panic(refBad("ends too early"))
	}
	out := r.b[:n]
	r.b = r.b[n:]
	return out
}

func (r *refReader) num() uint64 {
	var v uint64
	for i := 0; ; i++ {
		c := r.take(1)[0]
		if i == 9 && c > 1 {
			panic(refUnsure("long number"))
		}
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			return v
		}
		if i == 9 {
			panic(refUnsure("long number"))
		}
	}
}

func (r *refReader) fixed(n int) uint64 {
	var v uint64
	for i, c := range r.take(uint64(n)) {
		v |= uint64(c) << (8 * i)
	}
	return v
}

func (r *refReader) signed() int64 {
	v := r.num()
	return int64(v>>1) ^ -int64(v&1)
}

func (r *refReader) str() string { return string(r.take(r.num())) }

func (r *refReader) count() int {
	n := r.num()
	if n > uint64(r.limit) {
		panic(refUnsure("long slice"))
	}
	return int(n)
}

func (r *refReader) i32() int32 {
	v := r.signed()
	r.odd = r.odd || v != int64(int32(v))
	return int32(v)
}

func (r *refReader) u32() uint32 {
	v := r.num()
	r.odd = r.odd || v > math.MaxUint32
	return uint32(v)
}

func (r *refReader) stack() (out []vsim.Frame) {
	n := r.num()
	if n > 2048 {
		panic(refUnsure("deep stack"))
	}
	if n == 0 {
		return nil
	}
	k := r.num()
	if k > 2*n {
		panic(refUnsure("large table"))
	}
	var table []string
	for i := uint64(0); i < k; i++ {
		table = append(table, r.str())
	}
	at := func() string {
		i := r.num()
		if i >= uint64(len(table)) {
			panic(refBad("names an entry the table does not have"))
		}
		return table[i]
	}
	for i := uint64(0); i < n; i++ {
		f := vsim.Frame{}
		f.File = at()
		f.Function = at()
		l := r.num()
		r.odd = r.odd || l > math.MaxInt32
		f.Line = int(l)
		out = append(out, f)
	}
	return out
}

func (r *refReader) fields(n uint64) (out []lens.LensMonitorField) {
	out = []lens.LensMonitorField{} // an empty list is not no list
	if r.depth++; r.depth > 5000 {
		panic(refUnsure("deep"))
	}
	defer func() { r.depth-- }()
	for i := uint64(0); i < n; i++ {
		f := lens.LensMonitorField{}
		f.Name = r.str()
		f.Type = r.str()
		f.Value, f.Children = r.value()
		out = append(out, f)
	}
	return out
}

func many[T any](r *refReader, one func() T) []T {
	out := make([]T, 0)
	for n := r.count(); n > 0; n-- {
		out = append(out, one())
	}
	return out
}

func (r *refReader) value() (any, []lens.LensMonitorField) {
	f32 := func() float32 { return math.Float32frombits(uint32(r.fixed(4))) }
	f64 := func() float64 { return math.Float64frombits(r.fixed(8)) }
	switch tag := r.take(1)[0]; tag {
	case 0x00:
		return nil, nil
	case 0x01:
		return r.take(1)[0] != 0, nil
	case 0x02:
		return r.i32(), nil
	case 0x03:
		return r.signed(), nil
	case 0x04:
		return r.u32(), nil
	case 0x05:
		return r.num(), nil
	case 0x06:
		return f32(), nil
	case 0x07:
		return f64(), nil
	case 0x08:
		re := f64()
		return complex(re, f64()), nil
	case 0x09:
		return r.str(), nil
	case 0x20:
		n := r.count()
		bits := r.take(uint64(n+7) / 8)
		out := make([]bool, n)
		for i := range out {
			out[i] = bits[i/8]>>(i%8)&1 == 1
		}
		return out, nil
	case 0x21:
		return append([]byte{}, r.take(uint64(r.count()))...), nil
	case 0x22:
		return many(r, r.i32), nil
	case 0x23:
		return many(r, r.signed), nil
	case 0x24:
		return many(r, r.u32), nil
	case 0x25:
		return many(r, r.num), nil
	case 0x26:
		return many(r, f32), nil
	case 0x27:
		return many(r, f64), nil
	case 0x28:
		return many(r, r.str), nil
	case 0x40, 0x42:
		return nil, r.fields(uint64(r.count()))
	case 0x41:
		return nil, r.fields(r.num())
	default:
		panic(refBad(fmt.Sprintf("has a value of unknown kind 0x%02x", tag)))
	}
}

// refDecode says what a body means. bad is not empty if it is not a message at
// all, and sure is false if nothing is said about it.
func refDecode(path string, body []byte, limit int) (m *refMsg, bad string, sure bool) {
	r := &refReader{b: body, limit: limit}
	defer func() {
		switch p := recover().(type) {
		case nil:
		case refBad:
			m, bad, sure = nil, string(p), true
		case refUnsure:
			m, bad, sure = nil, "", false
		default:
			panic(p)
		}
	}()
	m = &refMsg{}
	id := r.num()
	r.odd = id > math.MaxUint32
	m.point = uint32(id)
	switch path {
	case "/ast.0/event/error":
		m.text = r.str()
		m.stack = r.stack()
	case "/ast.0/point/panic":
		r.fixed(8)
		m.text = r.str()
	case "/ast.0/point/state":
		r.fixed(8)
		m.stack = r.stack()
		m.field = r.fields(r.num())
	default:
		r.fixed(8)
		m.stack = r.stack()
	}
	m.left, m.odd = len(r.b), r.odd
	return m, "", true
}

// crafted writes a message in which some of the numbers are wrong.
func crafted(x *X, path string, limit int) []byte {
	rate := []int{0, 20, 60, 150}[x.N(4)]
	var b []byte
	wrong := func(v uint64) uint64 {
		if rate == 0 || x.N(1000) >= rate {
			return v
		}
		vsim.Probe("damage.number")
		switch x.N(8) {
		case 0, 1, 2:
			return v + 1
		case 3:
			return v - 1
		case 4:
			return v*2 + uint64(x.N(3))
		case 5:
			return uint64(x.N(40))
		case 6:
			return uint64(1) << x.N(64)
		default:
			return v | 1<<uint(x.N(63))
		}
	}
	num := func(v uint64) { b = uvarint(b, wrong(v)) }
	str := func(s string) { num(uint64(len(s))); b = append(b, s...) }
	fixed := func(n int) {
		for i := 0; i < n; i++ {
			b = append(b, byte(x.N(256)))
		}
	}
	zig := func() { num(uint64(x.N(1 << 20))) }
	stack := func() {
		n := x.N(4)
		num(uint64(n))
		if n == 0 {
			return
		}
		t := 1 + x.N(2*n)
		num(uint64(t))
		for i := 0; i < t; i++ {
			str([]string{"/a/b.go", "pkg.Fn", "", "x"}[x.N(4)])
		}
		for i := 0; i < n; i++ {
			num(uint64(x.N(t)))
			num(uint64(x.N(t)))
			num(uint64(x.N(5000)))
		}
	}
	var fields func(n, depth int)
	fields = func(n, depth int) {
		for ; n > 0; n-- {
			str([]string{"a", "name", ""}[x.N(3)])
			str([]string{"int", "[]pkg.T"}[x.N(2)])
			tags := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x40, 0x41, 0x42}
			if depth == 0 {
				tags = tags[:len(tags)-3]
			}
			tag := tags[x.N(len(tags))]
			b = append(b, byte(wrong(uint64(tag))))
			k := x.N(4)
			if x.Pct(15) {
				k = x.N(limit + 3)
			}
			switch tag {
			case 1:
				fixed(1)
			case 2, 3:
				zig()
			case 4, 5:
				num(uint64(x.N(1 << 20)))
			case 6:
				fixed(4)
			case 7:
				fixed(8)
			case 8:
				fixed(16)
			case 9:
				str("hello world"[:x.N(12)])
			case 0x20:
				num(uint64(k))
				fixed((k + 7) / 8)
			case 0x21:
				num(uint64(k))
				fixed(k)
			case 0x22, 0x23, 0x24, 0x25:
				num(uint64(k))
				for i := 0; i < k; i++ {
					zig()
				}
			case 0x26:
				num(uint64(k))
				fixed(4 * k)
			case 0x27:
				num(uint64(k))
				fixed(8 * k)
			case 0x28:
				num(uint64(k))
				for i := 0; i < k; i++ {
					str("ab"[:x.N(3)])
				}
			case 0x40, 0x41, 0x42:
				k = x.N(4)
				num(uint64(k))
				fields(k, depth-1)
			}
		}
	}
	num(uint64(x.N(1000)))
	switch path {
	case "/ast.0/event/error":
		str("POST failed")
		stack()
	case "/ast.0/point/panic":
		fixed(8)
		str([]string{"boom", "", "index out of range"}[x.N(3)])
	case "/ast.0/point/state":
		fixed(8)
		stack()
		n := x.N(4)
		num(uint64(n))
		fields(n, 3)
	default:
		fixed(8)
		stack()
	}
	if x.Pct(10) && len(b) > 0 {
		b = b[:x.N(len(b))]
	}
	return b
}

// refDiff compares what a handler was given with what a body means.
func (m *refMsg) diff(h *recorder, path string) string {
	var got []lens.SimFrame
	switch path {
	case "/ast.0/point/panic":
		g := h.panics[len(h.panics)-1]
		if g.PointID != m.point || g.Message != m.text {
			return fmt.Sprintf("panic %d %q decoded as %d %q", m.point, m.text, g.PointID, g.Message)
		}
		return ""
	case "/ast.0/point/point":
		g := h.points[len(h.points)-1]
		if g.PointID != m.point {
			return fmt.Sprintf("point %d decoded as %d", m.point, g.PointID)
		}
		got = lens.SimStack(g.Stack)
	case "/ast.0/point/state":
		g := h.states[len(h.states)-1]
		if g.PointID != m.point {
			return fmt.Sprintf("point %d decoded as %d", m.point, g.PointID)
		}
		if len(g.Fields) != len(m.field) {
			return fmt.Sprintf("%d fields decoded, the message has %d", len(g.Fields), len(m.field))
		}
		for i := range m.field {
			if a, b := fromMsg(g.Fields[i]).String(), fromMsg(m.field[i]).String(); a != b {
				return fmt.Sprintf("field decoded as %s, it is %s", clip(a), clip(b))
			}
		}
		got = lens.SimStack(g.Stack)
	}
	return sameStack(got, m.stack)
}
