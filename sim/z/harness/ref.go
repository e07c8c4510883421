package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"

	"github.com/mtraver/base91"

	"github.com/PatchLens/go-update-lens/lens"
)

// An independent account of what a captured value is: the tree a server has to
// decode from the client's message, and the form it is recorded in.

type refF struct {
	name, typ string
	val       any
	box       bool // container
	kids      []refF
}

type refEnc struct{ max, deep int }

func (r *refEnc) limit(s string) string {
	if len(s) > r.max {
		return s[:r.max] + "…(" + strconv.Itoa(len(s)-r.max) + " more)"
	}
	return s
}

func refValue(consts map[string]int, name string, val any) refF {
	r := &refEnc{max: consts["lensMonitorFieldMaxLen"], deep: consts["lensMonitorFieldMaxRecurse"]}
	return r.field(name, reflect.ValueOf(val), 0, nil, "")
}

// refKey says when two references are to the same thing.
type refKey struct {
	addr uintptr
	typ  reflect.Type
	n    int
}

func (r *refEnc) field(name string, v reflect.Value, depth int, seen map[refKey]string, parent string) refF {
	path := name
	if parent != "" {
		path = parent + "." + name
	}
	f := refF{name: name}
	if !v.IsValid() {
		f.typ = "invalid"
		return f
	}
	again := func(p refKey) bool {
		if first, ok := seen[p]; ok {
			f.typ, f.val = v.Type().String(), "<cycle:"+first+">"
			return true
		}
		if seen == nil { // addresses are shared below the first value that has one
			seen = map[refKey]string{}
		}
		seen[p] = path
		return false
	}
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		if v.IsNil() {
			f.typ = v.Type().String()
			return f
		}
		if v.Kind() == reflect.Pointer && again(refKey{v.Pointer(), v.Type(), 0}) {
			return f
		}
		v = v.Elem()
	}
	f.typ = v.Type().String()
	if depth >= r.deep {
		f.val = "<max-depth>"
		return f
	}
	switch v.Kind() {
	case reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
		if v.IsNil() {
			return f
		}
		n := 0
		if v.Kind() == reflect.Slice {
			n = v.Len()
		}
		if (n > 0 || v.Kind() != reflect.Slice) && again(refKey{v.Pointer(), v.Type(), n}) {
			return f
		}
	}
	sub := func(n string, v reflect.Value) {
		f.box = true
		f.kids = append(f.kids, r.field(n, v, depth+1, seen, path))
	}
	switch v.Kind() {
	case reflect.Bool:
		f.val = v.Bool()
	case reflect.Int8, reflect.Int16, reflect.Int32:
		f.val = int32(v.Int())
	case reflect.Int, reflect.Int64:
		f.val = v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		f.val = uint32(v.Uint())
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		f.val = v.Uint()
	case reflect.Float32:
		f.val = float32(v.Float())
	case reflect.Float64:
		f.val = v.Float()
	case reflect.Complex64, reflect.Complex128:
		f.val = v.Complex()
	case reflect.String:
		f.val = r.limit(v.String())
	case reflect.Func:
		f.val = "<func>"
	case reflect.Chan:
		f.val = "<chan>"
	case reflect.Slice, reflect.Array:
		n := min(v.Len(), r.max)
		switch v.Type().Elem().Kind() {
		case reflect.Bool:
			f.val = collect(n, func(i int) bool { return v.Index(i).Bool() })
		case reflect.Int8, reflect.Int16, reflect.Int32:
			f.val = collect(n, func(i int) int32 { return int32(v.Index(i).Int()) })
		case reflect.Int, reflect.Int64:
			f.val = collect(n, func(i int) int64 { return v.Index(i).Int() })
		case reflect.Uint8:
			b := collect(n, func(i int) byte { return byte(v.Index(i).Uint()) })
			if utf8.Valid(b) {
				f.val = string(b)
			} else {
				f.val = b
			}
		case reflect.Uint16, reflect.Uint32:
			f.val = collect(n, func(i int) uint32 { return uint32(v.Index(i).Uint()) })
		case reflect.Uint, reflect.Uint64, reflect.Uintptr:
			f.val = collect(n, func(i int) uint64 { return v.Index(i).Uint() })
		case reflect.Float32:
			f.val = collect(n, func(i int) float32 { return float32(v.Index(i).Float()) })
		case reflect.Float64:
			f.val = collect(n, func(i int) float64 { return v.Index(i).Float() })
		case reflect.String:
			f.val = collect(n, func(i int) string { return r.limit(v.Index(i).String()) })
		default:
			f.box = true
			for i := 0; i < n; i++ {
				sub(fmt.Sprintf("[%d]", i), v.Index(i))
			}
		}
	case reflect.Map:
		f.box = true
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return refLess(ks[i], ks[j]) })
		if len(ks) > r.max {
			ks = ks[:r.max]
		}
		for _, k := range ks {
			sub(fmt.Sprint(k.Interface()), v.MapIndex(k))
		}
	case reflect.Struct:
		f.box = true
		if !v.CanAddr() {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			v = t
		}
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			if !fv.CanInterface() {
				fv = reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
			}
			sub(v.Type().Field(i).Name, fv)
		}
	default:
		bad("value of kind %s", v.Kind())
	}
	return f
}

func collect[T any](n int, get func(i int) T) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = get(i)
	}
	return out
}

func refLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int:
		return a.Int() < b.Int()
	case reflect.Uint8:
		return a.Uint() < b.Uint()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	bad("map key of kind %s", a.Kind())
	return false
}

// recorded is the form kept in results.
func (f refF) recorded() *xfield {
	if len(f.kids) == 0 {
		s := fmt.Sprint(f.val)
		if f.box {
			s = fmt.Sprint(nil)
		}
		if !strings.HasSuffix(f.typ, "string") && len(s) > 128 {
			h := sha1.Sum([]byte(s))
			s = lens.HashFieldValuePrefix + base91.StdEncoding.EncodeToString(h[:])
		}
		return &xfield{leaf: s}
	}
	x := &xfield{kids: map[string]*xfield{}}
	for _, k := range f.kids {
		x.kids[k.name] = k.recorded()
	}
	return x
}

func refFields(consts map[string]int, names []string, vals []any) map[string]*xfield {
	out := map[string]*xfield{}
	for i, n := range names {
		if n != "nil" {
			out[n] = refValue(consts, n, vals[i]).recorded()
		}
	}
	return out
}

func (f refF) String() string {
	var b bytes.Buffer
	f.write(&b)
	return b.String()
}

func (f refF) write(b *bytes.Buffer) {
	fmt.Fprintf(b, "%s %s=", f.name, f.typ)
	if !f.box {
		fmt.Fprintf(b, "%T(%#v)", f.val, f.val)
		return
	}
	b.WriteString("{")
	for _, k := range f.kids {
		k.write(b)
		b.WriteString("; ")
	}
	b.WriteString("}")
}

func fromMsg(m lens.LensMonitorField) refF {
	f := refF{name: m.Name, typ: m.Type, val: m.Value, box: m.Children != nil}
	for _, k := range m.Children {
		f.kids = append(f.kids, fromMsg(k))
	}
	return f
}

// ---- values to send ----

type namedStr string
type inner struct {
	A int
	b string
	C []byte
}
type outer struct {
	In   inner
	P    *inner
	I    any
	M    map[string]any
	arr  [2]int16
	L    []inner
	self *outer
	fn   func()
	ch   chan int
	f32  []float32
}

func genString(x *X) string {
	switch x.N(6) {
	case 1:
		return ""
	case 2:
		return strings.Repeat("ab", 1+x.N(60))
	case 3:
		return "häß\x00\xff\xfe"
	case 4:
		return strings.Repeat("z", 100+x.N(300))
	}
	return fmt.Sprintf("s%d", x.N(1000))
}

func genValue(x *X, depth int) any {
	n := x.N(6)
	switch k := x.N(39); k {
	case 1:
		return x.Pct(50)
	case 2:
		return int8(x.N(256) - 128)
	case 3:
		return int64(x.N(1<<30)) << 31
	case 4:
		return -x.N(1 << 30)
	case 5:
		return uint16(x.N(1 << 16))
	case 6:
		return ^uint64(0) - uint64(x.N(3))
	case 7:
		return float32(x.N(1000)) / 7
	case 8:
		return float64(x.N(1000)) / 3
	case 9:
		return complex(float64(x.N(9)), -1)
	case 10:
		return genString(x)
	case 11:
		return namedStr(genString(x))
	case 12:
		return collect(x.N(20), func(i int) bool { return x.N(2) == 1 })
	case 13:
		return []byte(genString(x))
	case 14:
		return collect(n, func(i int) int32 { return int32(x.N(1<<30) - 1<<29) })
	case 15:
		return collect(x.N(80), func(i int) int { return x.N(1 << 20) })
	case 16:
		return collect(n, func(i int) uint32 { return uint32(x.N(1 << 30)) })
	case 17:
		return collect(n, func(i int) uint64 { return uint64(x.N(1<<30)) << 34 })
	case 18:
		return collect(n, func(i int) float32 { return float32(x.N(99)) / 8 })
	case 19:
		return collect(n, func(i int) float64 { return float64(x.N(99)) / 9 })
	case 20:
		return collect(x.N(9), func(i int) string { return genString(x) })
	case 21:
		return [3]uint8{1, 200, byte(n)}
	case 22:
		m := map[string]any{}
		for i := 0; i < n && depth < 3; i++ {
			m[fmt.Sprintf("k%d", i)] = genValue(x, depth+1)
		}
		return m
	case 23:
		m := map[int]string{}
		for i := 0; i < x.N(30); i++ {
			m[x.N(100)-50] = genString(x)
		}
		return m
	case 24:
		return map[bool]*inner{true: {A: 1}, false: nil}
	case 25:
		return nil
	case 26:
		return (*inner)(nil)
	case 27:
		return fmt.Errorf("failed %d", n)
	case 28:
		return func() {}
	case 29:
		if depth >= 3 {
			return nil
		}
		return collect(n, func(i int) any { return genValue(x, depth+1) })
	case 30, 31:
		if depth >= 3 {
			return inner{A: n}
		}
		in := &inner{A: n, b: genString(x), C: []byte{1}}
		o := &outer{In: *in, P: in, I: genValue(x, depth+1), M: map[string]any{"q": in}, L: collect(n, func(i int) inner { return inner{A: i} })}
		if x.Pct(30) {
			o.self = o
		}
		if x.Pct(30) {
			o.ch, o.fn = make(chan int), func() {}
		}
		if x.Pct(50) {
			return o
		}
		return *o
	case 32:
		type node struct {
			Next *node
			V    int
		}
		var h *node
		for i := 0; i < x.N(12); i++ {
			h = &node{h, i}
		}
		return h
	case 34: // parts of one array, which begin at one address
		all := collect(1+n, func(i int) int { return x.N(9) })
		k := x.N(len(all) + 1)
		if x.Pct(50) {
			return map[string]any{"head": all[:k], "all": all, "tail": all[k:], "again": all}
		}
		return struct {
			Head, All []int
			First     *int
		}{all[:k], all, &all[0]}
	case 35: // a struct and its first field
		o := &outer{In: inner{A: x.N(9), b: "q"}}
		if x.Pct(50) {
			return []any{&o.In, o, &o.In.A}
		}
		return []any{&o.In.A, &o.In, *o}
	case 36: // references that lead back through interfaces
		var y any
		switch x.N(3) {
		case 0:
			y = &y
		case 1:
			s := []any{n, nil}
			s[1] = &s
			y = s
		case 2:
			o := &outer{In: inner{A: n}}
			o.I = o
			o.M = map[string]any{"up": o, "in": &o.In}
			y = o
		}
		return y
	case 37: // pointers to pointers
		p := &inner{A: n}
		q := &p
		return []any{&q, q, p, *p}
	case 38: // empty values
		return []any{[]int{}, []int{}, []string{}, &struct{}{}, map[string]int{}, []outer{}}
	case 33:
		m := map[string]any{"x": 1, "x.y": 2, "z": map[string]any{"x.y": 3, "a\\b": 4}}
		m["me"] = m
		return m
	}
	return x.N(100)
}
