package main

import (
	"fmt"
	"sort"
	"strings"
)

// A register history: operations on one key with the step numbers of their
// invocation and return.
type regOp struct {
	kind      string // "save", "del", "load", "has"
	val       string // save: value; load: value read
	found     bool   // load and has: result
	maybe     bool   // failed write: may or may not have taken effect
	call, ret int
	who       string
}

func (o regOp) String() string {
	s := fmt.Sprintf("%s[%d..%d] %s", o.who, o.call, o.ret, o.kind)
	switch o.kind {
	case "save":
		s += " " + clip(o.val)
	case "load":
		if o.found {
			s += " = " + clip(o.val)
		} else {
			s += " = not found"
		}
	case "has":
		s += fmt.Sprintf(" = %v", o.found)
	}
	if o.maybe {
		s += " (failed)"
	}
	return s
}

// linearizable searches for an order of the operations that respects real time
// and explains every result, starting from an absent key.
func linearizable(ops []regOp) (bool, string) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	n := len(ops)
	if n > 60 {
		panic("history too long")
	}
	type st struct {
		done uint64
		val  string
		has  bool
	}
	seen := map[st]bool{}
	var rec func(s st) bool
	rec = func(s st) bool {
		if s.done == uint64(1)<<n-1 {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		minRet := 1 << 60
		for i := range ops {
			if s.done&(1<<i) == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := range ops {
			if s.done&(1<<i) != 0 || ops[i].call > minRet {
				continue
			}
			o := ops[i]
			d := s.done | 1<<i
			switch o.kind {
			case "save":
				if rec(st{d, o.val, true}) {
					return true
				}
				if o.maybe && rec(st{d, s.val, s.has}) {
					return true
				}
			case "del":
				if rec(st{d, "", false}) {
					return true
				}
				if o.maybe && rec(st{d, s.val, s.has}) {
					return true
				}
			case "load":
				if o.found == s.has && (!o.found || o.val == s.val) && rec(st{d, s.val, s.has}) {
					return true
				}
			case "has":
				if o.found == s.has && rec(st{d, s.val, s.has}) {
					return true
				}
			}
		}
		return false
	}
	if rec(st{}) {
		return true, ""
	}
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "\n  %s", o)
	}
	return false, b.String()
}
