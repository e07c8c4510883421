package main

import (
	"fmt"
	"strings"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vbadger"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// C01: concurrent callers on every backend, checked key by key against an
// atomic register.
func init() {
	register(&Scenario{Name: "storage", Props: []string{"C01"}, Quick: 60000, Run: storageScenario})
	register(&Scenario{Name: "storage-reserved-key", Props: []string{"C01"}, Known: "K01", Run: storageReserved})
	components["C01"] = component{
		real:   []string{"memStorage, badgerStorage (splitting, markers, transactions' bodies) and KeyPrefixStorage from lens/storage.go, rewritten with scheduling points"},
		stub:   []string{"Badger itself: a versioned map with Badger's transaction semantics", "disk: real files in a scratch directory behind a fault-injecting os"},
		assume: []string{"Badger's transactions behave as documented: snapshot reads, atomic commit, conflict detection on keys read"},
	}
}

type storeOp struct {
	view int
	kind string
	key  string
	val  []byte
}

func storageScenario(x *X) {
	backend := x.N(2) // 0 badger, 1 memory
	limit := []int{8, 20, 64, 5}[x.N(4)]
	lens.SimSetSplitLimit(limit)
	var root lens.Storage
	if backend == 1 {
		root = lens.NewMemStorage()
	} else {
		s, err := lens.NewBadgerStorage(x.Path("db"), 64)
		must(err)
		root = s
	}
	faults := &vbadger.SimFaults{}
	if backend == 0 && x.Pct(40) {
		r := []int{10, 40, 120}[x.N(3)]
		faults.Get, faults.Set, faults.Commit = r, r, r
		faults.Max = 1 + x.N(4)
	}
	vbadger.SimSetFaults(faults)
	prefixes := []string{""}
	switch x.N(4) {
	case 1:
		prefixes = []string{"pre", "post"}
	case 2:
		prefixes = []string{"pre", "pre1", "post"}
	case 3:
		prefixes = []string{"a", "ab"}
	}
	var views []lens.Storage
	for _, p := range prefixes {
		views = append(views, lens.KeyPrefixStorage(root, p))
	}
	nkeys := 1 + x.N(3)
	names := []string{"k", "k2", "k;x", "pkg/T-1"}[:nkeys]
	if x.Pct(15) { // the store's own marker inside a key
		names[0] = "k-badger_split:k;1"
	}
	callers := 2 + x.N(3)
	withClear := x.Pct(25)
	var plan [][]storeOp
	seq := 0
	for c := 0; c < callers; c++ {
		var ops []storeOp
		n := 2 + x.N(5)
		for i := 0; i < n; i++ {
			seq++
			o := storeOp{view: x.N(len(views)), key: names[x.N(len(names))]}
			switch k := x.N(12); {
			case k < 5:
				o.kind = "save"
				size := []int{limit - 1, limit, limit + 1, limit * 2, limit*3 + 1, 0, 1, limit*2 + 1}[x.N(8)]
				b := []byte(fmt.Sprintf("v%d.", seq))
				for len(b) < size {
					b = append(b, byte('a'+(seq+len(b))%26))
				}
				if size < len(b) {
					b = b[:size]
				}
				if size == 1 {
					b = []byte{byte(seq)}
				}
				if x.Pct(4) { // bytes that look like the store's own bookkeeping
					b = []byte(fmt.Sprintf("badger_split:%d:%d:%d", 1+x.N(3), 5+seq, seq))
				}
				o.val = b
			case k < 9:
				o.kind = "load"
			case k < 10:
				o.kind = "del"
			case k < 11:
				o.kind = "list"
			default:
				if withClear {
					o.kind = "clear"
				} else {
					o.kind = "load"
				}
			}
			ops = append(ops, o)
		}
		plan = append(plan, ops)
	}
	x.Say("backend %s, split limit %d, views %q, %d callers, faults %v", []string{"badger", "memory"}[backend], limit, prefixes, callers, faults.Max)

	// history per view and key
	type hk struct {
		view int
		key  string
	}
	hist := map[hk][]regOp{}
	all := []hk{}
	for v := range views {
		for _, n := range names {
			all = append(all, hk{v, n})
		}
	}
	clock := 0
	tick := func() int { clock++; return clock }
	type span struct {
		call, ret int
		op        storeOp
		err       error
		who       string
	}
	var spans []*span
	do := func(who string, o storeOp) {
		sp := &span{call: tick(), op: o, who: who, ret: 1 << 50}
		spans = append(spans, sp)
		s := views[o.view]
		var got []byte
		var found bool
		var keys []string
		switch o.kind {
		case "save":
			buf := append([]byte(nil), o.val...)
			sp.err = s.SaveState(o.key, buf)
			for i := range buf { // the caller reuses its buffer
				buf[i] = '#'
			}
		case "load":
			got, found, sp.err = s.LoadState(o.key)
		case "del":
			sp.err = s.DeleteState(o.key)
		case "list":
			keys, sp.err = s.ListKeys()
		case "listp":
			keys, sp.err = s.ListKeysPrefix("k")
		case "clear":
			sp.err = s.Clear()
		}
		sp.ret = tick()
		vsim.Logf("%s %s view %q %s %s -> %s found=%v %q err=%v", who, o.kind, prefixes[o.view], o.key, clip(string(o.val)), clip(string(got)), found, keys, sp.err)
		add := func(k hk, r regOp) {
			r.call, r.ret, r.who = sp.call, sp.ret, who
			hist[k] = append(hist[k], r)
		}
		switch o.kind {
		case "save":
			add(hk{o.view, o.key}, regOp{kind: "save", val: string(o.val), maybe: sp.err != nil})
		case "del":
			add(hk{o.view, o.key}, regOp{kind: "del", maybe: sp.err != nil})
		case "load":
			if sp.err == nil {
				add(hk{o.view, o.key}, regOp{kind: "load", val: string(got), found: found})
				x.Check("C01", found || len(got) == 0, "storage", "load of %q reports not found but returns %s", o.key, clip(string(got)))
				for i := range got {
					got[i] = '!'
				}
			}
		case "list", "listp":
			if sp.err == nil {
				seen := map[string]bool{}
				for _, k := range keys {
					x.Check("C01", !seen[k], "listing", "key %q listed twice in view %q", k, prefixes[o.view])
					seen[k] = true
					ok := false
					for _, n := range names {
						ok = ok || n == k
					}
					x.Check("C01", ok, "listing", "view %q lists %q, which nobody saved there", prefixes[o.view], k)
				}
				for _, n := range names {
					if o.kind == "listp" && !strings.HasPrefix(n, "k") {
						continue
					}
					add(hk{o.view, n}, regOp{kind: "has", found: seen[n]})
				}
			}
		case "clear":
			for _, k := range all {
				if k.view == o.view {
					add(k, regOp{kind: "del", maybe: sp.err != nil})
				}
			}
		}
	}
	faults.On = true
	var fs []func()
	for c, ops := range plan {
		fs = append(fs, func() {
			for _, o := range ops {
				do(fmt.Sprintf("c%d", c), o)
			}
		})
	}
	parallel(fs...)
	faults.On = false
	vsim.Probe("storage.concurrent")
	// afterwards everything must be readable
	for v := range views {
		for _, n := range names {
			do("end", storeOp{view: v, kind: "load", key: n})
		}
		do("end", storeOp{view: v, kind: "list"})
		do("end", storeOp{view: v, kind: "listp"})
	}
	// errors without a reason
	for _, a := range spans {
		if a.err == nil || faults.Done > 0 {
			continue
		}
		excuse := false
		for _, b := range spans {
			if a == b || b.call > a.ret || a.call > b.ret {
				continue
			}
			switch b.op.kind {
			case "clear":
				excuse = true
			case "save", "del":
				if a.op.kind == "save" || a.op.kind == "del" || a.op.kind == "clear" {
					excuse = excuse || (a.op.view == b.op.view && (a.op.key == b.op.key || a.op.kind == "clear"))
				}
			}
		}
		if excuse {
			vsim.Probe("storage.conflict_error")
			continue
		}
		x.Check("C01", false, "error", "%s of %q in view %q failed although nothing went wrong and nobody else was writing that key: %v", a.op.kind, a.op.key, prefixes[a.op.view], a.err)
	}
	for _, k := range all {
		if len(hist[k]) > 60 {
			hist[k] = hist[k][:60]
		}
		if ok, why := linearizable(hist[k]); !ok {
			x.Check("C01", false, "linearizability", "no order of these operations on key %q of view %q explains their results:%s", k.key, prefixes[k.view], why)
		}
	}
	if backend == 0 {
		vsim.Probe("storage.badger")
	}
	root.Close()
}

// storageReserved reproduces finding K01.
func storageReserved(x *X) {
	s, err := lens.NewBadgerStorage(x.Path("db"), 64)
	must(err)
	must(s.SaveState("badger_split:x", []byte("v")))
	ks, err := s.ListKeys()
	must(err)
	x.Check("C01", len(ks) == 1, "reserved", "a saved key that begins with the store's internal prefix is missing from the listing: %q", ks)
}
