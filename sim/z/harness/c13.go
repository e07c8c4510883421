package main

import (
	"fmt"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func init() {
	register(&Scenario{Name: "waitgroup", Props: []string{"C13"}, Quick: 50000, Run: waitGroupScenario})
	register(&Scenario{Name: "striped", Props: []string{"C13"}, Quick: 40000, Run: stripedScenario})
	components["C13"] = component{
		real:   []string{"LimitingWaitGroup and the striped mutex of lens/util.go, rewritten with scheduling points"},
		stub:   []string{"sync, channels and goroutine scheduling: the simulator"},
		assume: []string{"join is not followed by further takes, as documented"},
	}
}

func waitGroupScenario(x *X) {
	limit := 1 + x.N(4)
	n := 1 + x.N(8)
	style := x.N(2)
	wg := lens.NewLimitingWaitGroup(limit)
	x.Say("limit %d, %d activities, style %d", limit, n, style)
	in, done, started := 0, 0, 0
	activity := func(hold int) {
		in++
		started++
		x.Check("C13", in <= limit, "limit", "%d activities between take and release, the limit is %d", in, limit)
		if in == limit {
			vsim.Probe("waitgroup.full")
		}
		for k := 0; k < hold; k++ {
			vsim.Y()
		}
		if hold > 6 {
			vsim.Sleep(time.Duration(hold) * time.Millisecond)
		}
		in--
		done++
	}
	holds := make([]int, n)
	for i := range holds {
		holds[i] = x.N(10)
	}
	joined := false
	if style == 0 { // the documented use: take, start, join
		for i := 0; i < n; i++ {
			wg.Take()
			vsim.GoNamed(fmt.Sprintf("act%d", i), func() {
				defer wg.Release()
				activity(holds[i])
			})
		}
		wg.Join()
		joined = true
	} else { // several takers, join once all have taken
		taken := 0
		for i := 0; i < n; i++ {
			vsim.GoNamed(fmt.Sprintf("taker%d", i), func() {
				wg.Take()
				taken++
				activity(holds[i])
				wg.Release()
			})
		}
		vsim.Block("all taken", func() bool { return taken == n })
		wg.Join()
		joined = true
	}
	x.Check("C13", joined && done == n && in == 0, "join", "join returned with %d of %d activities finished", done, n)
}

func stripedScenario(x *X) {
	stripes := []uint{1, 2, 3, 8, 8081}[x.N(5)]
	lock := lens.SimStriped(stripes)
	nk := 1 + x.N(4)
	keys := []string{"a", "pkg/file.go:Func", "", "b", "ident-4"}[:nk]
	tasks := 2 + x.N(4)
	held := map[string]int{}
	total := 0
	var fs []func()
	want := 0
	x.Say("%d stripes, %d keys, %d tasks", stripes, nk, tasks)
	for t := 0; t < tasks; t++ {
		n := 1 + x.N(4)
		var ks []string
		var hs []int
		for i := 0; i < n; i++ {
			ks = append(ks, keys[x.N(nk)])
			hs = append(hs, x.N(5))
		}
		want += n
		fs = append(fs, func() {
			for i, k := range ks {
				unlock := lock(k)
				held[k]++
				x.Check("C13", held[k] == 1, "overlap", "%d holders of key %q at once", held[k], k)
				for j := 0; j < hs[i]; j++ {
					vsim.Y()
				}
				if hs[i] == 4 {
					vsim.Sleep(time.Millisecond)
				}
				held[k]--
				total++
				unlock()
			}
		})
	}
	parallel(fs...)
	x.Check("C13", total == want, "progress", "%d of %d critical sections ran", total, want)
}
