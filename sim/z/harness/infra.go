// Command harness runs simulated scenarios of the tool over many seeds.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Scenario is one workload with its oracle.
type Scenario struct {
	Name  string
	Props []string
	// Weight is the number of seeds in the quick tier.
	Quick int
	// Preempt lists the mean distances between forced switches to draw from.
	Preempt []int
	Warp    []int
	Stall   []int // percentages of forced switches that stall the running task
	CPUs    []int
	Steps   int
	Run     func(x *X)
	// Known names the known finding this scenario reproduces; such scenarios
	// run once and are never part of the search.
	Known string
}

var scenarios []*Scenario

func register(s *Scenario) {
	if len(s.Preempt) == 0 {
		s.Preempt = []int{2, 6, 20, 60, 250, 0}
	}
	if len(s.CPUs) == 0 {
		s.CPUs = []int{1, 2, 4, 8}
	}
	if len(s.Stall) == 0 {
		s.Stall = []int{0, 0, 0, 5, 20, 50}
	}
	if len(s.Warp) == 0 {
		s.Warp = []int{0}
	}
	scenarios = append(scenarios, s)
}

func scenario(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// X is what a scenario sees of the run.
type X struct {
	prop   string
	root   string
	seed   uint64
	sample []string
	nfail  int
}

// N draws a workload choice in [0,n); a shortened trace falls back to 0.
func (x *X) N(n int) int { return vsim.Choose("plan", n) }

// In draws from [lo,hi].
func (x *X) In(lo, hi int) int { return lo + x.N(hi-lo+1) }

// Pct is true in p percent of the cases.
func (x *X) Pct(p int) bool { return vsim.Chance("plan", "", p*10) }

// On tells whether the property is the one being decided.
func (x *X) On(prop string) bool { return x.prop == prop }

// Check records a violation of prop unless ok; assertions of other properties
// are not evaluated in this check.
func (x *X) Check(prop string, ok bool, kind, f string, a ...any) {
	if ok || x.prop != prop {
		return
	}
	vsim.Fail(kind, f, a...)
}

// Say adds a line to the sample of this run.
func (x *X) Say(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	vsim.Logf("%s", s)
	if len(x.sample) < 40 {
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		x.sample = append(x.sample, s)
	}
}

func (x *X) Dir(parts ...string) string {
	d := filepath.Join(append([]string{x.root}, parts...)...)
	must(os.MkdirAll(d, 0o755))
	return d
}

func (x *X) Path(parts ...string) string {
	return filepath.Join(append([]string{x.root}, parts...)...)
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// settle lets everything else finish: the bounded-progress obligation once
// faults have stopped.
func settle(d time.Duration) { vsim.Drain(d) }

// wait blocks until n tasks counted in *c are done.
func wait(c *int, n int) { vsim.Block("harness.wait", func() bool { return *c >= n }) }

// parallel runs the functions as tasks of the tool and waits for them.
func parallel(fs ...func()) {
	done := 0
	for i, f := range fs {
		vsim.GoNamed(fmt.Sprintf("caller%d", i), func() {
			f()
			done++
		})
	}
	wait(&done, len(fs))
}

// tree is a snapshot of a directory: path -> content description.
type tree map[string]string

func snap(dir string) tree {
	t := tree{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			t[r+"/"] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[r] = "link:" + l
		default:
			b, _ := os.ReadFile(p)
			t[r] = "file:" + string(b)
		}
		return nil
	})
	return t
}

func (t tree) diff(o tree) string {
	var out []string
	for k, v := range t {
		w, ok := o[k]
		if !ok {
			out = append(out, "missing "+k)
		} else if w != v {
			out = append(out, fmt.Sprintf("changed %s: %s, was %s", k, clip(w), clip(v)))
		}
	}
	for k := range o {
		if _, ok := t[k]; !ok {
			out = append(out, "extra "+k)
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("and %d more", len(out)-6))
	}
	return strings.Join(out, "; ")
}

// spared lists differences at places where no file operation failed; place
// gives the name that file faults have for an entry.
func (t tree) spared(o tree, place func(k string) string) string {
	hit := map[string]bool{}
	for _, p := range vsim.W.FSPaths {
		hit[family(p)] = true
	}
	a, b := tree{}, tree{}
	for k, v := range t {
		if !hit[family(place(k))] {
			a[k] = v
		}
	}
	for k, v := range o {
		if !hit[family(place(k))] {
			b[k] = v
		}
	}
	return a.diff(b)
}

var bkpRe = regexp.MustCompile(`\.bkp\d*$`)

func family(p string) string { return bkpRe.ReplaceAllString(p, "") }

func clip(s string) string {
	s = fmt.Sprintf("%q", s)
	if len(s) > 160 {
		return s[:100] + "..." + s[len(s)-50:]
	}
	return s
}
