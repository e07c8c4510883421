package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"github.com/PatchLens/go-update-lens/lens"
)

// Generated projects: a small module cache with two versions of one module, and
// a project with packages, functions that call the module, and tests.

const (
	appPath  = "example.com/app"
	modName  = "example.com/mod"
	modAlias = "updMod"
	modOld   = "v1.0.0"
	modNew   = "v1.1.0"
)

type fnSpec struct {
	name, recv string
	pkg, file  int
	kind       string // int, err, rec, ptr, map, str, void, list
	unstable   bool
	parallel   bool
	burst      bool
	calls      int
}

type progOpts struct {
	unstable  bool // values that differ between runs
	panics    bool
	goroutine bool // tests start goroutines
	leak      bool // tests leave goroutines behind
	maxTests  int
	shared    bool // maps with shared pointers
	failing   bool // failing tests
	subModule bool
	long      bool // tests that take time
	spawn     bool // functions leave calls to goroutines
}

type project struct {
	root, gopath, modcache string
	npkgs                  int
	fns                    []*fnSpec
	mods                   []string
	modDecl                []int
	tests                  []*lens.TestFunction
	callers                []*lens.CallerFunction
	modFns                 lens.ReachableModuleChange
	modFnList              []*lens.ModuleFunction
	tooOld                 bool // the module declares a Go version too old to be instrumented
	changes                []*lens.ModuleChange
	goModDirs              []string
}

func (p *project) pkgPath(i int) string {
	if p.inSub(i) {
		return "example.com/sub/p" + fmt.Sprint(i)
	}
	return appPath + "/p" + fmt.Sprint(i)
}
func (p *project) inSub(i int) bool { return len(p.goModDirs) > 1 && i == p.npkgs-1 && i > 0 }
func (p *project) pkgDir(i int) string {
	if p.inSub(i) {
		return filepath.Join(p.root, "sub", "p"+fmt.Sprint(i))
	}
	return filepath.Join(p.root, "p"+fmt.Sprint(i))
}

const recDecl = `
type Rec struct {
	Name string
	N    int
	Tags []string
	M    map[string]int
	Next *Rec
	hid  int
}

type Tool struct {
	Base int
}

type Part struct {
	Head, All []int
}
`

// genProject writes a project below x.Path(name).
func genProject(x *X, o progOpts) *project {
	p := &project{root: x.Path("proj"), gopath: x.Path("gopath"), npkgs: 1 + x.N(2)}
	p.modcache = filepath.Join(p.gopath, "pkg", "mod")
	p.goModDirs = []string{p.root}
	if o.subModule && p.npkgs > 1 && x.Pct(50) {
		p.goModDirs = append(p.goModDirs, filepath.Join(p.root, "sub"))
	}

	// module
	nmod := 1 + x.N(3)
	changed := make([]int, nmod)
	kinds := make([]int, nmod)
	panicVals := make([]bool, nmod) // panics with an error
	for v, ver := range []string{modOld, modNew} {
		dir := filepath.Join(p.modcache, modName+"@"+ver)
		must(os.MkdirAll(dir, 0o755))
		var b [2]strings.Builder
		for i := 0; i < nmod; i++ {
			if v == 0 {
				kinds[i] = x.N(4)
				if !o.panics && kinds[i] == 2 {
					kinds[i] = 0
				}
				panicVals[i] = x.Pct(40)
				changed[i] = x.N(4) // 0: always differs, 1: for some arguments, 2: same result, 3: same
			}
			k := 0
			if v == 1 {
				k = changed[i]
				if k >= 2 {
					k = -1
				} else {
					k++
				}
			}
			w := &b[i%2]
			name := fmt.Sprintf("M%d", i)
			switch kinds[i] {
			case 0:
				expr := "n*2 + 1"
				pre := ""
				switch k {
				case 1:
					expr = "n*2 + 7"
				case 2:
					pre = "\tif n > 2 {\n\t\treturn n*2 + 9\n\t}\n"
				case -1:
					expr = "n + n + 1"
				}
				fmt.Fprintf(w, "func %s(n int) int {\n%s\treturn %s\n}\n\n", name, pre, expr)
			case 1:
				cond := "n%3 == 1"
				ret := "n + 5"
				switch k {
				case 1:
					cond = "n%3 == 2"
				case 2:
					ret = "n + 6"
				}
				fmt.Fprintf(w, "func %s(n int) (int, error) {\n\tif %s {\n\t\treturn 0, errors.New(\"bad\")\n\t}\n\treturn %s, nil\n}\n\n", name, cond, ret)
			case 2:
				cond, msg := "n == 2", "boom"
				switch k {
				case 1:
					cond = "n == 3"
				case 2:
					msg = "bang"
				}
				val := fmt.Sprintf("%q", msg)
				if panicVals[i] {
					val = "errors.New(" + val + ")"
				}
				fmt.Fprintf(w, "func %s(n int) int {\n\tif %s {\n\t\tpanic(%s)\n\t}\n\treturn n + 1\n}\n\n", name, cond, val)
			case 3: // calls back, in the new version perhaps by way of another function
				switch k {
				case 1:
					fmt.Fprintf(w, "func %s(f func(int) int, n int) int {\n\treturn via%d(f, n+1)\n}\n\nfunc via%d(f func(int) int, n int) int {\n\treturn f(n)\n}\n\n", name, i, i)
				case 2:
					fmt.Fprintf(w, "func %s(f func(int) int, n int) int {\n\tr := via%d(f, n)\n\treturn r\n}\n\nfunc via%d(f func(int) int, n int) int {\n\treturn f(n)\n}\n\n", name, i, i)
				default:
					fmt.Fprintf(w, "func %s(f func(int) int, n int) int {\n\treturn f(n)\n}\n\n", name)
				}
			}
		}
		for i := range b {
			if b[i].Len() == 0 {
				continue
			}
			src := "package mod\n\n"
			if strings.Contains(b[i].String(), "errors.") {
				src += "import \"errors\"\n\n"
			}
			must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("m%d.go", i)), []byte(src+b[i].String()), 0o644))
		}
		must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+modName+"\n\ngo 1.21\n"), 0o644))
	}
	for i := 0; i < nmod; i++ {
		p.mods = append(p.mods, fmt.Sprintf("M%d", i))
	}

	// project functions
	nf := 1 + x.N(5)
	type file struct {
		b    strings.Builder
		imps map[string]bool
	}
	files := map[[2]int]*file{}
	nfiles := 1 + x.N(2)
	get := func(pkg, fi int) *file {
		k := [2]int{pkg, fi}
		if files[k] == nil {
			files[k] = &file{imps: map[string]bool{}}
		}
		return files[k]
	}
	// source of a call to something that gives an int
	callInt := func(f *file, self *fnSpec, arg string) string {
		switch x.N(24) {
		case 0:
			arg = "7"
		case 1:
			arg = "1 + 2"
		case 2:
			arg = "[]int{" + arg + ", 2}[0]"
		case 3:
			arg = "Rec{N: " + arg + "}.N"
		case 4:
			arg = "func() int {\n\t\treturn " + arg + "\n\t}()"
		case 5:
			arg = "len(\"ab\")"
		case 6:
			arg = arg + "+1"
		case 7:
			arg = "-" + arg
		}
		// an earlier plain function, or the module
		var cands []*fnSpec
		for _, g := range p.fns {
			if g.kind == "int" && g.recv == "" && g.calls < 3 && !(self.burst && g.calls > 0) && !p.inSub(g.pkg) == !p.inSub(self.pkg) && g.pkg <= self.pkg {
				cands = append(cands, g)
			}
		}
		if len(cands) > 0 && x.N(2) == 1 {
			g := cands[x.N(len(cands))]
			self.calls = max(self.calls, g.calls+1)
			if g.pkg == self.pkg {
				return fmt.Sprintf("%s(%s)", g.name, arg)
			}
			f.imps[p.pkgPath(g.pkg)] = true
			return fmt.Sprintf("p%d.%s(%s)", g.pkg, g.name, arg)
		}
		for try := 0; try < 4; try++ {
			i := x.N(nmod)
			if kinds[i] == 3 {
				back := "func(k int) int {\n\t\treturn k + 3\n\t}"
				for _, g := range p.fns {
					if g.kind == "int" && g.recv == "" && g.calls < 3 && !(self.burst && g.calls > 0) && g.pkg == self.pkg && x.Pct(70) {
						back = g.name
						self.calls = max(self.calls, g.calls+1)
					}
				}
				f.imps[modName] = true
				return fmt.Sprintf("mod.M%d(%s, %s)", i, back, arg)
			}
			if kinds[i] != 1 {
				f.imps[modName] = true
				return fmt.Sprintf("mod.M%d(%s)", i, arg)
			}
		}
		return "(" + arg + " + 40)"
	}
	errMod := -1
	for i := range kinds {
		if kinds[i] == 1 {
			errMod = i
		}
	}
	for i := 0; i < nf; i++ {
		f := &fnSpec{name: fmt.Sprintf("F%d", i), pkg: x.N(p.npkgs), file: x.N(nfiles)}
		w := get(f.pkg, f.file)
		pf := func(s string, a ...any) { fmt.Fprintf(&w.b, s, a...) }
		k := x.N(49)
		switch {
		case k == 1:
			f.kind = "int"
			pf("func %s(n int) int {\n\ta := %s\n\tb := a + n\n\tif b > 12 {\n\t\treturn b\n\t}\n\treturn a\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 2 && errMod >= 0:
			f.kind = "err"
			w.imps[modName] = true
			pf("func %s(n int) (int, error) {\n\tv, err := mod.M%d(n)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn v, nil\n}\n\n", f.name, errMod)
		case k == 3:
			f.kind = "rec"
			pf("func %s(n int) (out Rec) {\n\tout = Rec{Name: \"r\", N: %s, Tags: []string{\"a\", \"b\"}}\n\treturn\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 4:
			f.kind, f.recv = "int", "Tool"
			pf("func (t Tool) %s(n int) int {\n\treturn t.Base + %s\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 5 && o.unstable:
			f.kind, f.unstable = "int", true
			w.imps["math/rand"] = true
			pf("func %s(n int) int {\n\tnoise := rand.Int()\n\tkeep := %s\n\tif noise < 0 {\n\t\treturn noise\n\t}\n\treturn keep\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 6:
			f.kind, f.calls = "int", 3
			pf("func %s(n int) int {\n\tif n <= 0 {\n\t\treturn %s\n\t}\n\treturn n + %s(n-1)\n}\n\n", f.name, callInt(w, f, "n"), f.name)
		case k == 7:
			f.kind = "void"
			pf("func %s(n int) {\n\ts := %s\n\tfor i := 0; i < 2; i++ {\n\t\ts += i\n\t}\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 8:
			f.kind = "int"
			pf("func %s(n int) int {\n\ts := 0\n\tfor i := 0; i < 3; i++ {\n\t\ts += %s\n\t}\n\treturn s\n}\n\n", f.name, callInt(w, f, "i"))
			f.calls++
		case k == 9:
			f.kind = "map"
			if o.shared {
				pf("func %s(n int) map[string]*Rec {\n\tr := &Rec{Name: \"s\", N: %s}\n\tm := map[string]*Rec{\"a\": r, \"b\": r, \"c\": &Rec{Name: \"t\", Next: r}}\n\treturn m\n}\n\n", f.name, callInt(w, f, "n"))
			} else {
				pf("func %s(n int) map[string]int {\n\tm := map[string]int{\"a\": n, \"b\": %s, \"c\": 3}\n\treturn m\n}\n\n", f.name, callInt(w, f, "n"))
			}
		case k == 10 && o.unstable:
			f.kind, f.unstable = "ptr", true
			w.imps["math/rand"] = true
			pf("func %s(n int) *Rec {\n\tr := &Rec{Name: \"u\", N: rand.Int(), M: map[string]int{\"k\": %s}}\n\tr2 := &Rec{Name: \"v\", N: 1, Next: r}\n\treturn r2\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 11:
			f.kind = "str"
			w.imps["strconv"] = true
			pf("func %s(n int) string {\n\ttext := \"v\"\n\tfor i := 0; i < %d; i++ {\n\t\ttext = text + strconv.Itoa(%s)\n\t}\n\treturn text\n}\n\n", f.name, 1+x.N(2)*20, callInt(w, f, "n"))
			f.calls++
		case k == 12:
			f.kind = "list"
			pf("func %s(n int) []int {\n\tvar l []int\n\tfor i := 0; i < %d; i++ {\n\t\tl = append(l, i+n)\n\t}\n\tl = append(l, %s)\n\treturn l\n}\n\n", f.name, 1+x.N(2)*60, callInt(w, f, "n"))
		case k == 13:
			f.kind = "int"
			pf("func %s(n int) int {\n\tv := %s\n\tif n == 0 {\n\t\treturn v\n\t} else if n == 1 {\n\t\tw := v + 1\n\t\treturn w\n\t} else if n == 2 {\n\t\treturn v + 2\n\t} else {\n\t\tu := v * 2\n\t\treturn u\n\t}\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 14:
			f.kind = "void"
			pf("func %s(n int) {\n\tif n > 2 {\n\t\treturn\n\t}\n\tv := %s\n\tif v > 6 {\n\t\tbig := v - n\n\t\tv = big\n\t}\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 15:
			f.kind = "int"
			pf("func %s(n int) int {\n\tsum := 0\nouter:\n\tfor i := 0; i < 3; i++ {\n\t\tfor j := 0; j < 3; j++ {\n\t\t\tif j == 2 {\n\t\t\t\tcontinue outer\n\t\t\t}\n\t\t\tif i > n {\n\t\t\t\tbreak outer\n\t\t\t}\n\t\t\tif sum > 9 {\n\t\t\t\treturn sum\n\t\t\t}\n\t\t\tsum += %s\n\t\t}\n\t}\n\treturn sum + 100\n}\n\n", f.name, callInt(w, f, "i"))
			f.calls++
		case k == 16:
			f.kind = "int"
			idle := ""
			if x.Pct(50) { // nothing to receive
				idle = "\t\tidle := n - 1\n\t\tif idle < 0 {\n\t\t\treturn idle\n\t\t}\n"
			}
			pf("func %s(n int) int {\n\ta := make(chan int, 1)\n\tb := make(chan int, 1)\n\tif n > 1 {\n\t\ta <- n\n\t} else if n > 0 {\n\t\tb <- %s\n\t}\n\tselect {\n\tcase got := <-a:\n\t\tleft := got + %s\n\t\treturn left\n\tcase v := <-b:\n\t\treturn v\n\tdefault:\n%s\t}\n\treturn %s\n}\n\n", f.name, callInt(w, f, "n"), callInt(w, f, "n"), idle, callInt(w, f, "n"))
		case k == 17:
			f.kind = "int"
			pf("func %s(n int) int {\n\tswitch r := n %% 3; r {\n\tcase 0:\n\t\tz := %s\n\t\treturn z\n\tcase 1:\n\t\tif n > 3 {\n\t\t\tbreak\n\t\t}\n\t\treturn r\n\t}\n\treturn %s\n}\n\n", f.name, callInt(w, f, "n"), callInt(w, f, "n"))
		case k == 18: // recovers and changes its result
			f.kind = "int"
			own := ""
			if o.panics {
				own = "\tif n == 4 {\n\t\tpanic(\"own\")\n\t}\n"
			}
			pf("func %s(n int) (res int) {\n\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tres = -1\n\t\t}\n\t}()\n\tres = %s\n%s\treturn res + 1\n}\n\n", f.name, callInt(w, f, "n"), own)
		case k == 19 && errMod >= 0:
			f.kind = "err"
			w.imps[modName] = true
			pf("func %s(n int) (int, error) {\n\treturn mod.M%d(n)\n}\n\n", f.name, errMod)
		case k == 20:
			f.kind = "int"
			pf("func %s(n int) int {\n\tadd := func(k int) int {\n\t\tif k > 2 {\n\t\t\treturn k\n\t\t}\n\t\treturn k + %s\n\t}\n\ttotal := add(n)\n\ttotal += add(1)\n\treturn total\n}\n\n", f.name, callInt(w, f, "k"))
			f.calls++
		case k == 21:
			f.kind, f.recv = "int", "*Tool"
			pf("func (t *Tool) %s(n int) int {\n\tt.Base += n\n\tif t.Base > 5 {\n\t\treturn t.Base\n\t}\n\treturn t.Base + %s\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 22: // several calls of one function, some of which may end in a panic that is caught here
			f.kind = "int"
			pf("func %s(n int) int {\n\tcaught := 0\n\tfor i := 0; i < 4; i++ {\n\t\tfunc() {\n\t\t\tdefer func() {\n\t\t\t\tif r := recover(); r != nil {\n\t\t\t\t\tcaught += 1\n\t\t\t\t}\n\t\t\t}()\n\t\t\tcaught += 10 * %s\n\t\t}()\n\t}\n\treturn caught\n}\n\n", f.name, callInt(w, f, "(n + i%2)"))
			f.calls++
		case k == 23: // a burst of calls
			f.kind, f.calls, f.burst = "int", 3, true
			pf("func %s(n int) int {\n\ts := n\n\tfor i := 0; i < 18; i++ {\n\t\ts += %s\n\t}\n\treturn s\n}\n\n", f.name, callInt(w, f, "i"))
		case k == 24 && o.unstable: // called repeatedly, some of the calls have nothing stable to show
			f.kind, f.unstable = "int", true
			w.imps["math/rand"] = true
			pf("func %s(n int) int {\n\tif n%%%d == %d {\n\t\tn = rand.Int()\n\t\treturn n\n\t}\n\treturn %s\n}\n\n", f.name, 2+x.N(2), x.N(2), callInt(w, f, "n"))
			g := &fnSpec{name: fmt.Sprintf("G%d", i), pkg: f.pkg, file: f.file, kind: "void", calls: f.calls + 1}
			pf("func %s(n int) {\n\tfor i := 0; i < %d; i++ {\n\t\t_ = %s(i + n)\n\t}\n}\n\n", g.name, 2+x.N(5), f.name)
			p.fns = append(p.fns, g)
		case k == 25: // slices of one array
			f.kind = "part"
			pf("func %s(n int) Part {\n\tall := []int{1, n, %s}\n\treturn Part{Head: all[:%d], All: all}\n}\n\n", f.name, callInt(w, f, "n"), 1+x.N(2))
		case k == 26: // keys that look like paths
			f.kind = "map"
			pf("func %s(n int) map[string]any {\n\tm := map[string]any{\"a\": map[string]any{\"b\": %s, \"c\": n}, \"a.b\": n, \"a.d\": 1}\n\treturn m\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 27: // range, with a return inside
			f.kind = "int"
			pf("func %s(n int) int {\n\tsum := 0\n\tfor i, v := range []int{n, %s, 2} {\n\t\tif v > 20 {\n\t\t\treturn v + i\n\t\t}\n\t\tpart := v + %s\n\t\tsum += part\n\t}\n\treturn sum\n}\n\n", f.name, callInt(w, f, "n"), callInt(w, f, "i"))
			f.calls++
		case k == 28:
			f.kind = "int"
			pf("func %s(n int) int {\n\tvar v any = n\n\tif n == 2 {\n\t\tv = \"s\"\n\t} else if n == 3 {\n\t\tv = Tool{Base: n}\n\t}\n\tswitch w := v.(type) {\n\tcase int:\n\t\tif w > 3 {\n\t\t\tbreak\n\t\t}\n\t\tz := w + %s\n\t\treturn z\n\tcase string:\n\t\treturn len(w)\n\tdefault:\n\t\treturn %s\n\t}\n\treturn -1\n}\n\n", f.name, callInt(w, f, "w"), callInt(w, f, "n"))
		case k == 29: // concurrent work inside
			f.kind = "int"
			w.imps["sync"] = true
			pf("func %s(n int) int {\n\tvar wg sync.WaitGroup\n\tgot := 0\n\twg.Add(1)\n\tgo func() {\n\t\tdefer wg.Done()\n\t\tgot = n\n\t\tif n > 2 {\n\t\t\treturn\n\t\t}\n\t\tgot = n * 2\n\t}()\n\twg.Wait()\n\treturn got + %s\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 30: // deferred calls, in a loop and with a changed variable
			f.kind = "int"
			pf("func %s(n int) (res int) {\n\tfor i := 0; i < 2; i++ {\n\t\tdefer func(k int) {\n\t\t\tres = res*2 + k\n\t\t}(i)\n\t}\n\tres = %s\n\tif res > 9 {\n\t\treturn\n\t}\n\treturn res + n\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 31: // a loop that only a return leaves
			f.kind = "int"
			pf("func %s(n int) int {\n\tfor i := n; ; i += 2 {\n\t\tv := %s\n\t\tif i > 4 || v > 9 {\n\t\t\treturn v + i\n\t\t}\n\t}\n}\n\n", f.name, callInt(w, f, "i"))
			f.calls++
		case k == 32 && o.panics: // ends in a panic
			f.kind = "int"
			pf("func %s(n int) int {\n\tif n < 4 {\n\t\treturn %s\n\t}\n\tpanic(\"too far\")\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 33: // a switch that always returns, blocks and shadowed names
			f.kind = "int"
			pf("func %s(n int) int {\n\tv := n\n\t{\n\t\tv := v + 1\n\t\tif v > 3 {\n\t\t\treturn v\n\t\t}\n\t}\n\tswitch {\n\tcase v > 1:\n\t\tv := %s\n\t\treturn v\n\tdefault:\n\t\treturn v + %s\n\t}\n}\n\n", f.name, callInt(w, f, "v"), callInt(w, f, "n"))
		case k == 34: // several results, one blank
			f.kind = "pair"
			pf("func %s(n int) (a int, _ string, err error) {\n\tif n > 3 {\n\t\treturn n, \"far\", nil\n\t}\n\ta = %s\n\treturn\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 35: // the results of a call are handed on
			f.kind = "int"
			pf("func %s(n int) int {\n\tpick := func(a, b int) int {\n\t\tif a > b {\n\t\t\treturn a\n\t\t}\n\t\treturn b\n\t}\n\tboth := func(k int) (int, int) {\n\t\treturn k, %s\n\t}\n\treturn pick(both(n))\n}\n\n", f.name, callInt(w, f, "k"))
		case k == 36: // calls that are made or not
			f.kind = "int"
			pf("func %s(n int) int {\n\tl := []int{4, 5}\n\tif n < 2 && %s > 3 {\n\t\treturn l[n]\n\t}\n\tif n > 1 || %s < 9 {\n\t\tn++\n\t}\n\treturn n\n}\n\n", f.name, callInt(w, f, "l[n]"), callInt(w, f, "l[n]"))
		case k == 37: // calls in every round of a loop
			f.kind = "int"
			pf("func %s(n int) int {\n\tc := 0\n\tfor i := 0; i < 3 && %s < 1000; i = i + 1 + 0*%s {\n\t\tc += i\n\t}\n\treturn c\n}\n\n", f.name, callInt(w, f, "i*2"), callInt(w, f, "i*3"))
			f.calls++
		case k == 38:
			f.kind = "int"
			pf("func %s(n int) int {\n\tfor i := 0; %s < 9; i++ {\n\t\tn += 4 + i\n\t\tif n > 20 {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn n\n}\n\n", f.name, callInt(w, f, "n+i"))
			f.calls++
		case k == 39: // variables of the statement itself
			f.kind = "int"
			pf("func %s(n int) int {\n\tif m := n + 1; %s > m {\n\t\treturn m\n\t}\n\tswitch m := n + 2; %s {\n\tcase 3, 4:\n\t\treturn m\n\tcase 5:\n\t\tn += m\n\t}\n\treturn n\n}\n\n", f.name, callInt(w, f, "m*2"), callInt(w, f, "m*2"))
		case k == 40: // deferred calls take their arguments when they are deferred
			f.kind = "int"
			c := callInt(w, f, "v*2")
			d := callInt(w, f, "v")
			if strings.HasPrefix(c, "(") || strings.HasPrefix(d, "(") {
				c, d = "func(int) {}("+c+")", "func(int) {}("+d+")"
			}
			pf("func %s(n int) int {\n\tv := n\n\tdefer %s\n\tv += 5\n\tdefer %s\n\tv = 0\n\treturn v\n}\n\n", f.name, c, d)
		case k == 41: // else branches
			f.kind = "int"
			pf("func %s(n int) int {\n\tif n > 3 {\n\t\treturn 1\n\t} else if r := n * 2; %s > 6 {\n\t\treturn r\n\t} else if %s > 5 {\n\t\tn++\n\t} else {\n\t\tn = %s\n\t}\n\treturn n\n}\n\n", f.name, callInt(w, f, "r+1"), callInt(w, f, "n+1"), callInt(w, f, "n+2"))
		case k == 42: // labels
			f.kind = "int"
			pf("func %s(n int) int {\n\tc := 0\nloop:\n\tfor i := 0; i < 3; i++ {\n\t\tswitch %s {\n\t\tcase 3:\n\t\t\tbreak loop\n\t\tcase 4, 5:\n\t\t\tcontinue loop\n\t\t}\n\t\tc += i\n\t}\nother:\n\tswitch m := c; %s {\n\tcase 2, 3, 4:\n\t\tif m > 2 {\n\t\t\tbreak other\n\t\t}\n\t\tc++\n\t}\n\treturn c\n}\n\n", f.name, callInt(w, f, "i+n"), callInt(w, f, "m+1"))
			f.calls++
		case k == 43: // in the header of range and type switch, in a declaration
			f.kind = "int"
			pf("func %s(n int) int {\n\tvar first, second = %s, n\n\tfor _, v := range []int{%s, second} {\n\t\tfirst += v\n\t}\n\tswitch v := any(%s).(type) {\n\tcase int:\n\t\treturn v + first\n\t}\n\treturn 0\n}\n\n", f.name, callInt(w, f, "n+1"), callInt(w, f, "first+1"), callInt(w, f, "first+2"))
		case k == 44: // a call is handed to a channel, and back
			f.kind = "int"
			pf("func %s(n int) int {\n\tch := make(chan int, 2)\n\tch <- %s\n\tv := <-ch\n\treturn v + n\n}\n\n", f.name, callInt(w, f, "n*2"))
		case k == 45 && o.panics: // a function of its own recovers
			f.kind = "int"
			pf("func rescue%d(v int) {\n\tif r := recover(); r != nil {\n\t\treturn\n\t}\n}\n\nfunc %s(n int) (res int) {\n\tdefer rescue%d(n)\n\tres = 3\n\tres = %s\n\tif n > 2 {\n\t\tpanic(\"far\")\n\t}\n\treturn res\n}\n\n", i, f.name, i, callInt(w, f, "n"))
		case k == 47: // the field of what a call gives
			f.kind = "int"
			pf("func rec%d(n int) Rec {\n\treturn Rec{N: n + 1}\n}\n\nfunc %s(n int) int {\n\tv := %s\n\treturn v\n}\n\n", i, f.name, callInt(w, f, fmt.Sprintf("rec%d(n).N", i)))
		case k == 48: // a variable named like the type of the result
			f.kind = "rec"
			pf("func %s(n int) Rec {\n\tbase := Rec{Name: \"s\", N: %s}\n\t{\n\t\tRec := []Rec{base}\n\t\tif n > 1 {\n\t\t\treturn Rec[0]\n\t\t}\n\t}\n\treturn base\n}\n\n", f.name, callInt(w, f, "n"))
		case k == 46 && o.spawn: // started in a goroutine, with the values of that moment
			f.kind = "int"
			i := -1
			for j := range kinds {
				if kinds[j] == 3 {
					i = j
				}
			}
			if i < 0 {
				f.kind = "void"
				pf("func %s(n int) {\n}\n\n", f.name)
				break
			}
			w.imps[modName] = true
			pf("func %s(n int) int {\n\tdone := make(chan int, 1)\n\tv := n\n\tgo mod.M%d(func(k int) int {\n\t\tdone <- k\n\t\treturn k\n\t}, v)\n\tv += 100\n\tgot := <-done\n\treturn got + v\n}\n\n", f.name, i)
		default:
			f.kind = "int"
			pf("func %s(n int) int {\n\tv := %s\n\treturn v\n}\n\n", f.name, callInt(w, f, "n"))
		}
		p.fns = append(p.fns, f)
	}
	// tests, in the package of the functions they call
	type test struct {
		pkg  int
		name string
		body string
	}
	nt := 1 + x.N(max(1, o.maxTests))
	var tests []test
	timps := map[int]map[string]bool{}
	for i := 0; i < nt; i++ {
		first := p.fns[x.N(len(p.fns))]
		t := test{pkg: first.pkg, name: fmt.Sprintf("Test%d", i)}
		if timps[t.pkg] == nil {
			timps[t.pkg] = map[string]bool{"testing": true}
		}
		var cands []*fnSpec
		for _, f := range p.fns {
			if f.pkg == t.pkg {
				cands = append(cands, f)
			}
		}
		var b strings.Builder
		call := func(f *fnSpec, arg int) string {
			if f.recv == "*Tool" {
				return fmt.Sprintf("(&Tool{Base: %d}).%s(%d)", arg, f.name, arg)
			}
			if f.recv != "" {
				return fmt.Sprintf("(Tool{Base: %d}).%s(%d)", arg, f.name, arg)
			}
			return fmt.Sprintf("%s(%d)", f.name, arg)
		}
		n := 1 + x.N(3)
		for c := 0; c < n; c++ {
			f := first
			if c > 0 {
				f = cands[x.N(len(cands))]
			}
			arg := x.N(5)
			switch {
			case f.kind == "int" && o.failing && x.Pct(15):
				fmt.Fprintf(&b, "\tif %s > 9 {\n\t\tt.Fatal(\"too big\")\n\t}\n", call(f, arg))
			case f.recv == "" && o.goroutine && x.Pct(25):
				// goroutines run different functions
				g := cands[x.N(len(cands))]
				if g == f || g.recv != "" {
					fmt.Fprintf(&b, "\t%s\n", call(f, arg))
					break
				}
				timps[t.pkg]["sync"] = true
				fmt.Fprintf(&b, "\tvar wg%d sync.WaitGroup\n\twg%d.Add(2)\n\tgo func() {\n\t\tdefer wg%d.Done()\n\t\t%s\n\t}()\n\tgo func() {\n\t\tdefer wg%d.Done()\n\t\t%s\n\t}()\n\twg%d.Wait()\n",
					c, c, c, call(f, arg), c, call(g, arg+1), c)
			default:
				fmt.Fprintf(&b, "\t%s\n", call(f, arg))
			}
		}
		if o.leak && x.Pct(50) {
			f := cands[x.N(len(cands))]
			if f.recv == "" {
				fmt.Fprintf(&b, "\tgo %s\n", call(f, x.N(5)))
			}
		}
		t.body = b.String()
		tests = append(tests, t)
	}

	// write it out
	var callerSrc []string
	for pk := 0; pk < p.npkgs; pk++ {
		dir := p.pkgDir(pk)
		must(os.MkdirAll(dir, 0o755))
		must(os.WriteFile(filepath.Join(dir, "types.go"), []byte(fmt.Sprintf("package p%d\n%s", pk, recDecl)), 0o644))
		for fi := 0; fi < nfiles; fi++ {
			f := files[[2]int{pk, fi}]
			if f == nil {
				continue
			}
			src := srcFile(fmt.Sprintf("p%d", pk), f.imps, f.b.String())
			if f.imps[modName] && x.Pct(15) { // imported under another name
				src = strings.ReplaceAll(src, "\t\""+modName+"\"", "\t"+modAlias+" \""+modName+"\"")
				src = strings.ReplaceAll(src, "mod.M", modAlias+".M")
			}
			must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("a%d.go", fi)), []byte(src), 0o644))
			callerSrc = append(callerSrc, filepath.Join(dir, fmt.Sprintf("a%d.go", fi)))
		}
		var b strings.Builder
		for _, t := range tests {
			if t.pkg == pk {
				fmt.Fprintf(&b, "func %s(t *testing.T) {\n%s}\n\n", t.name, t.body)
			}
		}
		if b.Len() > 0 {
			must(os.WriteFile(filepath.Join(dir, "x_test.go"), []byte(srcFile(fmt.Sprintf("p%d", pk), timps[pk], b.String())), 0o644))
		}
	}
	for i, d := range p.goModDirs {
		must(os.MkdirAll(d, 0o755))
		name := appPath
		if i > 0 {
			name = "example.com/sub"
		}
		must(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+name+"\n\ngo 1.21\n\nrequire "+modName+" "+modOld+"\n"), 0o644))
		if x.N(4) != 3 {
			must(os.WriteFile(filepath.Join(d, "go.sum"), []byte(modName+" "+modOld+" h1:old=\n"), 0o644))
		}
	}
	if len(p.goModDirs) > 1 {
		must(os.WriteFile(filepath.Join(p.root, "go.work"), []byte("go 1.21\n\nuse (\n\t.\n\t./sub\n)\n"), 0o644))
	}

	// what static analysis would have found
	goVer := "1.21"
	if x.Pct(15) {
		goVer = []string{"", "1.13", "1.13.1", "1.12", "1.12.17", "1.9"}[x.N(6)]
		p.tooOld = goVer == "1.9" || strings.HasPrefix(goVer, "1.12")
	}
	p.changes = []*lens.ModuleChange{{Name: modName, PriorVersion: modOld, NewVersion: modNew, GoVersion: goVer}}
	p.modFns = lens.ReachableModuleChange{}
	for i := 0; i < nmod; i++ {
		if changed[i] == 3 && nmod > 1 {
			continue // unchanged in the new version
		}
		file := filepath.Join(p.modcache, modName+"@"+modOld, fmt.Sprintf("m%d.go", i%2))
		fn := describe(file, modName, fmt.Sprintf("M%d", i))
		mf := &lens.ModuleFunction{Function: fn, Module: p.changes[0]}
		p.modFns[fn.FunctionIdent] = mf
		p.modFnList = append(p.modFnList, mf)
	}
	byName := map[string]*lens.CallerFunction{}
	for _, f := range p.fns {
		file := filepath.Join(p.pkgDir(f.pkg), fmt.Sprintf("a%d.go", f.file))
		c := &lens.CallerFunction{Function: describe(file, p.pkgPath(f.pkg), f.name), ChangeFunctions: p.modFnList}
		byName[f.name] = c
		p.callers = append(p.callers, c)
	}
	for _, t := range tests {
		fn := describe(filepath.Join(p.pkgDir(t.pkg), "x_test.go"), p.pkgPath(t.pkg), t.name)
		p.tests = append(p.tests, &lens.TestFunction{Function: fn, Targets: p.callers})
	}
	_ = callerSrc
	return p
}

func srcFile(pkg string, imps map[string]bool, body string) string {
	var l []string
	for i := range imps {
		l = append(l, i)
	}
	s := "package " + pkg + "\n\n"
	if len(l) > 0 {
		sortStrings(l)
		s += "import (\n"
		for _, i := range l {
			s += "\t\"" + i + "\"\n"
		}
		s += ")\n\n"
	}
	return s + body
}

// describe finds a function in a file the way static analysis describes it.
func describe(file, pkgPath, name string) lens.Function {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	must(err)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != name {
			continue
		}
		fn := lens.Function{FilePath: file, PackageName: pkgPath, FunctionName: name,
			FunctionIdent: lens.MakeFunctionIdent(pkgPath, fd), EntryLineNumber: uint32(fset.Position(fd.Pos()).Line)}
		ast.Inspect(fd, func(n ast.Node) bool {
			if r, ok := n.(*ast.ReturnStmt); ok {
				fn.ReturnPoints = append(fn.ReturnPoints, lens.FunctionReturn{Line: uint32(fset.Position(r.Pos()).Line)})
			}
			return true
		})
		return fn
	}
	panic("harness: no " + name + " in " + file)
}
