package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vpackages"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func init() {
	components["C18"] = component{
		real: []string{"AnalyzeModuleChanges, DiffModulesFromGoModFiles, DiffModulesFromGoWorkFiles, FindModuleVersion and everything below them (lens/module.go), the default module change provider (lens/engine.go)",
			"go/parser, go/types, go/printer, x/mod/modfile, difflib"},
		stub: []string{"packages.Load, which runs the go command: reads the same module files and sources, and may be slow or fail",
			"goroutines, channels, os, map order: the simulator"},
		assume: []string{"up to 4 modules of up to 3 versions, functions of up to 8 lines, edits that replace, insert or delete a line and do not touch each other"},
	}
	register(&Scenario{Name: "modules", Props: []string{"C18"}, Quick: 16000, Steps: 20_000_000, Preempt: []int{2, 6, 30, 200, 1500, 0}, Run: modulesScenario})
}

type mfn struct {
	pkg, file, name, recv string
	doc, tail             string
	lines                 []string
	// edits towards the next version: what each line of this version becomes
}

func (f *mfn) clone() *mfn { c := *f; c.lines = slices.Clone(f.lines); return &c }

func (f *mfn) key() string { return f.pkg + " " + f.recv + " " + f.name }

type mver struct {
	ver, gover string
	fns        []*mfn
	requires   map[string]string
	missing    bool // not in the cache
}

type mmod struct {
	path  string
	types map[string]bool
	vers  []*mver
}

func (m *mmod) at(ver string) *mver {
	for _, v := range m.vers {
		if v.ver == ver {
			return v
		}
	}
	return nil
}

type mworld struct {
	x        *X
	mods     []*mmod
	root     string
	cache    string
	seq      int
	projects map[string]map[string]string // directory below the root -> requirements
	indirect map[string]bool
	work     bool
	radius   int
}

func (w *mworld) mod(path string) *mmod {
	for _, m := range w.mods {
		if m.path == path {
			return m
		}
	}
	return nil
}

func (w *mworld) line() string { w.seq++; return fmt.Sprintf("n += %d", w.seq) }

func genModules(x *X) *mworld {
	w := &mworld{x: x, root: x.Dir("proj"), cache: x.Dir("cache"), projects: map[string]map[string]string{}, indirect: map[string]bool{}}
	if x.Pct(40) {
		w.radius = 1
	}
	nm := 2 + x.N(3)
	for i := 0; i < nm; i++ {
		m := &mmod{path: fmt.Sprintf("example.com/m%d", i), types: map[string]bool{}}
		if x.Pct(20) {
			m.path = fmt.Sprintf("example.com/Big%d/v2", i)
		}
		w.mods = append(w.mods, m)
	}
	for i, m := range w.mods {
		n := 2 + x.N(2)
		var prev *mver
		for k := 0; k < n; k++ {
			v := &mver{ver: fmt.Sprintf("v1.%d.0", k), gover: []string{"1.18", "1.20", "1.22", "1.9", ""}[x.N(5)], requires: map[string]string{}}
			if strings.HasSuffix(m.path, "/v2") {
				v.ver = fmt.Sprintf("v2.%d.0", k)
			}
			if prev == nil {
				for f, nf := 0, 1+x.N(5); f < nf; f++ {
					v.fns = append(v.fns, w.fn(m))
				}
			} else {
				v.fns = w.evolve(m, prev)
			}
			// requirements on later modules only
			for _, d := range w.mods[i+1:] {
				if x.Pct(50) {
					p := ""
					if prev != nil {
						p = prev.requires[d.path]
					}
					if p == "" || x.Pct(60) {
						p = "?" // chosen below, when the versions are known
					}
					v.requires[d.path] = p
				}
			}
			m.vers = append(m.vers, v)
			prev = v
		}
	}
	for _, m := range w.mods {
		for _, v := range m.vers {
			for _, d := range keysOf(v.requires) {
				if v.requires[d] == "?" {
					dm := w.mod(d)
					v.requires[d] = dm.vers[x.N(len(dm.vers))].ver
				}
			}
		}
	}
	dirs := []string{"."}
	w.work = x.Pct(35)
	if w.work {
		dirs = []string{"p1", "p2"}
		if x.Pct(30) {
			dirs = append(dirs, ".")
		}
	}
	for _, d := range dirs {
		r := map[string]string{}
		for _, m := range w.mods {
			if x.Pct(75) {
				r[m.path] = m.vers[x.N(len(m.vers)-1)].ver
			}
		}
		w.projects[d] = r
	}
	for _, m := range w.mods {
		w.indirect[m.path] = x.Pct(25)
	}
	if x.Pct(6) {
		m := w.mods[x.N(len(w.mods))]
		m.vers[x.N(len(m.vers))].missing = true
	}
	w.write()
	return w
}

func (w *mworld) fn(m *mmod) *mfn {
	x := w.x
	w.seq++
	f := &mfn{name: fmt.Sprintf("F%d", w.seq), pkg: m.path, file: []string{"a.go", "b.go"}[x.N(2)]}
	if x.Pct(30) {
		f.pkg += "/sub"
	}
	if x.Pct(30) {
		f.recv = []string{"T", "*T", "*U"}[x.N(3)]
	}
	if x.Pct(30) {
		f.doc = "// " + f.name + " does something."
	}
	for i, n := 0, 1+x.N(7); i < n; i++ {
		f.lines = append(f.lines, w.line())
	}
	return f
}

// evolve makes the functions of the next version.
func (w *mworld) evolve(m *mmod, prev *mver) []*mfn {
	x := w.x
	var out []*mfn
	for _, o := range prev.fns {
		f := o.clone()
		switch k := x.N(20); {
		case k < 8: // as it was
		case k < 9:
			f.doc = "// " + f.name + " was described anew."
		case k < 10:
			f.tail = fmt.Sprintf(" // remark %d", x.N(9))
		case k < 14:
			f.lines[x.N(len(f.lines))] = w.line()
		case k < 15:
			i := x.N(len(f.lines) + 1)
			f.lines = slices.Insert(f.lines, i, w.line())
		case k < 16:
			if len(f.lines) > 1 {
				i := x.N(len(f.lines))
				f.lines = slices.Delete(f.lines, i, i+1)
			}
		case k < 17:
			continue // removed
		case k < 18:
			f.file = map[string]string{"a.go": "b.go", "b.go": "a.go"}[f.file]
		case k < 19: // two edits far from each other
			f.lines[0] = w.line()
			if n := len(f.lines); n > 4 {
				f.lines[n-1] = w.line()
			}
		default:
			w.seq++
			f.recv = map[string]string{"": "T", "T": "*T", "*T": "T", "*U": ""}[f.recv] // another function then
		}
		out = append(out, f)
	}
	for i, n := 0, x.N(3); i < n; i++ {
		out = append(out, w.fn(m))
	}
	if x.Pct(30) {
		slices.Reverse(out)
	}
	return out
}

func (f *mfn) text() string {
	r := ""
	if f.recv != "" {
		r = "(r " + f.recv + ") "
	}
	s := "func " + r + f.name + "(n int) int {\n"
	for i, l := range f.lines {
		s += "\t" + l
		if i == 0 {
			s += f.tail
		}
		s += "\n"
	}
	return s + "\treturn n\n}"
}

func (f *mfn) ident() string {
	if f.recv != "" {
		return f.pkg + ":" + f.recv + "." + f.name
	}
	return f.pkg + ":" + f.name
}

func (w *mworld) dir(m *mmod, v *mver) string {
	p := strings.ReplaceAll(m.path, "B", "!b")
	return filepath.Join(w.cache, p+"@"+v.ver)
}

func gomod(path, gover string, req map[string]string, indirect map[string]bool) string {
	s := "module " + path + "\n"
	if gover != "" {
		s += "\ngo " + gover + "\n"
	}
	for _, d := range keysOf(req) {
		s += "\nrequire " + d + " " + req[d]
		if indirect[d] {
			s += " // indirect"
		}
		s += "\n"
	}
	return s
}

func (w *mworld) write() {
	for _, m := range w.mods {
		for _, v := range m.vers {
			if v.missing {
				continue
			}
			dir := w.dir(m, v)
			write(filepath.Join(dir, "go.mod"), gomod(m.path, v.gover, v.requires, nil))
			files := map[string]string{}
			for _, sub := range []string{"", "sub"} {
				has := sub == ""
				for _, f := range v.fns {
					has = has || f.pkg == m.path+"/"+sub
				}
				if has {
					files[filepath.Join(sub, "types.go")] = "package p\n\ntype T struct{}\n\ntype U struct{}\n"
				}
			}
			for _, f := range v.fns {
				n := filepath.Join(strings.TrimPrefix(strings.TrimPrefix(f.pkg, m.path), "/"), f.file)
				if files[n] == "" {
					files[n] = "package p\n"
				}
				files[n] += "\n"
				if f.doc != "" {
					files[n] += f.doc + "\n"
				}
				files[n] += f.text() + "\n"
			}
			for n, t := range files {
				write(filepath.Join(dir, n), t)
			}
		}
	}
	w.writeProject(w.root, w.projects)
}

func (w *mworld) writeProject(root string, projects map[string]map[string]string) {
	use := ""
	for _, d := range keysOf(projects) {
		write(filepath.Join(root, d, "go.mod"), gomod("example.com/proj/"+d, "1.22", projects[d], w.indirect))
		if d == "." {
			use += "\t.\n"
		} else {
			use += "\t./" + d + "\n"
		}
	}
	if w.work {
		write(filepath.Join(root, "go.work"), "go 1.22\n\nuse (\n"+use+")\n")
	}
}

type mchange struct {
	name, prior, next string
	indirect          bool
}

func (c mchange) String() string {
	return fmt.Sprintf("%s %s->%s %v", c.name, c.prior, c.next, c.indirect)
}

// diff gives the functions that differ between two versions, described.
func (w *mworld) diff(m *mmod, prior, next string) []string {
	a, b := m.at(prior), m.at(next)
	if a == nil || b == nil {
		return nil
	}
	var out []string
	for _, o := range a.fns {
		for _, n := range b.fns {
			if o.key() != n.key() || slices.Equal(o.lines, n.lines) {
				continue
			}
			out = append(out, w.describe(o.ident(), filepath.Join(w.dir(m, a), strings.TrimPrefix(o.pkg, m.path), o.file), o.def(), w.bitmap(o, n), w.entry(m, a, o)))
		}
	}
	sort.Strings(out)
	return out
}

func (f *mfn) def() string {
	c := *f
	c.tail = ""
	return c.text()
}

func (w *mworld) entry(m *mmod, v *mver, f *mfn) int {
	b, err := os.ReadFile(filepath.Join(w.dir(m, v), strings.TrimPrefix(f.pkg, m.path), f.file))
	must(err)
	i := strings.Index(string(b), strings.SplitN(f.text(), "\n", 2)[0])
	return 1 + strings.Count(string(b[:i]), "\n")
}

func (w *mworld) describe(ident, file, def string, bits []bool, entry int) string {
	s := ""
	for _, b := range bits {
		if b {
			s += "x"
		} else {
			s += "."
		}
	}
	rel, _ := filepath.Rel(w.cache, file)
	return fmt.Sprintf("%s in %s:%d lines %s %q", ident, rel, entry, s, def)
}

// bitmap marks the lines of the old definition that the new one affects. All
// lines are different, so the common ones tell what moved where.
func (w *mworld) bitmap(o, n *mfn) []bool {
	a, b := strings.Split(o.def(), "\n"), strings.Split(n.def(), "\n")
	bits := make([]bool, len(a))
	mark := func(i int) {
		if i >= 0 && i < len(bits) {
			bits[i] = true
		}
	}
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if i < len(a) && j < len(b) && a[i] == b[j] {
			i++
			j++
			continue
		}
		i0, j0 := i, j
		for i < len(a) && !slices.Contains(b[j:], a[i]) {
			i++
		}
		for j < len(b) && !slices.Contains(a[i:], b[j]) {
			j++
		}
		for k := i0; k < i; k++ {
			mark(k)
		}
		if i == i0 && j > j0 {
			for r := 0; r < w.radius; r++ {
				mark(i - 1 - r)
				mark(i + r)
			}
		}
	}
	return bits
}

// outcome of an analysis, comparable.
type moutcome struct {
	text string
	errs []string // versions that cannot be loaded
}

func (w *mworld) deps(m *mmod, ver string) map[string]string { return m.at(ver).requires }

// projectDeps is the oldest version of each module that the project requires.
func (w *mworld) projectDeps() map[string]string {
	out := map[string]string{}
	for _, r := range w.projects {
		for d, v := range r {
			if o, ok := out[d]; !ok || v < o {
				out[d] = v
			}
		}
	}
	return out
}

// outcomes gives every result that the updates can have: the order in which one
// level's dependencies are looked at is not fixed.
func (w *mworld) outcomes(changes []mchange, transitive bool) (texts map[string]bool, fails bool) {
	texts = map[string]bool{}
	proj := w.projectDeps()
	var level func(todo []mchange, first bool, visited map[string]bool, res map[string][]string)
	expand := func(c mchange) (next []mchange, bad bool) {
		m := w.mod(c.name)
		if m.at(c.prior).missing || m.at(c.next).missing {
			return nil, true
		}
		if !transitive {
			return nil, false
		}
		od, nd := w.deps(m, c.prior), w.deps(m, c.next)
		for _, d := range keysOf(nd) {
			if od[d] != nd[d] && proj[d] != "" && proj[d] != nd[d] {
				next = append(next, mchange{d, proj[d], nd[d], true})
			}
		}
		return
	}
	level = func(todo []mchange, first bool, visited map[string]bool, res map[string][]string) {
		if len(todo) == 0 {
			texts[render(res)] = true
			return
		}
		choices(todo, visited, func(pick []mchange) {
			v := map[string]bool{}
			for k := range visited {
				v[k] = true
			}
			for _, c := range pick {
				v[c.name] = true
			}
			r := map[string][]string{}
			for k, l := range res {
				r[k] = l
			}
			var next []mchange
			for _, c := range pick {
				n, bad := expand(c)
				if bad {
					fails = true
					return
				}
				d := w.diff(w.mod(c.name), c.prior, c.next)
				if first || len(d) > 0 {
					r[c.name] = append([]string{c.String()}, d...)
				}
				next = append(next, n...)
			}
			level(next, false, v, r)
		})
	}
	level(changes, true, map[string]bool{}, map[string][]string{})
	return
}

func render(r map[string][]string) string {
	s := ""
	for _, k := range keysOf(r) {
		l := r[k]
		if len(l) > 0 && len(l) == 1 {
			l = nil // without functions the version is not shown
		}
		s += k + ":\n"
		for _, e := range l {
			s += "  " + e + "\n"
		}
	}
	return s
}

// choices calls f with every way to take one change for each module that was not
// looked at before.
func choices(l []mchange, visited map[string]bool, f func([]mchange)) {
	by := map[string][]mchange{}
	for _, c := range l {
		if !visited[c.name] && !slices.Contains(by[c.name], c) {
			by[c.name] = append(by[c.name], c)
		}
	}
	names := keysOf(by)
	pick := make([]mchange, len(names))
	var rec func(k int)
	rec = func(k int) {
		if k == len(names) {
			f(pick)
			return
		}
		for _, c := range by[names[k]] {
			pick[k] = c
			rec(k + 1)
		}
	}
	rec(0)
}

func modulesScenario(x *X) {
	vpackages.SimReset()
	w := genModules(x)
	// the update: new module files, or a list
	next := map[string]map[string]string{}
	for _, d := range keysOf(w.projects) {
		r := w.projects[d]
		n := map[string]string{}
		for _, m := range w.mods {
			v, ok := r[m.path]
			switch {
			case ok && x.Pct(10): // no longer required
			case ok && x.Pct(60):
				n[m.path] = m.vers[x.N(len(m.vers))].ver
			case ok:
				n[m.path] = v
			case x.Pct(10):
				n[m.path] = m.vers[0].ver // newly required
			}
		}
		next[d] = n
	}
	want := []mchange{}
	for _, d := range keysOf(w.projects) {
		for _, m := range w.mods {
			a, b := w.projects[d][m.path], next[d][m.path]
			if c := (mchange{m.path, a, b, w.indirect[m.path]}); a != "" && b != "" && a != b && !slices.Contains(want, c) {
				want = append(want, c)
			}
		}
	}
	upd := x.Path("update")
	w.writeProject(upd, next)
	faults := x.Pct(15)
	failLoad := ""
	if x.Pct(8) {
		m := w.mods[x.N(len(w.mods))]
		failLoad = w.dir(m, m.vers[x.N(len(m.vers))])
	}
	failed := false
	slow := x.Pct(40)
	vpackages.SimHook = func(dir string, tests bool) error {
		if slow {
			vsim.Sleep(time.Duration(1+vsim.Choose("sim", 5000)) * time.Millisecond)
		}
		if dir == failLoad {
			failed = true
			vsim.CountFault("load_failure")
			return errLoad
		}
		return nil
	}
	if faults {
		x.fsFaults(60, 1, func(op, path string) bool {
			return op != "stat" && (strings.HasSuffix(path, "go.mod") || strings.HasSuffix(path, "go.work"))
		})
	}
	diffs := func() ([]*lens.ModuleChange, error) {
		if w.work {
			return lens.DiffModulesFromGoWorkFiles(w.root, filepath.Join(upd, "go.work"))
		}
		return lens.DiffModulesFromGoModFiles(filepath.Join(w.root, "go.mod"), filepath.Join(upd, "go.mod"))
	}
	before := snap(x.root)
	changes, err := diffs()
	if vsim.FSFaults() > 0 {
		x.Check("C18", err != nil, "fault hidden", "comparing module files succeeded although %v of %v failed", vsim.W.FSFaulted, vsim.W.FSPaths)
		return
	}
	x.Check("C18", err == nil, "spurious error", "comparing module files failed: %v", strip(x, err))
	if err != nil {
		return
	}
	got := changesOf(changes)
	a, b := sortedChanges(want), sortedChanges(dedup(got))
	x.Check("C18", slices.Equal(a, b), "updated modules", "the updated modules are %v, found were %v", a, b)
	again, err := diffs()
	if err == nil {
		x.Check("C18", fmt.Sprint(got) == fmt.Sprint(changesOf(again)), "chance", "comparing the same module files twice gave %v and then %v", got, changesOf(again))
	} else if vsim.FSFaults() > 0 {
		return
	}
	for _, m := range w.mods { // the version the project has
		v, ind, err := lens.FindModuleVersion(w.root, m.path)
		if vsim.FSFaults() > 0 {
			x.Check("C18", err != nil, "fault hidden", "looking for a module's version succeeded although %v of %v failed", vsim.W.FSFaulted, vsim.W.FSPaths)
			return
		}
		ok := err == nil && v == "" && !ind
		found := false
		for _, d := range keysOf(w.projects) {
			if r := w.projects[d][m.path]; r != "" {
				found = true
				ok = ok || err == nil && v == r && ind == w.indirect[m.path]
			}
		}
		if found && v == "" {
			ok = false
		}
		x.Check("C18", ok, "version", "the project requires %s at %v, found was %q, indirect %v, %v", m.path, w.projects, v, ind, strip(x, err))
	}

	if x.Pct(40) { // a list given by the user
		changes = nil
		pd := w.projectDeps()
		for _, m := range w.mods {
			if v := pd[m.path]; v != "" && x.Pct(50) {
				n := m.vers[x.N(len(m.vers))].ver
				if n != v {
					changes = append(changes, &lens.ModuleChange{Name: m.path, PriorVersion: v, NewVersion: n, Indirect: w.indirect[m.path]})
				}
			}
		}
	}
	transitive := x.Pct(60)
	list := changesOf(changes)
	texts, mayFail := w.outcomes(list, transitive)
	x.Say("updates %v, transitive %v, possible results %d, may fail %v", list, transitive, len(texts), mayFail)
	cfg := lens.Config{AbsProjDir: w.root, Gomodcache: w.cache, Gopath: x.Path("gopath")}
	results := ""
	for k := 0; k < 2; k++ {
		in := copyChanges(list)
		funcs, pkgs, err := (&lens.DefaultModuleChangeProvider{}).AnalyzeModuleChanges(cfg, transitive, in, w.radius)
		if vsim.FSFaults() > 0 {
			x.Check("C18", err != nil, "fault hidden", "module analysis succeeded although %v of %v failed", vsim.W.FSFaulted, vsim.W.FSPaths)
			return
		}
		if failed {
			if mayFail { // either failure may be the first
				x.Check("C18", err != nil, "error lost", "loading a version failed with %v, the module analysis succeeded", errLoad)
				return
			}
			x.Check("C18", errors.Is(err, errLoad), "error lost", "loading a version failed with %v, the module analysis returned %v", errLoad, strip(x, err))
			return
		}
		if mayFail && (len(texts) == 0 || err != nil) {
			x.Check("C18", err != nil, "missing version", "a version that is not in the cache was analysed")
			vsim.Probe("modules.missing")
			return
		}
		x.Check("C18", err == nil, "spurious error", "module analysis failed: %v", strip(x, err))
		if err != nil {
			return
		}
		res := map[string][]string{}
		for name, fs := range funcs {
			res[name] = []string{}
			for i, f := range fs {
				mc := f.Module
				if i == 0 {
					res[name] = append(res[name], mchange{mc.Name, mc.PriorVersion, mc.NewVersion, mc.Indirect}.String())
				}
				x.Check("C18", f.Module != nil && f.Module == fs[0].Module && f.Module.Name == name, "module", "function %s is listed for %s and says it belongs to another module", f.FunctionIdent, name)
				res[name] = append(res[name], w.describe(f.FunctionIdent, f.FilePath, f.Definition, f.LineChangeBitmap, int(f.EntryLineNumber)))
				ret := f.ReturnPoints
				x.Check("C18", len(ret) == 1 && int(ret[0].Line) == int(f.EntryLineNumber)+strings.Count(f.Definition, "\n")-1 && !f.ReturnPanic, "returns", "function %s: return points %v, entry %d", f.FunctionIdent, ret, f.EntryLineNumber)
			}
			if len(fs) > 0 {
				sort.Strings(res[name][1:])
			}
		}
		text := render(res)
		x.Check("C18", texts[text], "functions", "the analysis of %v gave\n%s\nand not\n%s", list, text, strings.Join(keysOf(texts), "or\n"))
		if k == 1 {
			x.Check("C18", text == results, "chance", "the same analysis gave\n%s\nand then\n%s", results, text)
		}
		results = text
		done := map[string]bool{}
		for _, mc := range in {
			if done[mc.Name] {
				continue
			}
			done[mc.Name] = true
			w.packagesOf(mc, pkgs[mc.Name], in)
		}
		if len(texts) > 1 {
			vsim.Probe("modules.choice")
		}
		for name := range funcs {
			if !done[name] {
				vsim.Probe("modules.transitive")
			}
		}
	}
	x.Check("C18", before.diff(snap(x.root)) == "", "sources", "module analysis changed files: %s", before.diff(snap(x.root)))
}

// packagesOf checks the packages handed on for a module: those of a new version
// the updates name.
func (w *mworld) packagesOf(mc *lens.ModuleChange, pkgs []*packages.Package, in []*lens.ModuleChange) {
	x := w.x
	m := w.mod(mc.Name)
	var have []string
	for _, p := range pkgs {
		have = append(have, p.PkgPath)
		ok := false
		for _, c := range in {
			if c.Name == mc.Name {
				for _, f := range p.GoFiles {
					ok = ok || strings.HasPrefix(f, w.dir(m, m.at(c.NewVersion))+"/")
				}
			}
		}
		x.Check("C18", ok, "packages", "package %s handed on for %s is not of the new version", p.PkgPath, mc.Name)
	}
	x.Check("C18", slices.Contains(have, m.path), "packages", "packages handed on for %s: %v", mc.Name, have)
	single := true
	for _, c := range in {
		single = single && (c == mc || c.Name != mc.Name)
	}
	if single {
		a, b := m.at(mc.PriorVersion).gover, m.at(mc.NewVersion).gover
		want := a
		if a == "" || b != "" && goverLess(b, a) {
			want = b
		}
		x.Check("C18", mc.GoVersion == want, "go version", "%s needs go %q and %q, noted was %q", mc.Name, a, b, mc.GoVersion)
	}
}

func goverLess(a, b string) bool {
	var x, y int
	fmt.Sscanf(a, "1.%d", &x)
	fmt.Sscanf(b, "1.%d", &y)
	return x < y
}

func changesOf(l []*lens.ModuleChange) []mchange {
	out := []mchange{}
	for _, c := range l {
		out = append(out, mchange{c.Name, c.PriorVersion, c.NewVersion, c.Indirect})
	}
	return out
}

func copyChanges(l []mchange) []*lens.ModuleChange {
	var out []*lens.ModuleChange
	for _, c := range l {
		out = append(out, &lens.ModuleChange{Name: c.name, PriorVersion: c.prior, NewVersion: c.next, Indirect: c.indirect})
	}
	return out
}

func dedup(l []mchange) (out []mchange) {
	for _, c := range l {
		if !slices.Contains(out, c) {
			out = append(out, c)
		}
	}
	return
}

func sortedChanges(l []mchange) []mchange {
	l = append([]mchange{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}
