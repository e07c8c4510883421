package main

import (
	"bytes"
	binenc "encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vexec"
	"github.com/PatchLens/go-update-lens/zzverif/vhttp"
	"github.com/PatchLens/go-update-lens/zzverif/vnet"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func sortStrings(s []string) { sort.Strings(s) }

// sent is one message an instrumented function handed to the client.
type sent struct {
	run             *testRun
	kind            string
	id              uint32
	names           []string
	vals            []any
	fields          map[string]*xfield
	msg             string
	stack           []vsim.Frame
	task            int
	seq             int
	fn              *ifunc
	at              time.Duration
	wire            *vnet.SimMsg
	returned, acked bool
	ms              uint32
	visible         []string // variables in scope
	took            time.Duration
}

// testRun is one execution of a test binary.
type testRun struct {
	e       *world
	test    string
	pkg     string
	phase   int // 0 before the update, 1 after
	port    string
	sents   []*sent
	invs    []*invoc
	async   map[*vsim.Task]bool
	spawned []string // calls in goroutines of their own
	failed  bool
	crashed string
	invalid string // what was executed does not compile
	dead    bool
	over    bool
	began   time.Duration
	ended   time.Duration
	child   *vsim.Proc
	code    int
}

func (r *testRun) crash(msg string) {
	if r.crashed == "" {
		r.crashed = msg
	}
	r.dead = true
}

// cmdFault is what may go wrong with external commands (per mille).
type cmdFaults struct {
	rate, max, done int
	testKill        int
}

// world is the simulated surroundings of one analysis.
type world struct {
	x      *X
	p      *project
	runs   []*testRun
	rnd    int
	order  int
	post   bool
	cf     cmdFaults
	net    *vhttp.SimNet
	cmds   map[string]int
	broken []string // commands that were made to fail
	onTest func(r *testRun)
	step   time.Duration // simulated time a test takes
	check  bool          // test binaries are built only from sources that type-check
	failMu bool
	tool   func(c *vexec.Cmd) (vexec.SimProg, error)
	// ports seen in use by two processes at once
	busy  map[string]*testRun
	clash string
}

// follow ties messages on the network to the calls that sent them.
func follow(n *vhttp.SimNet) {
	n.OnSend = func(m *vnet.SimMsg) {
		if s, ok := m.Tag.(*sent); ok && s.wire == nil {
			s.wire = m
			// the time the client put into the message: varint id, then 8 bytes
			b := m.Body
			for len(b) > 0 && b[0] >= 0x80 {
				b = b[1:]
			}
			if len(b) >= 9 {
				s.ms = uint32((int64(binenc.LittleEndian.Uint64(b[1:9])) + 500000) / 1_000_000)
			}
		}
	}
}

func newWorld(x *X, p *project) *world {
	e := &world{x: x, p: p, net: &vhttp.SimNet{Latency: time.Millisecond}, cmds: map[string]int{}, busy: map[string]*testRun{}}
	follow(e.net)
	vhttp.SimSetNet(e.net)
	vexec.SimSetHook(e.exec)
	return e
}

func envGet(env []string, k string) string {
	v := ""
	for _, e := range env {
		if strings.HasPrefix(e, k+"=") {
			v = e[len(k)+1:]
		}
	}
	return v
}

func (e *world) fault(what string) int {
	c := &e.cf
	if c.rate == 0 || (c.max > 0 && c.done >= c.max) {
		return 0
	}
	if !vsim.Chance("cmd", what+" fails", c.rate) {
		return 0
	}
	c.done++
	k := 1 + vsim.Choose("cmdkind", 3)
	vsim.CountFault([]string{"", "cmd_not_started", "cmd_failed_before", "cmd_failed_midway"}[k])
	e.broken = append(e.broken, what)
	return k
}

var errStart = errors.New("fork/exec: resource temporarily unavailable")

func (e *world) exec(c *vexec.Cmd) (vexec.SimProg, error) {
	if e.tool != nil {
		if p, err := e.tool(c); p != nil || err != nil {
			return p, err
		}
	}
	if filepath.Base(c.Args[0]) != "go" {
		vsim.Fail("internal", "unexpected command %v", c.Args)
	}
	args := c.Args[1:]
	what := "go " + args[0]
	if args[0] == "mod" {
		what += " " + args[1]
	}
	e.cmds[what]++
	k := e.fault(what)
	if k == 1 {
		return nil, errStart
	}
	switch args[0] {
	case "clean":
		return func(sp *vexec.SimProc) int {
			if k > 1 {
				fmt.Fprintln(sp.Stderr, "go: clean failed")
				return 1
			}
			return 0
		}, nil
	case "get", "mod":
		return func(sp *vexec.SimProc) int {
			vsim.Sleep(10 * time.Millisecond)
			if k == 2 {
				fmt.Fprintln(sp.Stderr, "go: network unreachable")
				return 1
			}
			gm := filepath.Join(c.Dir, "go.mod")
			b, err := os.ReadFile(gm)
			if err != nil {
				fmt.Fprintln(sp.Stderr, err)
				return 1
			}
			if args[0] == "get" {
				name, ver, _ := strings.Cut(args[len(args)-1], "@")
				e.post = true
				if k == 3 {
					must(os.WriteFile(gm, b[:len(b)/2], 0o644))
					return 1
				}
				lines := strings.Split(string(b), "\n")
				for i, l := range lines {
					if f := strings.Fields(l); len(f) >= 3 && f[0] == "require" && f[1] == name {
						lines[i] = "require " + name + " " + ver
					}
				}
				must(os.WriteFile(gm, []byte(strings.Join(lines, "\n")), 0o644))
				appendFile(filepath.Join(c.Dir, "go.sum"), name+" "+ver+" h1:new=\n")
				return 0
			}
			if k == 3 {
				must(os.WriteFile(gm, append(b, "// tidy\n"...), 0o644))
				must(os.Remove(filepath.Join(c.Dir, "go.sum")))
				return 1
			}
			sum, _ := os.ReadFile(filepath.Join(c.Dir, "go.sum"))
			var keep []string
			for _, l := range strings.SplitAfter(string(sum), "\n") {
				if strings.Contains(l, "h1:new") {
					keep = append(keep, l)
				}
			}
			must(os.WriteFile(filepath.Join(c.Dir, "go.sum"), []byte(strings.Join(keep, "")), 0o644))
			return 0
		}, nil
	case "test":
		return func(sp *vexec.SimProc) int { return e.goTest(sp, c, k) }, nil
	}
	vsim.Fail("internal", "unexpected command %v", c.Args)
	return nil, nil
}

func appendFile(path, s string) {
	b, _ := os.ReadFile(path)
	must(os.WriteFile(path, append(b, s...), 0o644))
}

// findModule walks up to the go.mod of a directory.
func findModule(dir string) (root, name string, requires map[string]string) {
	for d := dir; ; d = filepath.Dir(d) {
		b, err := os.ReadFile(filepath.Join(d, "go.mod"))
		if err == nil {
			requires = map[string]string{}
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) >= 2 && f[0] == "module" {
					name = f[1]
				}
				if len(f) >= 3 && f[0] == "require" {
					requires[f[1]] = f[2]
				}
			}
			return d, name, requires
		}
		if d == filepath.Dir(d) {
			return "", "", nil
		}
	}
}

// goTest plays "go test" for one test function.
func (e *world) goTest(sp *vexec.SimProc, c *vexec.Cmd, k int) int {
	var name string
	for i, a := range c.Args {
		if a == "-run" && i+1 < len(c.Args) {
			name = strings.TrimSuffix(strings.TrimPrefix(c.Args[i+1], "^"), "$")
		}
	}
	modcache := envGet(c.Env, "GOMODCACHE")
	root, modPath, req := findModule(c.Dir)
	if root == "" {
		fmt.Fprintln(sp.Stdout, "go: go.mod file not found")
		return 1
	}
	rel, _ := filepath.Rel(root, c.Dir)
	pkg := modPath + "/" + filepath.ToSlash(rel)
	if rel == "." {
		pkg = modPath
	}
	run := &testRun{e: e, test: name, pkg: pkg, port: envGet(c.Env, "LENS_MONITOR_PORT"), began: vsim.Now()}
	if v := req[modName]; v == modNew {
		run.phase = 1
	}
	e.runs = append(e.runs, run)
	if o := e.busy[run.port]; o != nil {
		e.clash = fmt.Sprintf("%s and %s both report to port %s", o.test, run.test, run.port)
	}
	e.busy[run.port] = run
	defer func() {
		run.over = true
		run.ended = vsim.Now()
		delete(e.busy, run.port)
	}()
	if k == 2 {
		run.failed = true
		fmt.Fprintln(sp.Stdout, "FAIL\t"+pkg+" [setup failed]")
		return 1
	}
	prog := &iprog{pkgs: map[string]*ipkg{}, run: run, consts: map[string]int{}, check: e.check}
	prog.resolve = func(ip string) (string, bool) {
		if ip == modPath || strings.HasPrefix(ip, modPath+"/") {
			return filepath.Join(root, strings.TrimPrefix(ip, modPath)), true
		}
		for m, v := range req {
			if ip == m || strings.HasPrefix(ip, m+"/") {
				return filepath.Join(modcache, m+"@"+v, strings.TrimPrefix(ip, m)), true
			}
		}
		return "", false
	}
	q, err := prog.load(pkg, true)
	if err != nil {
		run.failed = true
		run.crashed = "build: " + err.Error()
		fmt.Fprintf(sp.Stdout, "# %s\n%v\nFAIL\t%s [build failed]\n", pkg, err, pkg)
		return 1
	}
	fn := q.funcs[name]
	if fn == nil {
		fmt.Fprintf(sp.Stdout, "testing: warning: no tests to run\nPASS\n")
		return 0
	}
	if e.onTest != nil {
		e.onTest(run)
	}
	child := vsim.NewProc("test "+name, append([]string(nil), c.Env...), prog.consts)
	run.child = child
	finished := false
	limit := vsim.After(30*time.Second, func() {
		if !finished {
			run.crash("test timed out after 30s")
		}
	})
	vsim.GoIn(child, "testmain", func() {
		defer func() { finished = true }()
		defer prog.top(run)
		if e.step > 0 {
			vsim.Sleep(e.step)
		}
		vsim.Cur().Stack = []vsim.Frame{trunnerFrame, goexitFrame}
		tf := false
		defer func() {
			if tf {
				run.failed = true
			}
		}()
		prog.callFunc(fn, nil, nil, []any{tval{&tf}})
	})
	if e.cf.testKill > 0 && vsim.Chance("kill", "test process killed", e.cf.testKill) {
		n := vsim.Choose("killat", 40)
		e.broken = append(e.broken, "kill "+name)
		vsim.CountFault("process_killed")
		vsim.GoNamed("oom-killer", func() {
			for i := 0; i < n && !finished; i++ {
				vsim.Sleep(200 * time.Microsecond)
			}
			if !finished {
				run.crash("signal: killed")
			}
		})
	}
	vsim.Block("test binary", func() bool { return finished || run.dead })
	limit()
	// exit: nothing of the process runs any more
	vsim.Kill(child)
	switch {
	case run.crashed != "":
		run.failed = true
		fmt.Fprintf(sp.Stdout, "panic: %s\n\ngoroutine 1 [running]:\nFAIL\t%s\nFAIL\n", run.crashed, pkg)
		run.code = 1
	case run.failed || k == 3:
		run.failed = true
		fmt.Fprintf(sp.Stdout, "--- FAIL: %s\nFAIL\nexit status 1\nFAIL\t%s\n", name, pkg)
		run.code = 1
	default:
		fmt.Fprintf(sp.Stdout, "ok  \t%s\n", pkg)
	}
	return run.code
}

// ---- what the recorded form of a value should be ----

type xfield struct {
	leaf string
	kids map[string]*xfield
}

func (f *xfield) String() string { return flatText(map[string]*xfield{"": f}) }

func flattenX(prefix string, m map[string]*xfield, out map[string]string) {
	for k, f := range m {
		k = strings.ReplaceAll(strings.ReplaceAll(k, `\`, `\\`), ".", `\.`)
		if prefix != "" {
			k = prefix + "." + k
		}
		if f.kids != nil {
			flattenX(k, f.kids, out)
		} else {
			out[k] = f.leaf
		}
	}
}

func flatText(m map[string]*xfield) string {
	fl := map[string]string{}
	flattenX("", m, fl)
	return mapText(fl)
}

func mapText(fl map[string]string) string {
	ks := make([]string, 0, len(fl))
	for k := range fl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b bytes.Buffer
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, fl[k])
	}
	return b.String()
}
