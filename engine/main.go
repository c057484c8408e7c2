package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	Name string
	Fn   *ssa.Function
	// statistics
	Paths, Completed, Assumed, Incomplete, Forced int
	Asserts                                       map[string]*AssertStat
	Reach                                         map[string]int
	IncReasons                                    map[string]int
	Pending                                       int
	samples                                       []*sample
	nsample                                       int
	Wall                                          time.Duration
	OrderPaths                                    int
	bounds                                        string
}

type AssertStat struct {
	Checked, Failed int
}

type sample struct {
	H      string
	Inputs []NDVal
	Reach  []string
	Obs    []string
	End    string
}

type Engine struct {
	mu                           sync.Mutex
	cond                         *sync.Cond
	ssaMu                        sync.Mutex
	prog                         *ssa.Program
	raml                         *ssa.Package
	harnesses                    []*Harness
	work                         map[*Harness][]*WorkItem
	active                       int
	rr                           int
	deadline                     time.Time
	maxSteps                     int64
	memFull                      atomic.Bool // the heap is near its bound: paths that have run for long are cut
	longest                      int64
	maxDepth                     int
	maxEnum                      int
	checkModels                  bool
	notes                        map[string]int
	viols                        []*Violation
	violCount                    map[string]int
	transitions                  int64
	obligations                  int64
	covered                      map[string]bool
	queries, sat, unsat, unknown int
	solverTime                   time.Duration
	solverErrs                   []string
	steps                        int64
	stop                         bool
	tier                         string
	seed                         int
	verbose                      bool
	solverBin                    string
	altSolver                    string
	panicsDbg                    map[string]int
	sizes                        types.Sizes
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}
func (e *Engine) addTransitions(n int64) { atomic.AddInt64(&e.transitions, n) }
func (e *Engine) addObligation()         { atomic.AddInt64(&e.obligations, 1) }
func (e *Engine) addWork(w *WorkItem) {
	e.mu.Lock()
	e.work[w.h] = append(e.work[w.h], w)
	e.cond.Signal()
	e.mu.Unlock()
}
func (e *Engine) countAssert(h *Harness, label string, bad bool) {
	e.mu.Lock()
	a := h.Asserts[label]
	if a == nil {
		a = &AssertStat{}
		h.Asserts[label] = a
	}
	a.Checked++
	if bad {
		a.Failed++
	}
	e.mu.Unlock()
}

func (e *Engine) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := v.Harness + "|" + v.Kind + "|" + v.Label
	e.violCount[k]++
	if e.violCount[k] > 25 {
		return
	}
	e.viols = append(e.viols, v)
}

func (e *Engine) getWork() *WorkItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		n := len(e.harnesses)
		for i := 0; i < n; i++ {
			h := e.harnesses[(e.rr+i)%n]
			q := e.work[h]
			if len(q) > 0 {
				w := q[len(q)-1]
				e.work[h] = q[:len(q)-1]
				e.rr = (e.rr + i + 1) % n
				e.active++
				return w
			}
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) doneWork() {
	e.mu.Lock()
	e.active--
	e.cond.Broadcast()
	e.mu.Unlock()
}

func newInterp(e *Engine) *Interp {
	in := &Interp{prog: e.prog, c: newCtx(), eng: e, globals: map[*ssa.Global]*Value{}, fns: map[*ssa.Function]*fnInfo{},
		canonC: map[types.Type]types.Type{}, method: map[methKey]*ssa.Function{}, intr: nativeIntr(), covered: map[*ssa.Function]bool{},
		scratch: map[string]any{}, typeReg: map[string]types.Type{}, sizes: e.sizes}
	addInit(in.intr)
	in.dbg = e.verbose
	if p := e.prog.ImportedPackage("runtime"); p != nil {
		in.rtErrT = p.Pkg.Scope().Lookup("errorString").Type()
	}
	return in
}

var noInit = []string{"errors", "gopkg.in/yaml.v3", "runtime", "os", "syscall", "reflect", "fmt", "encoding/json", "encoding/json/internal", "encoding/json/v2", "encoding/json/jsontext", "net", "net/netip", "regexp/syntax", "regexp", "log", "math/big", "math/rand", "sync", "sync/atomic", "github.com/zeebo/xxh3", "github.com/klauspost/cpuid/v2", "flag", "unique", "iter", "weak", "runtime/debug", "runtime/cgo", "context", "hash", "encoding/base32", "encoding/base64", "encoding/binary", "encoding/hex", "github.com/mailru/easyjson/buffer", "github.com/mailru/easyjson/jwriter", "github.com/buger/jsonparser"}

func skipInit(path string) bool {
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "encoding/json/") {
		return path != "internal/oserror" && path != "internal/strconv" && path != "internal/stringslite"
	}
	for _, n := range noInit {
		if n == path {
			return true
		}
	}
	return false
}

func addInit(m map[string]intrinsic) {
	m["time.runtimeNano"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return uint64(1) }
	m["time.runtimeNow"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{uint64(1), uint64(1), uint64(1)}
	}
}

func (in *Interp) runInit(p *ssa.Package) (err error) {
	fn := p.Func("init")
	defer func() {
		if r := recover(); r != nil {
			in.depth = 0
			in.cur = nil
			switch x := r.(type) {
			case *unsupported:
				err = fmt.Errorf("init %s: unsupported %s", p.Pkg.Path(), x.msg)
			case *targetPanic:
				err = fmt.Errorf("init %s: panic %v\n%s", p.Pkg.Path(), x.v, x.trace)
			case *pathEnd:
				err = fmt.Errorf("init %s: %s", p.Pkg.Path(), x.reason)
			default:
				err = fmt.Errorf("init %s: engine %v\n%s", p.Pkg.Path(), r, debug.Stack())
			}
		}
	}()
	in.callFn(nil, fn, nil, nil)
	return nil
}

// baseline runs the package initialisers in dependency order.
func (in *Interp) baseline() []error {
	var errs []error
	seen := map[*types.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if sp := in.prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	visit(in.eng.raml.Pkg)
	// dependency initialisers are run by us, never recursively
	in.intrInit()
	for _, p := range order {
		if skipInit(p.Pkg.Path()) {
			continue
		}
		in.steps = 0
		if err := in.runInit(p); err != nil {
			errs = append(errs, err)
		}
	}
	return errs
}

func (in *Interp) intrInit() {
	for _, p := range in.prog.AllPackages() {
		if f := p.Func("init"); f != nil {
			fi := in.info(f)
			pp := p
			fi.intr = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
				if fr == nil { // top-level call
					return fallthru{}
				}
				_ = pp
				return nil
			}
		}
	}
}

func (in *Interp) startPath(w *WorkItem) *Path {
	m := w.model
	if m == nil {
		m = Model{}
	}
	p := &Path{h: w.h, prefix: w.prefix, model: m, memo: map[*E]V{}, interned: map[string]*E{}, cover: map[string]bool{}}
	return p
}

func (in *Interp) runPath(w *WorkItem) {
	e := in.eng
	if in.s.defs > 120000 {
		in.s.close()
		in.s.start()
		in.c = newCtx()
	}
	in.p = in.startPath(w)
	p := in.p
	in.s.push()
	in.steps = 0
	in.depth = 0
	in.cur = nil
	in.logging = true
	end := "done"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case *pathEnd:
				end = x.reason
				if end == "depth" || end == "steps" {
					if in.dbg {
						fmt.Println("NONTERM", end, p.h.Name, in.inputs(p.model))
					}
					in.violation("hang", "nontermination", end, p.model)
				}
			case *unsupported:
				end = "unsupported: " + x.msg
				if in.dbg {
					fmt.Println("UNSUP", x.msg, "\n"+in.stack())
				}
			case *targetPanic:
				end = "panic"
				msg := in.panicText(x)
				if in.dbg {
					fmt.Println("PANIC", p.h.Name, msg, "\n"+x.trace, in.inputs(p.model))
				}
				in.violation("panic", "uncaught panic", msg, p.model)
			default:
				end = fmt.Sprintf("engine: %v", r)
				if in.dbg || true {
					e.mu.Lock()
					if e.panicsDbg[end] < 1 {
						e.panicsDbg[end]++
						fmt.Fprintln(os.Stderr, "ENGINE", p.h.Name, r, "\n"+in.stack()+string(debug.Stack()))
					}
					e.mu.Unlock()
				}
			}
		}()
		in.callFn(nil, p.h.Fn, nil, nil)
	}()
	// restore the baseline
	in.cur = nil
	in.depth = 0
	var smp *sample
	e.mu.Lock()
	h := p.h
	want := end == "done" && !p.usedOrder && h.nsample < 400
	h.nsample++
	e.mu.Unlock()
	if want || (strings.HasPrefix(end, "unsupported") || strings.HasPrefix(end, "engine")) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					end = "engine: " + fmt.Sprint(r)
				}
			}()
			smp = &sample{H: h.Name, Inputs: in.inputs(p.model), Reach: append([]string{}, p.reach...), End: end}
			for _, o := range p.obs {
				smp.Obs = append(smp.Obs, o.label+"="+in.renderObs(o.v, p.model))
			}
		}()
	}
	in.logging = false
	in.rollback()
	for in.s.level > 0 {
		in.s.pop()
	}
	in.total += in.steps
	e.mu.Lock()
	defer e.mu.Unlock()
	if end == "done" && in.steps > e.longest {
		e.longest = in.steps
	}
	h.Paths++
	switch {
	case end == "done":
		h.Completed++
	case end == "assume" || end == "violated" || end == "panic" || end == "pin-infeasible":
		h.Assumed++
	case end == "depth" || end == "steps":
		h.IncReasons["step or depth limit ("+end+")"]++
	default:
		h.IncReasons[end]++
	}
	if p.usedOrder {
		h.OrderPaths++
	}
	if len(p.incomplete) > 0 {
		h.Incomplete++
		for _, r := range p.incomplete {
			h.IncReasons[r]++
		}
	}
	for _, r := range p.reach {
		h.Reach[r]++
	}
	if smp != nil {
		h.samples = append(h.samples, smp)
	}
	in.p = nil
}

func (in *Interp) panicText(x *targetPanic) string {
	i, ok := x.v.(Iface)
	if !ok || i.t == nil {
		return "panic"
	}
	defer func() { recover() }()
	if s, ok := i.v.(string); ok {
		return s
	}
	v := in.fmtVal('v', "%v", i)
	if s, ok := v.(string); ok {
		return s
	}
	return in.typeString(i.t)
}

func (in *Interp) renderObs(v Value, m Model) string {
	i := v.(Iface)
	if i.t == nil {
		return "nil"
	}
	memo := map[*E]V{}
	switch x := i.v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case uint64:
		k := kindOf(i.t)
		if k.signed {
			return strconv.FormatInt(sext(x, k.w), 10)
		}
		return strconv.FormatUint(x, 10)
	case string:
		return x
	case *E:
		if x.sort == 0 {
			return strconv.FormatBool(x.eval(m, memo).u != 0)
		}
		if x.sort <= 64 {
			k := kindOf(i.t)
			u := x.eval(m, memo).u
			if k.signed {
				return strconv.FormatInt(sext(u, k.w), 10)
			}
			return strconv.FormatUint(u, 10)
		}
	}
	return "?"
}

func (e *Engine) worker(id int, ready *sync.WaitGroup) {
	defer ready.Done()
	in := newInterp(e)
	in.steps = 0
	sv := e.maxSteps
	_ = sv
	errs := in.baseline()
	if e.verbose && id == 0 {
		for _, er := range errs {
			fmt.Println("INIT:", er)
		}
		fmt.Println("baseline steps", in.steps)
	}
	if f := e.raml.Func("vWarmup"); f != nil {
		in.steps = 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintln(os.Stderr, "warmup:", r)
					switch x := r.(type) {
					case *unsupported:
						fmt.Fprintln(os.Stderr, x.msg, "\n", in.stack())
					case *targetPanic:
						fmt.Fprintln(os.Stderr, in.panicText(x), "\n", x.trace)
					default:
						fmt.Fprintln(os.Stderr, string(debug.Stack()), in.stack())
					}
				}
			}()
			in.callFn(nil, f, nil, nil)
		}()
		in.cur = nil
		in.depth = 0
	}
	in.s = newSolver(e.solverBin, 800)
	defer in.s.close()
	for {
		w := e.getWork()
		if w == nil {
			break
		}
		in.runPath(w)
		e.doneWork()
	}
	e.mu.Lock()
	e.queries += in.s.Queries
	e.sat += in.s.Sat
	e.unsat += in.s.Unsat
	e.unknown += in.s.Unknown
	e.solverTime += in.s.Time
	e.solverErrs = append(e.solverErrs, in.s.Errors...)
	e.steps += in.total
	for f := range in.covered {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), ramlPath) {
			if !strings.Contains(e.prog.Fset.Position(f.Pos()).Filename, "zz_verif") && f.Synthetic == "" {
				e.covered[f.String()] = true
			}
		}
	}
	e.mu.Unlock()
}

func load(repo string, overlay map[string][]byte) (*ssa.Program, *ssa.Package, types.Sizes, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, nil, nil, err
	}
	if len(pkgs) != 1 {
		return nil, nil, nil, fmt.Errorf("loaded %d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, nil, nil, fmt.Errorf("package errors: %v", pkgs[0].Errors)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, ps[0], pkgs[0].TypesSizes, nil
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	verbose := flag.Bool("v", false, "")
	only := flag.String("only", "", "run only this harness")
	budget := flag.Duration("budget", 0, "wall-clock budget for exploration")
	workers := flag.Int("j", runtime.NumCPU(), "")
	noReplay := flag.Bool("noreplay", false, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMaxStack(2 << 30)
	t0 := time.Now()
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *budget == 0 {
		*budget = 150 * time.Second
		if tier == "thorough" {
			*budget = 12 * time.Minute
		}
	}
	code := run(*prop, *repo, *verif, tier, seed, *verbose, *only, *budget, *workers, *noReplay, t0)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func run(prop, repo, verif, tier string, seed int, verbose bool, only string, budget time.Duration, workers int, noReplay bool, t0 time.Time) int {
	overlay := map[string][]byte{}
	files, err := harnessFiles(verif, prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if tier == "thorough" {
			b = []byte(strings.Replace(string(b), "const vThorough = false", "const vThorough = true", 1))
		}
		overlay[filepath.Join(repo, "zz_verif_"+filepath.Base(f))] = b
	}
	prog, raml, sizes, err := load(repo, overlay)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	tLoad := time.Since(t0)
	e := &Engine{prog: prog, raml: raml, sizes: sizes, work: map[*Harness][]*WorkItem{}, maxSteps: 6_000_000, maxDepth: 3000, maxEnum: 40, checkModels: true,
		notes: map[string]int{}, violCount: map[string]int{}, covered: map[string]bool{}, tier: tier, seed: seed, verbose: verbose, solverBin: "z3-new", altSolver: "z3", panicsDbg: map[string]int{}}
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		e.solverBin = b
	}
	e.cond = sync.NewCond(&e.mu)
	var names []string
	for n, m := range raml.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "VH_"+prop+"_") {
			if only != "" && n != only && !strings.HasPrefix(n, "VH_"+prop+"_"+only) {
				continue
			}
			_ = f
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		h := &Harness{Name: n, Fn: raml.Func(n), Asserts: map[string]*AssertStat{}, Reach: map[string]int{}, IncReasons: map[string]int{}}
		if strings.HasSuffix(n, "_T") && tier != "thorough" {
			continue // thorough-only harness
		}
		e.harnesses = append(e.harnesses, h)
		e.work[h] = []*WorkItem{{h: h}}
	}
	if len(e.harnesses) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	e.deadline = time.Now().Add(budget)
	debug.SetMemoryLimit(10 << 30)
	go func() { // code that grows without end must not take the machine down
		for {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			e.memFull.Store(ms.HeapAlloc > 12<<30)
			time.Sleep(400 * time.Millisecond)
		}
	}()
	// build the replayer while the solver works
	var rp *Replayer
	var rpErr error
	var bw sync.WaitGroup
	bw.Add(1)
	go func() {
		defer bw.Done()
		if !noReplay {
			rp, rpErr = newReplayer(repo, overlay)
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go e.worker(i, &wg)
	}
	// wake sleepers at the deadline
	tm := time.AfterFunc(budget+time.Second, func() { e.mu.Lock(); e.stop = true; e.cond.Broadcast(); e.mu.Unlock() })
	wg.Wait()
	tm.Stop()
	for _, h := range e.harnesses {
		h.Pending = len(e.work[h])
	}
	tExplore := time.Since(t0) - tLoad
	bw.Wait()
	if rpErr != nil {
		fmt.Fprintln(os.Stderr, "replay build:", rpErr)
		return 2
	}
	if rp != nil {
		defer rp.close()
	}
	hotPrint()
	return e.report(prop, verif, rp, t0, tLoad, tExplore)
}

func harnessFiles(verif, prop string) ([]string, error) {
	dir := filepath.Join(verif, "harness")
	files := []string{filepath.Join(dir, "rt.go")}
	m, err := filepath.Glob(filepath.Join(dir, strings.ToLower(prop)+"_*.go"))
	if err != nil {
		return nil, err
	}
	if len(m) == 0 {
		return nil, fmt.Errorf("no harness files for %s", prop)
	}
	sort.Strings(m)
	for _, f := range m {
		files = append(files, f)
		// shared helpers named in a "//use: name" line
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//use: ") {
				for _, n := range strings.Fields(l[7:]) {
					x := filepath.Join(dir, n)
					dup := false
					for _, y := range files {
						dup = dup || y == x
					}
					if !dup {
						files = append(files, x)
					}
				}
			}
		}
	}
	return files, nil
}

var _ = json.Marshal
