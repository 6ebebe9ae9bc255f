package main

// Exploration: a pool of workers executing paths from a shared queue.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Worker struct {
	id   int
	ex   *Explorer
	prog *ssa.Program
	c    *Ctx
	sol  *Solver
	fns  map[*ssa.Function]*fnInfo
	meth map[methKey]*Closure
	impl map[implKey]bool

	seenFn  map[*ssa.Function]bool
	seenBlk map[*ssa.BasicBlock]bool
	steps   int64
}

type implKey struct {
	t types.Type
	i *types.Interface
}

// Program is the loaded SSA of the scratch tree.
type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	mu    sync.Mutex
	built map[*ssa.Package]bool
	rtErr types.Type
}

type Explorer struct {
	P       *Program
	prog    *ssa.Program
	intr    map[string]intrinsic
	pkgInit map[string]func(*Path, *ssa.Package)
	rtErr   types.Type
	entry   *ssa.Function
	cfg     Config

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*workItem
	active  int
	stop    bool
	stopWhy string
	late    atomic.Bool // paths still running are given up

	Paths, Completed, Assumed, Killed, StepsOut, Unsup, UnkPaths, Stale int64
	Dropped                                                             int64
	labels                                                              map[string]int64
	unknowns                                                            map[string]int
	unsup                                                               map[string]int
	reach                                                               map[string]int64
	viol                                                                []*vrec
	violSeen                                                            map[string]int
	samples                                                             []*sample
	fnSeen                                                              map[string]bool
	forkAt                                                              map[string]int
	asserts, trivial                                                    int64
	steps                                                               int64
	solTime                                                             time.Duration
	queries, hits, nsat, nunsat, nunk                                   int
	maxQ                                                                time.Duration
	slowQ                                                               string
	blkSeen                                                             map[*ssa.BasicBlock]bool
	started                                                             time.Time
	elapsed                                                             time.Duration
	stepSites                                                           map[string]int
	sampleCtr                                                           int64
	stuck                                                               []*vrec
	graceSet                                                            bool
	stuckSeen                                                           map[string]int
}

type Config struct {
	Workers  int
	MaxPaths int64
	MaxTime  time.Duration
	MaxSteps int64
	QueryMS  int
	MaxViol  int // per label
	Samples  int
	Verbose  bool
	DFS      bool
	Grace    time.Duration // how long to go on after the first candidate
}

type vrec struct {
	Label  string                 `json:"label"`
	Where  string                 `json:"where"`
	Inputs map[string]interface{} `json:"inputs"`
	Kind   string                 `json:"kind"`
	Obs    []obsOut               `json:"-"`
}

type obsOut struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type sample struct {
	Inputs map[string]interface{}
	Obs    []obsOut
	Reach  []string
}

func loadProgram(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, append([]string{"vrt/stdmodel"}, patterns...)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, ".") || strings.Contains(p.PkgPath, "zz_harness") || strings.HasPrefix(p.PkgPath, "vrt") {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		wg.Add(1)
		sem <- struct{}{}
		go func(p *ssa.Package) {
			defer wg.Done()
			defer func() { <-sem }()
			p.Build()
		}(p)
	}
	wg.Wait()
	if rt := P.pkgs["runtime"]; rt != nil {
		P.rtErr = rt.Type("Error").Type()
	}
	return P, nil
}

func NewExplorer(P *Program, entry *ssa.Function, cfg Config) *Explorer {
	ex := &Explorer{P: P, prog: P.prog, entry: entry, cfg: cfg,
		labels: map[string]int64{}, unknowns: map[string]int{}, unsup: map[string]int{}, reach: map[string]int64{},
		violSeen: map[string]int{}, fnSeen: map[string]bool{}, blkSeen: map[*ssa.BasicBlock]bool{}, stepSites: map[string]int{}, stuckSeen: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.rtErr = newRuntimeErrType()
	ex.intr = intrinsics(ex)
	ex.pkgInit = pkgInits()
	return ex
}

func (ex *Explorer) build(fn *ssa.Function) {}
func (ex *Explorer) build1(p *ssa.Package)  {}

func (ex *Explorer) stdFunc(pkg, name string) *ssa.Function {
	p := ex.P.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (ex *Explorer) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ex.P.mu.Lock()
	defer ex.P.mu.Unlock()
	return ex.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (ex *Explorer) implements(w *Worker, t types.Type, it *types.Interface) bool {
	if n, ok := t.(*nativeType); ok {
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if n.methods[m.Name()] == nil {
				return false
			}
			// The native errors unwrap to one error, not to a list.
			if m.Name() == "Unwrap" {
				if _, many := m.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice); many {
					return false
				}
			}
		}
		return true
	}
	k := implKey{t, it}
	if v, ok := w.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	w.impl[k] = v
	return v
}

func (ex *Explorer) noteFn(w *Worker, fn *ssa.Function) {
	w.seenFn[fn] = true
}

func (ex *Explorer) noteBlock(w *Worker, b *ssa.BasicBlock) {
	w.seenBlk[b] = true
}

func (ex *Explorer) noteUnknown(s string) {
	ex.mu.Lock()
	ex.unknowns[s]++
	ex.mu.Unlock()
}

// noteStale counts models that did not fit the path they were handed to.
func (ex *Explorer) noteStale() {
	ex.mu.Lock()
	ex.Stale++
	ex.mu.Unlock()
}

func (ex *Explorer) noteLabel(l string) {
	ex.mu.Lock()
	ex.labels[l]++
	ex.mu.Unlock()
}

func (ex *Explorer) push(it *workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	if ex.cfg.Verbose {
		if ex.forkAt == nil {
			ex.forkAt = map[string]int{}
		}
		ex.forkAt[it.last]++
	}
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) violation(p *Path, v *violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := v.label
	ex.violSeen[key]++
	if ex.violSeen[key] > ex.cfg.MaxViol {
		return
	}
	ex.viol = append(ex.viol, &vrec{Label: v.label, Where: v.msg, Inputs: inputs(v.nd, v.model, p.c)})
	if ex.cfg.Grace > 0 && !ex.graceSet {
		ex.graceSet = true
		time.AfterFunc(ex.cfg.Grace, func() {
			ex.mu.Lock()
			ex.halt("stopped after a candidate violation")
			ex.mu.Unlock()
		})
	}
}

func (ex *Explorer) pop() *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil
		}
		if ex.cfg.MaxPaths > 0 && atomic.LoadInt64(&ex.Paths) >= ex.cfg.MaxPaths {
			ex.halt("path limit")
			return nil
		}
		if len(ex.queue) > 0 {
			it := ex.queue[len(ex.queue)-1]
			ex.queue = ex.queue[:len(ex.queue)-1]
			ex.active++
			ex.Paths++
			return it
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) halt(why string) {
	if !ex.stop {
		ex.stop = true
		ex.stopWhy = why
		time.AfterFunc(10*time.Second, func() { ex.late.Store(true) })
	}
	ex.cond.Broadcast()
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// Run explores every path from the entry function.
func (ex *Explorer) Run() {
	ex.started = time.Now()
	ex.queue = []*workItem{{model: newModel()}}
	var wg sync.WaitGroup
	stopTimer := time.AfterFunc(ex.cfg.MaxTime, func() {
		ex.mu.Lock()
		ex.halt("time limit")
		ex.mu.Unlock()
	})
	defer stopTimer.Stop()
	for i := 0; i < ex.cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(ex, i)
			defer w.close()
			for {
				it := ex.pop()
				if it == nil {
					return
				}
				w.runItem(it)
				ex.done()
			}
		}(i)
	}
	wg.Wait()
	ex.mu.Lock()
	ex.Dropped += int64(len(ex.queue))
	ex.mu.Unlock()
	ex.elapsed = time.Since(ex.started)
}

func newWorker(ex *Explorer, i int) *Worker {
	c := NewCtx()
	return &Worker{id: i, ex: ex, prog: ex.prog, c: c, sol: NewSolver(c, ex.cfg.QueryMS),
		fns: map[*ssa.Function]*fnInfo{}, meth: map[methKey]*Closure{}, impl: map[implKey]bool{},
		seenFn: map[*ssa.Function]bool{}, seenBlk: map[*ssa.BasicBlock]bool{}}
}

func (w *Worker) close() {
	ex := w.ex
	w.flush()
	ex.mu.Lock()
	for f := range w.seenFn {
		ex.fnSeen[fnName(f)] = true
	}
	for b := range w.seenBlk {
		ex.blkSeen[b] = true
	}
	ex.mu.Unlock()
	w.sol.Close()
}

func (w *Worker) flush() {
	ex := w.ex
	s := w.sol
	ex.mu.Lock()
	ex.queries += s.Queries
	ex.hits += s.CacheHits
	ex.nsat += s.NSat
	ex.nunsat += s.NUnsat
	ex.nunk += s.NUnknown
	ex.solTime += s.Time
	if s.MaxTime > ex.maxQ {
		ex.maxQ, ex.slowQ = s.MaxTime, s.Slow
	}
	ex.mu.Unlock()
	s.Queries, s.CacheHits, s.NSat, s.NUnsat, s.NUnknown, s.Time = 0, 0, 0, 0, 0, 0
}

func (w *Worker) newPath(it *workItem) *Path {
	p := &Path{w: w, c: w.c, pcSet: map[int]bool{}, dec: append([]Decision(nil), it.dec...),
		rdMemo: map[rdKey]*Expr{}, vecRead: map[*MNode]bool{}, implCache: map[int]int8{},
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]int8{}, ndCount: map[string]int{},
		reached: map[string]bool{}, maxSteps: w.ex.cfg.MaxSteps, misc: map[string]Value{}, notes: map[string]bool{},
		abortCh: make(chan struct{})}
	p.setModel(it.model)
	main := &coro{id: 0, ch: make(chan struct{})}
	p.coros = []*coro{main}
	p.cur = main
	return p
}

// reset drops term tables that have grown too large.
func (w *Worker) reset() {
	if w.c.n > 3000000 {
		w.flush()
		w.sol.Close()
		old := w.sol
		w.c = NewCtx()
		w.sol = NewSolver(w.c, w.ex.cfg.QueryMS)
		w.sol.MaxTime = old.MaxTime
		w.sol.Slow = old.Slow
		w.fns = map[*ssa.Function]*fnInfo{}
	}
}

func (w *Worker) runItem(it *workItem) {
	w.reset()
	p := w.newPath(it)
	ex := w.ex
	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathAbort:
				kind, msg = x.kind, x.msg
			case goPanic:
				kind = "panic"
				msg = p.panicText(x.v) + " at " + x.where
			default:
				kind = "internal"
				msg = fmt.Sprintf("%v at %s", r, p.where())
				if os.Getenv("GOSYM_TRACE") != "" {
					msg += "\n" + string(debug.Stack())
				}
			}
		}()
		p.callFn(nil, ex.entry, nil, nil)
	}()
	if kind == "panic" {
		// an uncaught panic on a feasible path
		p.report("panic", msg, p.model)
	}
	p.killCoros()
	var smp *sample
	if (kind == "done" || kind == "exit") && ex.wantSample() {
		smp = &sample{Inputs: inputs(p.nd, p.model, p.c)}
		for _, o := range p.obs {
			smp.Obs = append(smp.Obs, p.evalObs(o))
		}
	}
	var stk *vrec
	if kind != "done" && kind != "exit" && kind != "assume" && kind != "panic" && kind != "killed" {
		stk = &vrec{Label: kind + ": " + msg, Inputs: inputs(p.nd, p.model, p.c)}
	}
	ex.mu.Lock()
	if stk != nil && len(ex.stuck) < 12 && ex.stuckSeen[stk.Label] < 3 {
		ex.stuckSeen[stk.Label]++
		ex.stuck = append(ex.stuck, stk)
	}
	ex.steps += p.steps
	ex.asserts += int64(p.asserts)
	ex.trivial += int64(p.trivial)
	switch kind {
	case "done", "exit", "panic":
		ex.Completed++
	case "assume":
		ex.Assumed++
	case "steps":
		ex.StepsOut++
		ex.stepSites[msg]++
	case "unknown":
		ex.UnkPaths++
	case "late":
		ex.Dropped++
	default:
		ex.Unsup++
		ex.unsup[kind+": "+msg]++
	}
	if kind == "done" || kind == "exit" {
		for l := range p.reached {
			ex.reach[l]++
		}
		if smp != nil {
			if len(ex.samples) < ex.cfg.Samples {
				ex.samples = append(ex.samples, smp)
			} else {
				ex.samples[int(ex.Completed/97)%len(ex.samples)] = smp
			}
		}
	}
	ex.mu.Unlock()
	if ex.cfg.Verbose && kind != "done" && kind != "assume" {
		fmt.Fprintf(os.Stderr, "path %d: %s %s (steps %d)\n", ex.Paths, kind, msg, p.steps)
	}
}

// wantSample thins the completed paths that are kept for native validation.
func (ex *Explorer) wantSample() bool {
	if ex.cfg.Samples == 0 {
		return false
	}
	n := atomic.AddInt64(&ex.sampleCtr, 1)
	return n <= int64(ex.cfg.Samples) || n%97 == 0
}

func (p *Path) evalObs(o obs) obsOut {
	p.c.gen++
	g := p.c.gen
	if o.s != nil {
		n := p.model.Eval(p.strLen(*o.s), g)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(p.model.Eval(p.strAtPure(*o.s, p.c.Int(int64(i))), g))
		}
		return obsOut{o.label, fmt.Sprintf("%x", b)}
	}
	v := p.model.Eval(o.e, g)
	if o.e.w == 0 {
		return obsOut{o.label, fmt.Sprint(v != 0)}
	}
	return obsOut{o.label, fmt.Sprint(sext(v, o.e.w))}
}

// strAtPure reads without solver help on a dead path.
func (p *Path) strAtPure(s Str, i *Expr) *Expr { return p.strAt(s, i) }

func (ex *Explorer) Summary() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "paths=%d completed=%d infeasible=%d stepbound=%d unsupported=%d unknown=%d dropped=%d stale=%d steps=%d queries=%d (cache %d) sat=%d unsat=%d unk=%d solver=%.1fs max=%.2fs asserts=%d trivial=%d time=%.1fs %s\n",
		ex.Paths, ex.Completed, ex.Assumed, ex.StepsOut, ex.Unsup, ex.UnkPaths, ex.Dropped, ex.Stale, ex.steps, ex.queries, ex.hits, ex.nsat, ex.nunsat, ex.nunk, ex.solTime.Seconds(), ex.maxQ.Seconds(), ex.asserts, ex.trivial, ex.elapsed.Seconds(), ex.stopWhy)
	dump := func(name string, m map[string]int) {
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, "  %s %d × %s\n", name, m[k], k)
		}
	}
	dump("fork", ex.forkAt)
	dump("unsupported", ex.unsup)
	dump("unknown", ex.unknowns)
	dump("stepbound", ex.stepSites)
	m := map[string]int{}
	for k, v := range ex.labels {
		m[k] = int(v)
	}
	dump("assert", m)
	m = map[string]int{}
	for k, v := range ex.reach {
		m[k] = int(v)
	}
	dump("reach", m)
	for _, v := range ex.viol {
		fmt.Fprintf(&sb, "  CANDIDATE %s at %s inputs %v\n", v.Label, v.Where, v.Inputs)
	}
	return sb.String()
}
