package main

// One path of the symbolic execution: decisions, path condition, nondeterminism.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded branch: the direction, or the concretised value.
type Decision struct {
	dir  bool
	val  uint64 // concretisation candidate
	site ssa.Instruction
}

type workItem struct {
	dec   []Decision
	model *Model
	depth int
	last  string // site of the last branch (diagnostics)
}

// abort kinds
type pathAbort struct {
	kind string // "assume", "done", "steps", "unsupported", "unknown", "violation", "killed"
	msg  string
}

type violation struct {
	label string
	msg   string
	model *Model
	item  []Decision
	trace []string
	// nondet values in order of creation
	nd []ndRec
}

type ndRec struct {
	name  string
	kind  string // int, bytes
	e     *Expr
	n     *Expr // length of byte source
	bound int64
}

type obs struct {
	label string
	e     *Expr
	s     *Str
}

type Path struct {
	w  *Worker
	c  *Ctx
	pc []*Expr
	// pcSet holds asserted literal ids for fast implication
	pcSet map[int]bool
	dec   []Decision
	pos   int
	model *Model
	gen   int

	memID, nodeID int
	rdMemo        map[rdKey]*Expr
	vecRead       map[*MNode]bool
	implCache     map[int]int8

	globals   map[*ssa.Global]*Cell
	inited    map[*ssa.Package]int8
	initing   int // package initialisers running
	ndCount   map[string]int
	nd        []ndRec
	obs       []obs
	reached   map[string]bool
	steps     int64
	maxSteps  int64
	deadline  time.Time
	forks     int
	prefixOK  bool
	asserts   int // discharged by the solver
	trivial   int // discharged by simplification
	imprecise bool

	cur      *coro
	coros    []*coro
	coIDs    int
	dead     bool
	abortVal interface{}
	abortCh  chan struct{}

	mapID        int
	curFn        *ssa.Function
	stack        []*frame
	sha          []shaRec
	misc         map[string]Value
	notes        map[string]bool
	concreteOnly bool
}

func (p *Path) abort(kind, msg string) {
	panic(pathAbort{kind, msg})
}

func (p *Path) site() ssa.Instruction {
	if p.cur != nil && p.cur.top != nil {
		return p.cur.top.instr
	}
	return nil
}

// next consumes a recorded decision.
func (p *Path) next() Decision {
	d := p.dec[p.pos]
	p.pos++
	if d.site != p.site() {
		p.abort("nondet", "re-execution diverged at "+p.where())
	}
	return d
}

func (p *Path) where() string {
	if p.cur == nil {
		return ""
	}
	var parts []string
	n := 0
	for f := p.cur.top; f != nil && n < 6; f = f.caller {
		pos := ""
		if f.instr != nil {
			ps := p.w.prog.Fset.Position(f.instr.Pos())
			if ps.IsValid() {
				pos = fmt.Sprintf(":%d", ps.Line)
			}
		}
		parts = append(parts, f.fn.String()+pos)
		n++
	}
	return strings.Join(parts, " < ")
}

func (p *Path) eval(e *Expr) uint64 { return p.model.Eval(e, p.gen) }

func (p *Path) setModel(m *Model) {
	p.model = m
	p.c.gen++
	p.gen = p.c.gen
}

func (p *Path) addPC(e *Expr) {
	if e.isTrue() {
		return
	}
	if e.op == OAnd {
		p.addPC(e.a)
		p.addPC(e.b)
		return
	}
	if p.pcSet[e.id] {
		return
	}
	p.pc = append(p.pc, e)
	p.pcSet[e.id] = true
}

// implied reports whether e is known to hold on the path (no solver fork; uses the
// model first, then one query; answers are cached and stay valid as the path
// condition only grows).
func (p *Path) implied(e *Expr) bool {
	if e.isConst() {
		return e.isTrue()
	}
	if p.pcSet[e.id] {
		return true
	}
	if v, ok := p.implCache[e.id]; ok && v == 1 {
		return true
	}
	// While re-executing a prefix the model (that of the end of the prefix) still
	// satisfies the path condition so far, so a false value disproves implication.
	if p.eval(e) == 0 {
		return false
	}
	r, _ := p.ask(p.pc, p.c.Not(e), p.model)
	if r == Unsat {
		p.implCache[e.id] = 1
		return true
	}
	return false
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) branch(cond *Expr) bool {
	if cond.isConst() {
		return cond.isTrue()
	}
	if p.pcSet[cond.id] {
		return true
	}
	nc := p.c.Not(cond)
	if p.pcSet[nc.id] {
		return false
	}
	if p.pos < len(p.dec) {
		d := p.next().dir
		if d {
			p.addPC(cond)
		} else {
			p.addPC(nc)
		}
		return d
	}
	p.endPrefix()
	d := p.eval(cond) != 0
	var other, this *Expr = nc, cond
	if !d {
		other, this = cond, nc
	}
	if p.concreteOnly {
		p.dec = append(p.dec, Decision{dir: d, site: p.site()})
		p.pos++
		p.addPC(this)
		return d
	}
	r, m := p.ask(p.pc, other, p.model)
	switch r {
	case Sat:
		p.fork(Decision{dir: !d, site: p.site()}, m)
	case Unknown:
		p.w.ex.noteUnknown(p.where())
	}
	p.dec = append(p.dec, Decision{dir: d, site: p.site()})
	p.pos++
	p.addPC(this)
	return d
}

func (p *Path) fork(d Decision, m *Model) {
	dec := make([]Decision, len(p.dec)+1)
	copy(dec, p.dec)
	dec[len(p.dec)] = d
	p.forks++
	p.w.ex.push(&workItem{dec: dec, model: m, last: p.where()})
}

// concretize picks a value for e, forking over the feasible ones.
func (p *Path) concretize(e *Expr) uint64 {
	for n := 0; ; n++ {
		if e.isConst() {
			return e.val
		}
		if v, ok := p.fixed(e); ok {
			return v
		}
		if n > 4096 {
			p.abort("steps", "too many values in concretisation at "+p.where())
		}
		if p.pos < len(p.dec) {
			d := p.next()
			eq := p.c.Eq(e, p.c.Const(d.val, e.w))
			if d.dir {
				p.addPC(eq)
				return d.val
			}
			p.addPC(p.c.Not(eq))
			continue
		}
		p.endPrefix()
		v := p.eval(e)
		eq := p.c.Eq(e, p.c.Const(v, e.w))
		if eq.isTrue() {
			return v
		}
		if !p.concreteOnly {
			r, m := p.ask(p.pc, p.c.Not(eq), p.model)
			switch r {
			case Sat:
				p.fork(Decision{dir: false, val: v, site: p.site()}, m)
			case Unknown:
				p.w.ex.noteUnknown(p.where())
			}
		}
		p.dec = append(p.dec, Decision{dir: true, val: v, site: p.site()})
		p.pos++
		p.addPC(eq)
		return v
	}
}

// fixed reports a value the path condition states literally.
func (p *Path) fixed(e *Expr) (uint64, bool) {
	for _, c := range p.pc {
		if c.op == OEq && c.a == e && c.b.isConst() {
			return c.b.val, true
		}
		if c.op == OEq && c.b == e && c.a.isConst() {
			return c.a.val, true
		}
	}
	return 0, false
}

func (p *Path) assume(cond *Expr) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		p.abort("assume", "")
	}
	if p.pos < len(p.dec) { // prefix: the model satisfies everything up to its end
		p.addPC(cond)
		if p.eval(cond) == 0 {
			// the stored model was found before this assumption was reached
			p.repair(cond)
		}
		return
	}
	p.endPrefix()
	if p.eval(cond) == 0 {
		p.repair(cond)
	}
	p.addPC(cond)
}

// endPrefix makes sure, when the recorded prefix has been re-executed, that the model
// handed over with it satisfies the path condition.
func (p *Path) endPrefix() {
	if p.prefixOK {
		return
	}
	p.prefixOK = true
	for _, e := range p.pc {
		if p.eval(e) == 0 {
			p.w.ex.noteStale()
			p.repair(p.c.Bool(true))
			return
		}
	}
}

// repair finds a model of pc ∧ cond, or ends the path.
func (p *Path) repair(cond *Expr) {
	r, m := p.ask(p.pc, cond, p.model)
	switch r {
	case Unsat:
		p.abort("assume", "")
	case Unknown:
		p.w.ex.noteUnknown("assume " + p.where())
		p.abort("unknown", "assume")
	}
	p.setModel(m)
}

// check asserts cond.
func (p *Path) check(cond *Expr, label string) {
	p.w.ex.noteLabel(label)
	if cond.isTrue() {
		p.trivial++
		return
	}
	if p.pos < len(p.dec) {
		// already examined by the path this one was forked from
		p.addPC(cond)
		return
	}
	p.endPrefix()
	r, m := p.ask(p.pc, p.c.Not(cond), p.model)
	switch r {
	case Unsat:
		p.asserts++
		p.addPC(cond) // implied; helps simplification
	case Unknown:
		p.w.ex.noteUnknown("assert " + label)
		p.assume(cond)
	case Sat:
		p.report(label, p.where(), m)
		p.assume(cond)
	}
}

func (p *Path) report(label, msg string, m *Model) {
	v := &violation{label: label, msg: msg, model: m, item: append([]Decision(nil), p.dec...), nd: append([]ndRec(nil), p.nd...)}
	p.w.ex.violation(p, v)
}

// fresh nondeterministic values

func (p *Path) ndName(name string) string {
	k := p.ndCount[name]
	p.ndCount[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (p *Path) ndInt(name string, w uint8, lo, hi int64) *Expr {
	nm := p.ndName(name)
	if lo == hi && w > 0 {
		return p.c.Const(uint64(lo), w)
	}
	var e *Expr
	if w == 0 {
		e = p.c.Var(nm, 0, 0, 0)
	} else {
		e = p.c.Var(nm, w, lo, hi)
	}
	p.nd = append(p.nd, ndRec{name: nm, kind: "int", e: e})
	return e
}

func (p *Path) ndBytes(name string, n *Expr, bound int64) SliceV {
	nm := p.ndName(name)
	m := p.newMem(8, p.node(MNode{k: nSym, name: nm}))
	p.nd = append(p.nd, ndRec{name: nm, kind: "bytes", n: n, bound: bound})
	return SliceV{m: m, off: p.c.Int(0), len: n, cap: n}
}

// inputs renders the nondeterministic values of a model for replay.
func inputs(nd []ndRec, m *Model, c *Ctx) map[string]interface{} {
	out := map[string]interface{}{}
	c.gen++
	g := c.gen
	for _, r := range nd {
		switch r.kind {
		case "int":
			v := m.Eval(r.e, g)
			if r.e.w > 0 {
				out[r.name] = sext(v, r.e.w)
			} else {
				out[r.name] = int64(v)
			}
		case "bytes":
			n := int64(m.Eval(r.n, g))
			if n > 1<<20 {
				n = 1 << 20
			}
			b := make([]int, 0, 64)
			rd := m.reads[r.name]
			idx := make([]int, 0, len(rd))
			for i, v := range rd {
				if int64(i) < n && v != 0 {
					idx = append(idx, int(i))
				}
			}
			sort.Ints(idx)
			for _, i := range idx {
				b = append(b, i, int(rd[uint64(i)]))
			}
			out[r.name] = b // index, value pairs; everything else 0
		}
	}
	return out
}

// ask asks the solver, unless the time of the run is up.
func (p *Path) ask(pc []*Expr, cond *Expr, base *Model) (Result, *Model) {
	p.lateCheck()
	return p.w.sol.Check(pc, cond, base)
}

// lateCheck gives the path up when the run has ended without it.
func (p *Path) lateCheck() {
	if p.w.ex.late.Load() {
		panic(pathAbort{kind: "late", msg: "not finished in time"})
	}
}
