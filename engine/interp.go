package main

// SSA interpreter over symbolic values.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opk uint8

const (
	oReg opk = iota
	oConst
	oGlobal
	oNone
)

type opnd struct {
	k opk
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   [][]cinstr
	params   int
	in       intrinsic
	hasDefer bool
}

type frame struct {
	fi        *fnInfo
	fn        *ssa.Function
	caller    *frame
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	instr     ssa.Instruction
	panicking bool
	pan       interface{}
	locals    []*Cell
}

type deferred struct {
	fn   Value
	args []Value
}

// goPanic is a Go-level panic travelling through interpreted frames.
type goPanic struct {
	v     Value // Iface
	where string
}

type intrinsic func(p *Path, call *frame, args []Value) Value

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn}
	w.fns[fn] = fi
	if in, ok := w.ex.intr[fnName(fn)]; ok {
		fi.in = in
		return fi
	}
	if fn.Blocks == nil {
		w.ex.build(fn)
	}
	idx := map[ssa.Value]int{}
	n := 0
	for _, pa := range fn.Params {
		idx[pa] = n
		n++
	}
	fi.params = n
	for _, fv := range fn.FreeVars {
		idx[fv] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	conv := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: oNone}
		case *ssa.Const:
			return opnd{k: oConst, v: w.constVal(x)}
		case *ssa.Global:
			return opnd{k: oGlobal, g: x}
		case *ssa.Function:
			return opnd{k: oConst, v: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{k: oConst, v: &Closure{bi: x}}
		}
		i, ok := idx[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return opnd{k: oReg, i: i}
	}
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			if phi, ok := in.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					ci.ops = append(ci.ops, conv(e))
				}
			} else if _, ok := in.(*ssa.DebugRef); ok {
				continue
			} else {
				var rands [8]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					ci.ops = append(ci.ops, conv(*r))
				}
			}
			cs = append(cs, ci)
		}
		fi.blocks[bi] = cs
	}
	return fi
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		return fn.Origin().String()
	}
	return fn.String()
}

func (w *Worker) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
		}
		return constZero{t}
	}
	if wd, ok := scalarWidth(t); ok {
		if wd == 0 {
			return w.c.Bool(constant.BoolVal(k.Value))
		}
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return w.c.Const(uint64(i), wd)
		}
		u, _ := constant.Uint64Val(v)
		return w.c.Const(u, wd)
	}
	if isString(t) {
		if k.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(k.Value)
			return Str{c: string(rune(i))}
		}
		return Str{c: constant.StringVal(k.Value)}
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(k.Value)
		return f
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	}
	panic("const " + k.String())
}

// constZero is the zero value of a type, made per use.
type constZero struct{ t types.Type }

func (p *Path) get(fr *frame, o *opnd) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		if z, ok := o.v.(constZero); ok {
			return p.zero(z.t)
		}
		return o.v
	case oGlobal:
		return p.global(o.g)
	}
	return nil
}

func (p *Path) global(g *ssa.Global) *Cell {
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := &Cell{v: p.zero(g.Type().(*types.Pointer).Elem())}
	p.globals[g] = c
	if g.Pkg != nil {
		p.initPkg(g.Pkg)
	}
	return c
}

// initPkg runs the package's initialiser on the first use of one of its variables.
func (p *Path) initPkg(pkg *ssa.Package) {
	if p.inited[pkg] != 0 {
		return
	}
	p.inited[pkg] = 1
	if in, ok := p.w.ex.pkgInit[pkg.Pkg.Path()]; ok {
		if in != nil {
			in(p, pkg)
		}
		return
	}
	p.w.ex.build1(pkg)
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	p.initing++
	p.callFn(nil, fn, nil, nil)
	p.initing--
}

func (p *Path) unsupported(format string, a ...interface{}) {
	p.abort("unsupported", fmt.Sprintf(format, a...)+" at "+p.where())
}

func (p *Path) call(caller *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *Closure:
		if f.in != nil {
			return f.in(p, caller, args)
		}
		if f.bi != nil {
			p.unsupported("builtin value")
		}
		return p.callFn(caller, f.fn, args, f.env)
	case Nil:
		p.gopanicRT("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("call of %T", fv))
}

func (p *Path) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := p.w.info(fn)
	if fi.in != nil {
		return fi.in(p, caller, args)
	}
	if fn.Blocks == nil {
		p.unsupported("no body: %s", fnName(fn))
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Parent() == nil && caller != nil && fn.Pkg != caller.fn.Pkg {
		return nil // imports initialise themselves on first use
	}
	p.w.ex.noteFn(p.w, fn)
	fr := &frame{fi: fi, fn: fn, caller: p.cur.top, regs: make([]Value, fi.nregs)}
	copy(fr.regs, args)
	for i, e := range env {
		fr.regs[fi.params+i] = e
	}
	fr.block = fn.Blocks[0]
	p.cur.top = fr
	p.cur.depth++
	if p.cur.depth > 2000 {
		p.abort("steps", "recursion")
	}
	for fr.block != nil {
		p.runFrame(fr)
	}
	p.cur.top = fr.caller
	p.cur.depth--
	return fr.result
}

func (p *Path) runFrame(fr *frame) {
	if fr.fi.hasDefer {
		p.runFrameDefer(fr)
		return
	}
	p.runBlocks(fr)
}

func (p *Path) runFrameDefer(fr *frame) {
	depth := p.cur.depth
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		gp, ok := r.(goPanic)
		if !ok {
			panic(r)
		}
		p.cur.top = fr
		p.cur.depth = depth
		fr.panicking = true
		fr.pan = gp
		p.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered without named results
			fr.result = p.zeroResult(fr.fn)
		}
	}()
	p.runBlocks(fr)
}

func (p *Path) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(rs.At(0).Type())
	}
	return p.zero(rs)
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		p.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.pan)
	}
}

func (p *Path) runDefer(fr *frame, d deferred) {
	ok := false
	depth := p.cur.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		gp, is := r.(goPanic)
		if !is {
			panic(r)
		}
		p.cur.top = fr
		p.cur.depth = depth
		fr.panicking = true
		fr.pan = gp
	}()
	if c, is := d.fn.(*Closure); is && c.bi != nil {
		p.builtin(fr, c.bi, d.args, nil)
	} else {
		p.call(fr, d.fn, d.args)
	}
	ok = true
}

func (p *Path) gopanicRT(msg string) {
	panic(goPanic{Iface{p.w.ex.rtErr, Str{c: "runtime error: " + msg}}, p.where()})
}

func (p *Path) gopanicMsg(v Value) {
	panic(goPanic{v, p.where()})
}

func (p *Path) runBlocks(fr *frame) {
	for fr.block != nil {
		blk := fr.block
		code := fr.fi.blocks[blk.Index]
		p.w.ex.noteBlock(p.w, blk)
		i := 0
		// phis read simultaneously
		if len(code) > 0 {
			if _, ok := code[0].in.(*ssa.Phi); ok {
				pi := 0
				for k, b := range blk.Preds {
					if b == fr.prev {
						pi = k
						break
					}
				}
				var tmp [16]Value
				vals := tmp[:0]
				for i < len(code) {
					if _, ok := code[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, p.get(fr, &code[i].ops[pi]))
					i++
				}
				for k, v := range vals {
					fr.regs[code[k].dst] = v
				}
			}
		}
		p.steps += int64(len(code))
		if p.steps > p.maxSteps {
			p.abort("steps", "step bound at "+p.where())
		}
		if p.dead {
			panic(pathAbort{"killed", ""})
		}
		p.lateCheck()
		next := false
		for ; i < len(code) && !next; i++ {
			ci := &code[i]
			fr.instr = ci.in
			next = p.exec(fr, ci)
		}
		if !next && fr.block == blk {
			panic("fell off block in " + fr.fn.String())
		}
	}
}

func (p *Path) jump(fr *frame, to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
}

// exec runs one instruction and reports a change of block.
func (p *Path) exec(fr *frame, ci *cinstr) bool {
	c := p.c
	op := func(i int) Value { return p.get(fr, &ci.ops[i]) }
	switch in := ci.in.(type) {
	case *ssa.If:
		if p.branch(op(0).(*Expr)) {
			p.jump(fr, fr.block.Succs[0])
		} else {
			p.jump(fr, fr.block.Succs[1])
		}
		return true
	case *ssa.Jump:
		p.jump(fr, fr.block.Succs[0])
		return true
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = op(0)
		default:
			t := make(Tuple, len(ci.ops))
			for i := range t {
				t[i] = op(i)
			}
			fr.result = t
		}
		fr.block = nil
		return true
	case *ssa.BinOp:
		fr.regs[ci.dst] = p.binop(in.Op, in.X.Type(), op(0), op(1), in.Y.Type())
	case *ssa.UnOp:
		fr.regs[ci.dst] = p.unop(in, op(0))
	case *ssa.Call:
		fr.regs[ci.dst] = p.doCall(fr, ci, &in.Call)
	case *ssa.Store:
		p.store(op(0), op(1))
	case *ssa.FieldAddr:
		x := op(0)
		cl, ok := x.(*Cell)
		if !ok {
			if _, n := x.(Nil); n {
				p.gopanicRT("invalid memory address or nil pointer dereference")
			}
			p.unsupported("field of %T", x)
		}
		s, ok := cl.v.(*Struct)
		if !ok {
			p.unsupported("field of %T", cl.v)
		}
		fr.regs[ci.dst] = &s.f[in.Field]
	case *ssa.Field:
		fr.regs[ci.dst] = op(0).(*Struct).f[in.Field].v
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = p.indexAddr(op(0), p.toInt(op(1), in.Index.Type()))
	case *ssa.Index:
		fr.regs[ci.dst] = p.index(op(0), p.toInt(op(1), in.Index.Type()))
	case *ssa.Alloc:
		cl := &Cell{v: p.zero(in.Type().(*types.Pointer).Elem())}
		fr.regs[ci.dst] = cl
	case *ssa.Phi:
		panic("phi")
	case *ssa.Extract:
		fr.regs[ci.dst] = op(0).(Tuple)[in.Index]
	case *ssa.Slice:
		var lo, hi, mx *Expr
		if in.Low != nil {
			lo = p.toInt(fr.opv(p, ci, in.Low), in.Low.Type())
		}
		if in.High != nil {
			hi = p.toInt(fr.opv(p, ci, in.High), in.High.Type())
		}
		if in.Max != nil {
			mx = p.toInt(fr.opv(p, ci, in.Max), in.Max.Type())
		}
		fr.regs[ci.dst] = p.slice(op(0), lo, hi, mx)
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{in.X.Type(), p.copyVal(op(0))}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = op(0)
	case *ssa.ChangeType:
		fr.regs[ci.dst] = op(0)
	case *ssa.Convert:
		fr.regs[ci.dst] = p.convert(op(0), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = p.convert(op(0), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = p.typeAssert(in, op(0).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i := range env {
			env[i] = op(i + 1)
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeSlice:
		fr.regs[ci.dst] = p.makeSlice(in.Type(), p.toInt(op(0), in.Len.Type()), p.toInt(op(1), in.Cap.Type()))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = p.newMap()
	case *ssa.MapUpdate:
		m, ok := op(0).(*MapV)
		if !ok {
			p.gopanicMsg(Iface{p.w.ex.rtErr, Str{c: "assignment to entry in nil map"}})
		}
		p.mapSet(m, op(1), op(2))
	case *ssa.Lookup:
		fr.regs[ci.dst] = p.lookup(in, op(0), op(1))
	case *ssa.Range:
		switch x := op(0).(type) {
		case *MapV:
			fr.regs[ci.dst] = &Iter{m: x}
		case Nil:
			fr.regs[ci.dst] = &Iter{m: &MapV{}}
		case Str:
			fr.regs[ci.dst] = &Iter{s: &x, off: c.Int(0)}
		default:
			p.unsupported("range %T", x)
		}
	case *ssa.Next:
		fr.regs[ci.dst] = p.iterNext(in, op(0).(*Iter))
	case *ssa.Defer:
		fn, args := p.prepCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.RunDefers:
		p.runDefers(fr)
	case *ssa.Panic:
		v := op(0).(Iface)
		if v.t == nil {
			p.gopanicRT("panic called with nil argument")
		}
		panic(goPanic{v, p.where()})
	case *ssa.SliceToArrayPointer:
		p.sliceToArr(fr, ci, in)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		p.unsupported("%T", in)
	default:
		p.unsupported("instr %T", in)
	}
	return false
}

// opv finds the operand for an optional field.
func (fr *frame) opv(p *Path, ci *cinstr, v ssa.Value) Value {
	var rands [8]*ssa.Value
	for i, r := range ci.in.Operands(rands[:0]) {
		if *r == v {
			return p.get(fr, &ci.ops[i])
		}
	}
	panic("operand")
}

func (p *Path) toInt(v Value, t types.Type) *Expr {
	e := v.(*Expr)
	if e.w == 64 {
		return e
	}
	if isSigned(t) {
		return p.c.SExt(e, 64)
	}
	return p.c.ZExt(e, 64)
}

func (p *Path) prepCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (Value, []Value) {
	if cc.IsInvoke() {
		recv := p.get(fr, &ci.ops[0]).(Iface)
		if recv.t == nil {
			p.gopanicRT("invalid memory address or nil pointer dereference")
		}
		fn := p.method(recv.t, cc.Method)
		args := make([]Value, len(ci.ops))
		args[0] = p.copyVal(recv.v)
		for i := 1; i < len(ci.ops); i++ {
			args[i] = p.copyVal(p.get(fr, &ci.ops[i]))
		}
		return fn, args
	}
	fv := p.get(fr, &ci.ops[0])
	args := make([]Value, len(ci.ops)-1)
	for i := range args {
		args[i] = p.get(fr, &ci.ops[i+1])
		switch args[i].(type) {
		case *Struct, *Mem, *ArrV:
			args[i] = p.copyVal(args[i])
		}
	}
	return fv, args
}

func (p *Path) doCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) Value {
	fv, args := p.prepCall(fr, ci, cc)
	if cl, ok := fv.(*Closure); ok {
		if cl.bi != nil {
			return p.builtin(fr, cl.bi, args, cc)
		}
	}
	return p.call(fr, fv, args)
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Path) method(t types.Type, m *types.Func) Value {
	if nm, ok := t.(*nativeType); ok {
		if in, ok := nm.methods[m.Name()]; ok {
			return &Closure{in: in}
		}
		p.unsupported("native method %s", m.Name())
	}
	k := methKey{t, m}
	if f, ok := p.w.meth[k]; ok {
		return f
	}
	fn := p.w.ex.lookupMethod(t, m)
	if fn == nil {
		p.unsupported("method %s of %s", m.Name(), t)
	}
	f := &Closure{fn: fn}
	p.w.meth[k] = f
	return f
}

// nativeType is a pseudo type for values made by intrinsics.
type nativeType struct {
	name    string
	methods map[string]intrinsic
	impl    types.Type
}

func (n *nativeType) Underlying() types.Type { return n }
func (n *nativeType) String() string         { return n.name }

// ---- loads and stores ----

func (p *Path) load(ptr Value, t types.Type) Value {
	switch x := ptr.(type) {
	case *Cell:
		switch v := x.v.(type) {
		case *Expr:
			return p.reinterpret(v, t)
		case *Struct, *Mem, *ArrV:
			return p.reinterpret(p.copyVal(v), t)
		default:
			return p.reinterpret(v, t)
		}
	case *ElemPtr:
		if x.arr >= 0 {
			m := p.newMem(x.m.w, zeroNode)
			if x.arr <= 64 {
				v := make([]*Expr, x.arr)
				z := p.c.Const(0, m.w)
				for i := range v {
					v[i] = z
				}
				m.head = p.vecNode(v)
			}
			m.n = x.arr
			p.copyRange(m, p.c.Int(0), x.m.share(), x.idx, p.c.Int(x.arr))
			return m
		}
		if w, ok := scalarWidth(t); ok && w != x.m.w {
			return p.loadCast(x.m, x.idx, w)
		}
		return p.read(x.m, x.idx)
	case *CastPtr:
		return p.loadCast(x.m, x.idx, x.w)
	case Nil:
		p.gopanicRT("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("load from %T", ptr))
}

// reinterpret supports the usual unsafe views: slice header as string and back.
func (p *Path) reinterpret(v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := v.(SliceV); ok {
				if s.m == nil {
					return Str{}
				}
				return Str{m: s.m, off: s.off, n: s.len}
			}
		}
		if m, ok := v.(*Mem); ok { // *(*uint32)(&[4]byte)
			if w, ok := scalarWidth(t); ok {
				return p.loadCast(m, p.c.Int(0), w)
			}
		}
		if e, ok := v.(*Expr); ok {
			if w, ok := scalarWidth(t); ok && w != e.w {
				p.unsupported("cast load %d as %d", e.w, w)
			}
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			return p.strToSliceView(s)
		}
	}
	return v
}

func (p *Path) strToSliceView(s Str) SliceV {
	if s.m == nil {
		n := p.c.Int(int64(len(s.c)))
		return SliceV{m: p.newMem(8, p.node(MNode{k: nStr, str: s.c})), off: p.c.Int(0), len: n, cap: n}
	}
	return SliceV{m: s.m, off: s.off, len: s.n, cap: s.n}
}

func (p *Path) loadCast(m *Mem, idx *Expr, w uint8) *Expr {
	if m.w == w {
		return p.read(m, idx)
	}
	if m.w != 8 || w < 8 {
		p.unsupported("cast load %d from %d", w, m.w)
	}
	r := p.read(m, idx)
	for i := 1; i < int(w/8); i++ {
		r = p.c.Concat(p.read(m, p.c.Add(idx, p.c.Int(int64(i)))), r)
	}
	return r
}

func (p *Path) store(ptr, v Value) {
	switch x := ptr.(type) {
	case *Cell:
		if m, ok := x.v.(*Mem); ok {
			if e, ok := v.(*Expr); ok {
				p.storeCast(m, p.c.Int(0), e)
				return
			}
		}
		p.storeCell(x, v)
		return
	case *ElemPtr:
		if x.arr >= 0 {
			src := v.(*Mem)
			p.copyRange(x.m, x.idx, src.share(), p.c.Int(0), p.c.Int(x.arr))
			return
		}
		e, ok := v.(*Expr)
		if !ok {
			p.unsupported("store %T to scalar memory", v)
		}
		p.storeCast(x.m, x.idx, e)
		return
	case *CastPtr:
		p.storeCast(x.m, x.idx, v.(*Expr))
		return
	case Nil:
		p.gopanicRT("invalid memory address or nil pointer dereference")
	}
	panic(fmt.Sprintf("store to %T", ptr))
}

func (p *Path) storeCast(m *Mem, idx, e *Expr) {
	if m.w == e.w {
		p.write(m, idx, e)
		return
	}
	if m.w != 8 {
		p.unsupported("cast store")
	}
	for i := 0; i < int(e.w/8); i++ {
		p.write(m, p.c.Add(idx, p.c.Int(int64(i))), p.c.Extract(e, uint8(8*i), 8))
	}
}

func (p *Path) inBounds(idx, n *Expr, msg string) {
	c := p.c
	ok := c.And(c.Sle(c.Int(0), idx), c.Slt(idx, n))
	if !p.branch(ok) {
		p.gopanicRT(msg)
	}
}

func (p *Path) indexAddr(x Value, idx *Expr) Value {
	switch v := x.(type) {
	case SliceV:
		p.inBounds(idx, v.len, "index out of range")
		if v.m != nil {
			return &ElemPtr{v.m, p.c.Add(v.off, idx), -1}
		}
		i := p.concretize(p.c.Add(v.off, idx))
		return p.cell(v.a, int(i))
	case *Cell:
		switch a := v.v.(type) {
		case *Mem:
			n := p.memLen(a)
			if n >= 0 {
				p.inBounds(idx, p.c.Int(n), "index out of range")
			}
			return &ElemPtr{a, idx, -1}
		case *ArrV:
			p.inBounds(idx, p.c.Int(int64(len(a.e))), "index out of range")
			return p.cell(a, int(p.concretize(idx)))
		}
	case *ElemPtr:
		if v.arr >= 0 {
			p.inBounds(idx, p.c.Int(v.arr), "index out of range")
			return &ElemPtr{v.m, p.c.Add(v.idx, idx), -1}
		}
	case Nil:
		p.gopanicRT("invalid memory address or nil pointer dereference")
	}
	p.unsupported("indexaddr %T", x)
	return nil
}

// memLen is the length of a fixed array, if recorded (vectors only).
func (p *Path) memLen(m *Mem) int64 {
	return m.n
}

func (p *Path) index(x Value, idx *Expr) Value {
	switch v := x.(type) {
	case *Mem:
		if n := p.memLen(v); n >= 0 {
			p.inBounds(idx, p.c.Int(n), "index out of range")
		}
		return p.read(v, idx)
	case *ArrV:
		p.inBounds(idx, p.c.Int(int64(len(v.e))), "index out of range")
		return p.copyVal(p.cell(v, int(p.concretize(idx))).v)
	case Str:
		p.inBounds(idx, p.strLen(v), "index out of range")
		return p.strAt(v, idx)
	}
	p.unsupported("index %T", x)
	return nil
}

func (p *Path) slice(x Value, lo, hi, mx *Expr) Value {
	c := p.c
	if lo == nil {
		lo = c.Int(0)
	}
	oob := func(cond *Expr) {
		if !p.branch(cond) {
			p.gopanicRT("slice bounds out of range")
		}
	}
	switch v := x.(type) {
	case Str:
		n := p.strLen(v)
		if hi == nil {
			hi = n
		}
		oob(c.And(c.Sle(c.Int(0), lo), c.And(c.Sle(lo, hi), c.Sle(hi, n))))
		return p.substr(v, lo, hi)
	case SliceV:
		if hi == nil {
			hi = v.len
		}
		lim := v.cap
		cp := v.cap
		if mx != nil {
			oob(c.And(c.Sle(c.Int(0), mx), c.Sle(mx, v.cap)))
			lim, cp = mx, mx
		}
		oob(c.And(c.Sle(c.Int(0), lo), c.And(c.Sle(lo, hi), c.Sle(hi, lim))))
		if v.m == nil && v.a == nil {
			return v
		}
		return SliceV{m: v.m, a: v.a, off: c.Add(v.off, lo), len: c.Sub(hi, lo), cap: c.Sub(cp, lo)}
	case *Cell:
		var n int64
		r := SliceV{off: lo}
		switch a := v.v.(type) {
		case *Mem:
			n = p.memLen(a)
			if n < 0 {
				n = p.arrLen(p.cur.top.instr)
			}
			r.m = a
		case *ArrV:
			n = int64(len(a.e))
			r.a = a
		default:
			p.unsupported("slice of *%T", v.v)
		}
		if hi == nil {
			hi = c.Int(n)
		}
		lim := c.Int(n)
		if mx != nil {
			oob(c.And(c.Sle(c.Int(0), mx), c.Sle(mx, lim)))
			lim = mx
		}
		oob(c.And(c.Sle(c.Int(0), lo), c.And(c.Sle(lo, hi), c.Sle(hi, lim))))
		r.len = c.Sub(hi, lo)
		r.cap = c.Sub(lim, lo)
		return r
	case *ElemPtr:
		if v.arr >= 0 {
			if hi == nil {
				hi = c.Int(v.arr)
			}
			oob(c.And(c.Sle(c.Int(0), lo), c.And(c.Sle(lo, hi), c.Sle(hi, c.Int(v.arr)))))
			return SliceV{m: v.m, off: c.Add(v.idx, lo), len: c.Sub(hi, lo), cap: c.Sub(c.Int(v.arr), lo)}
		}
	case Nil:
		p.gopanicRT("invalid memory address or nil pointer dereference")
	}
	p.unsupported("slice of %T", x)
	return nil
}

// arrLen finds the length of the array the slice instruction works on.
func (p *Path) arrLen(in ssa.Instruction) int64 {
	if s, ok := in.(*ssa.Slice); ok {
		if pt, ok := s.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				return a.Len()
			}
		}
	}
	p.unsupported("array length")
	return 0
}

func (p *Path) sliceToArr(fr *frame, ci *cinstr, in *ssa.SliceToArrayPointer) {
	s := p.get(fr, &ci.ops[0]).(SliceV)
	n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	if !p.branch(p.c.Sle(p.c.Int(n), s.len)) {
		p.gopanicRT("cannot convert slice to array pointer")
	}
	if s.m == nil {
		p.unsupported("slice to array pointer")
	}
	fr.regs[ci.dst] = &ElemPtr{s.m, s.off, n}
}

func (p *Path) makeSlice(t types.Type, n, cp *Expr) Value {
	c := p.c
	et := t.Underlying().(*types.Slice).Elem()
	if !p.branch(c.And(c.Sle(c.Int(0), n), c.Sle(n, c.Int(1<<40)))) {
		p.gopanicRT("makeslice: len out of range")
	}
	if !p.branch(c.And(c.Sle(n, cp), c.Sle(cp, c.Int(1<<40)))) {
		p.gopanicRT("makeslice: cap out of range")
	}
	if w, ok := scalarWidth(et); ok {
		if cp.isConst() && cp.val <= 64 {
			v := make([]*Expr, cp.val)
			z := c.Const(0, w)
			for i := range v {
				v[i] = z
			}
			return SliceV{m: p.newMem(w, p.vecNode(v)), off: c.Int(0), len: n, cap: cp}
		}
		return SliceV{m: p.newMem(w, zeroNode), off: c.Int(0), len: n, cap: cp}
	}
	k := p.concretize(cp)
	if k > 1<<20 {
		p.unsupported("large slice")
	}
	return SliceV{a: &ArrV{e: make([]Cell, k), et: et}, off: c.Int(0), len: n, cap: c.Int(int64(k))}
}

// ---- strings ----

func (p *Path) strLen(s Str) *Expr {
	if s.m == nil {
		return p.c.Int(int64(len(s.c)))
	}
	return s.n
}

func (p *Path) strAt(s Str, i *Expr) *Expr {
	if s.m == nil {
		if i.isConst() {
			if i.val < uint64(len(s.c)) {
				return p.c.Const(uint64(s.c[i.val]), 8)
			}
			return p.c.Const(0, 8)
		}
		return p.readNode(&MNode{k: nStr, str: s.c}, i, 8)
	}
	return p.read(s.m, p.c.Add(s.off, i))
}

func (p *Path) substr(s Str, lo, hi *Expr) Str {
	if s.m == nil {
		if lo.isConst() && hi.isConst() {
			return Str{c: s.c[lo.val:hi.val]}
		}
		m := p.newMem(8, p.node(MNode{k: nStr, str: s.c}))
		return Str{m: m, off: lo, n: p.c.Sub(hi, lo)}
	}
	return p.normStr(Str{m: s.m, off: p.c.Add(s.off, lo), n: p.c.Sub(hi, lo)})
}

// normStr makes fully concrete snapshots concrete (frozen memory only).
func (p *Path) normStr(s Str) Str {
	if s.m != nil && s.n.isConst() && s.n.val == 0 {
		return Str{}
	}
	return s
}

// concStr returns the Go string if every byte is a known constant.
func (p *Path) concStr(s Str) (string, bool) {
	if s.m == nil {
		return s.c, true
	}
	if !s.n.isConst() || s.n.val > 1<<16 {
		return "", false
	}
	b := make([]byte, s.n.val)
	for i := range b {
		e := p.read(s.m, p.c.Add(s.off, p.c.Int(int64(i))))
		if !e.isConst() {
			return "", false
		}
		b[i] = byte(e.val)
	}
	return string(b), true
}

// forceStr concretises a string completely.
func (p *Path) forceStr(s Str) string {
	if s.m == nil {
		return s.c
	}
	n := p.concretize(s.n)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(p.concretize(p.read(s.m, p.c.Add(s.off, p.c.Int(int64(i))))))
	}
	return string(b)
}

// sliceToStr snapshots bytes.
func (p *Path) sliceToStr(s SliceV) Str {
	if s.m == nil || (s.len.isConst() && s.len.val == 0) {
		return Str{}
	}
	if s.len.isConst() && s.len.val <= 4096 {
		v := make([]*Expr, s.len.val)
		conc := true
		for i := range v {
			v[i] = p.read(s.m, p.c.Add(s.off, p.c.Int(int64(i))))
			conc = conc && v[i].isConst()
		}
		if conc {
			b := make([]byte, len(v))
			for i := range v {
				b[i] = byte(v[i].val)
			}
			return Str{c: string(b)}
		}
		return Str{m: p.newMem(8, p.vecNode(v)), off: p.c.Int(0), n: s.len}
	}
	m := p.newMem(8, s.m.share())
	m.cow = true
	return Str{m: m, off: s.off, n: s.len}
}

func (p *Path) strNode(s Str) (*MNode, *Expr) {
	if s.m == nil {
		return p.node(MNode{k: nStr, str: s.c}), p.c.Int(0)
	}
	return s.m.share(), s.off
}

func (p *Path) strToSlice(s Str) SliceV {
	n := p.strLen(s)
	if n.isConst() && n.val <= 4096 {
		v := make([]*Expr, n.val)
		for i := range v {
			v[i] = p.strAt(s, p.c.Int(int64(i)))
		}
		return SliceV{m: p.newMem(8, p.vecNode(v)), off: p.c.Int(0), len: n, cap: n}
	}
	nd, off := p.strNode(s)
	m := p.newMem(8, nd)
	m.cow = true
	return SliceV{m: m, off: off, len: n, cap: n}
}

func (p *Path) strCat(a, b Str) Str {
	if a.m == nil && b.m == nil {
		return Str{c: a.c + b.c}
	}
	if a.m == nil && a.c == "" {
		return b
	}
	if b.m == nil && b.c == "" {
		return a
	}
	la, lb := p.strLen(a), p.strLen(b)
	n := p.c.Add(la, lb)
	if n.isConst() && n.val <= 4096 {
		v := make([]*Expr, n.val)
		for i := range v {
			if uint64(i) < la.val {
				v[i] = p.strAt(a, p.c.Int(int64(i)))
			} else {
				v[i] = p.strAt(b, p.c.Int(int64(uint64(i)-la.val)))
			}
		}
		return Str{m: p.newMem(8, p.vecNode(v)), off: p.c.Int(0), n: n}
	}
	m := p.newMem(8, zeroNode)
	nd, o := p.strNode(a)
	p.copyRange(m, p.c.Int(0), nd, o, la)
	nd, o = p.strNode(b)
	p.copyRange(m, la, nd, o, lb)
	return Str{m: m, off: p.c.Int(0), n: n}
}

func (p *Path) strEq(a, b Str) *Expr {
	c := p.c
	if a.m == nil && b.m == nil {
		return c.Bool(a.c == b.c)
	}
	la, lb := p.strLen(a), p.strLen(b)
	le := c.Eq(la, lb)
	if le.isFalse() {
		return le
	}
	var n uint64
	switch {
	case la.isConst():
		n = la.val
	case lb.isConst():
		n = lb.val
	case p.implied(le) && a.m == b.m && a.off == b.off:
		return c.True
	default:
		if !p.branch(le) {
			return c.False
		}
		le = c.True
		n = p.concretize(la)
	}
	if !le.isTrue() && n > 0 {
		// bytes beyond the shorter string are irrelevant
	}
	r := le
	for i := uint64(0); i < n; i++ {
		ix := c.Int(int64(i))
		r = c.And(r, c.Eq(p.strAt(a, ix), p.strAt(b, ix)))
		if r.isFalse() {
			break
		}
	}
	return r
}

func (p *Path) strLess(a, b Str) *Expr {
	if x, ok := p.concStr(a); ok {
		if y, ok := p.concStr(b); ok {
			return p.c.Bool(x < y)
		}
	}
	c := p.c
	na, nb := p.concretize(p.strLen(a)), p.concretize(p.strLen(b))
	r := c.Bool(na < nb)
	n := na
	if nb < n {
		n = nb
	}
	for i := int64(n) - 1; i >= 0; i-- {
		x, y := p.strAt(a, c.Int(i)), p.strAt(b, c.Int(i))
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

// ---- operators ----

func (p *Path) binop(op token.Token, t types.Type, x, y Value, ty types.Type) Value {
	c := p.c
	switch a := x.(type) {
	case *Expr:
		b, ok := y.(*Expr)
		if !ok {
			p.unsupported("binop %T %T", x, y)
		}
		signed := isSigned(t)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if p.branch(c.Eq(b, c.Const(0, b.w))) {
				p.gopanicRT("integer divide by zero")
			}
			if op == token.QUO {
				return c.Div(a, b, signed)
			}
			return p.rem(a, b, signed)
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			return c.BAnd(a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(ty) {
				if p.branch(c.Slt(b, c.Const(0, b.w))) {
					p.gopanicRT("negative shift amount")
				}
			}
			// bring the count to a's width
			var n *Expr
			if b.w > a.w {
				big := c.Ult(c.Const(uint64(a.w)-1, b.w), b)
				n = c.Ite(big, c.Const(uint64(a.w), a.w), c.Extract(b, 0, a.w))
			} else {
				n = c.ZExt(b, a.w)
			}
			if op == token.SHL {
				return c.Shift(OShl, a, n)
			}
			if signed {
				return c.Shift(OAShr, a, n)
			}
			return c.Shift(OLShr, a, n)
		case token.EQL:
			return c.Eq(a, b)
		case token.NEQ:
			return c.Not(c.Eq(a, b))
		case token.LSS:
			return p.less(a, b, signed)
		case token.LEQ:
			return c.Not(p.less(b, a, signed))
		case token.GTR:
			return p.less(b, a, signed)
		case token.GEQ:
			return c.Not(p.less(a, b, signed))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.EQL:
			return c.Bool(a == b)
		case token.NEQ:
			return c.Bool(a != b)
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return p.strCat(a, b)
		case token.EQL:
			return p.strEq(a, b)
		case token.NEQ:
			return c.Not(p.strEq(a, b))
		case token.LSS:
			return p.strLess(a, b)
		case token.LEQ:
			return c.Not(p.strLess(b, a))
		case token.GTR:
			return p.strLess(b, a)
		case token.GEQ:
			return c.Not(p.strLess(a, b))
		}
	}
	switch op {
	case token.EQL:
		return p.equal(x, y)
	case token.NEQ:
		return c.Not(p.equal(x, y))
	}
	p.unsupported("binop %s %T %T", op, x, y)
	return nil
}

func (p *Path) less(a, b *Expr, signed bool) *Expr {
	if signed {
		return p.c.Slt(a, b)
	}
	return p.c.Ult(a, b)
}

// rem rewrites x % y when 0 <= x < 2y is known: ring buffers live on it.
func (p *Path) rem(a, b *Expr, signed bool) *Expr {
	c := p.c
	if b.isConst() || a.w != 64 {
		if a.isConst() || !b.isConst() {
			return c.Rem(a, b, signed)
		}
		if b.sval() <= 0 || b.val&(b.val-1) == 0 && a.lo >= 0 {
			return c.Rem(a, b, signed)
		}
	}
	if a.isConst() && b.isConst() {
		return c.Rem(a, b, signed)
	}
	z := c.Const(0, a.w)
	pos := c.And(c.Sle(z, a), c.Slt(z, b))
	if !pos.isTrue() && !p.implied(pos) {
		return c.Rem(a, b, signed)
	}
	lt := c.Slt(a, b)
	if p.implied(lt) {
		return a
	}
	d := c.Sub(a, b)
	lt2 := c.Slt(d, b)
	if p.implied(lt2) {
		if p.implied(c.Not(lt)) {
			return d
		}
		return c.Ite(lt, a, d)
	}
	return c.Rem(a, b, signed)
}

func (p *Path) equal(x, y Value) *Expr {
	c := p.c
	switch a := x.(type) {
	case *Expr:
		return c.Eq(a, y.(*Expr))
	case float64:
		return c.Bool(a == y.(float64))
	case Str:
		return p.strEq(a, y.(Str))
	case Nil:
		switch b := y.(type) {
		case Nil:
			return c.True
		case SliceV:
			return c.Bool(b.m == nil && b.a == nil)
		case Iface:
			return c.Bool(b.t == nil)
		}
		return c.False
	case SliceV:
		b, ok := y.(SliceV)
		if ok && b.m == nil && b.a == nil {
			return c.Bool(a.m == nil && a.a == nil)
		}
		if ok && a.m == nil && a.a == nil {
			return c.Bool(b.m == nil && b.a == nil)
		}
		if _, ok := y.(Nil); ok {
			return c.Bool(a.m == nil && a.a == nil)
		}
		p.unsupported("slice comparison")
	case *Cell:
		b, ok := y.(*Cell)
		return c.Bool(ok && a == b)
	case *ElemPtr:
		b, ok := y.(*ElemPtr)
		if !ok || a.m != b.m {
			return c.False
		}
		return c.Eq(a.idx, b.idx)
	case *MapV:
		b, ok := y.(*MapV)
		return c.Bool(ok && a == b)
	case *Closure:
		return c.Bool(false) // only nil comparisons are legal
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.Bool(a.t == nil)
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !sameType(a.t, b.t) {
			return c.False
		}
		return p.equal(a.v, b.v)
	case *Struct:
		b := y.(*Struct)
		r := c.True
		for i := range a.f {
			r = c.And(r, p.equal(a.f[i].v, b.f[i].v))
		}
		return r
	case *Mem:
		b := y.(*Mem)
		n := p.memLen(a)
		if n < 0 {
			n = p.memLen(b)
		}
		if n < 0 {
			p.unsupported("array comparison")
		}
		r := c.True
		for i := int64(0); i < n; i++ {
			r = c.And(r, c.Eq(p.read(a, c.Int(i)), p.read(b, c.Int(i))))
		}
		return r
	case *ArrV:
		b := y.(*ArrV)
		r := c.True
		for i := range a.e {
			r = c.And(r, p.equal(p.cell(a, i).v, p.cell(b, i).v))
		}
		return r
	}
	p.unsupported("equal %T %T", x, y)
	return nil
}

func sameType(a, b types.Type) bool {
	if a == b {
		return true
	}
	if _, ok := a.(*nativeType); ok {
		return false
	}
	if _, ok := b.(*nativeType); ok {
		return false
	}
	return types.Identical(a, b)
}

func (p *Path) unop(in *ssa.UnOp, x Value) Value {
	c := p.c
	switch in.Op {
	case token.MUL:
		return p.load(x, in.Type())
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return c.Neg(x.(*Expr))
	case token.NOT:
		return c.Not(x.(*Expr))
	case token.XOR:
		return c.BNot(x.(*Expr))
	}
	p.unsupported("unop %s", in.Op)
	return nil
}

func (p *Path) convert(x Value, from, to types.Type) Value {
	c := p.c
	uf, ut := from.Underlying(), to.Underlying()
	if wt, ok := scalarWidth(ut); ok {
		switch v := x.(type) {
		case *Expr:
			if wt == v.w {
				return v
			}
			if wt < v.w {
				return c.Extract(v, 0, wt)
			}
			if isSigned(uf) {
				return c.SExt(v, wt)
			}
			return c.ZExt(v, wt)
		case float64:
			return c.Const(uint64(int64(v)), wt)
		case *Cell, *ElemPtr, Nil, *CastPtr:
			if wt == 64 { // unsafe.Pointer -> uintptr
				if _, ok := v.(Nil); ok {
					return c.Int(0)
				}
				return ptrInt{v}
			}
		case ptrInt:
			return v
		}
		p.unsupported("convert %T to %s", x, to)
	}
	switch t := ut.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch v := x.(type) {
			case Str:
				return v
			case *Expr: // rune
				if isSigned(uf) {
					v = c.SExt(v, 64)
				} else {
					v = c.ZExt(v, 64)
				}
				r := int64(p.concretize(v))
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return Str{c: string(rune(r))}
			case SliceV:
				if v.m == nil {
					return Str{}
				}
				if v.m.w == 32 {
					n := p.concretize(v.len)
					rs := make([]rune, n)
					for i := range rs {
						rs[i] = rune(p.concretize(p.read(v.m, c.Add(v.off, c.Int(int64(i))))))
					}
					return Str{c: string(rs)}
				}
				return p.sliceToStr(v)
			}
		case t.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Expr:
				k := p.concretize(v)
				if isSigned(uf) {
					return float64(sext(k, v.w))
				}
				return float64(k)
			}
		case t.Kind() == types.UnsafePointer:
			switch v := x.(type) {
			case ptrInt:
				return v.v
			case *Expr:
				if v.isConst() && v.val == 0 {
					return Nil{}
				}
			default:
				return x
			}
		}
	case *types.Slice:
		switch v := x.(type) {
		case Str:
			if w, _ := scalarWidth(t.Elem()); w == 32 {
				rs := []rune(p.forceStr(v))
				ve := make([]*Expr, len(rs))
				for i, r := range rs {
					ve[i] = c.Const(uint64(r), 32)
				}
				n := c.Int(int64(len(rs)))
				return SliceV{m: p.newMem(32, p.vecNode(ve)), off: c.Int(0), len: n, cap: n}
			}
			return p.strToSlice(v)
		case SliceV:
			return v
		}
	case *types.Pointer:
		// unsafe.Pointer -> *T
		switch v := x.(type) {
		case Nil:
			return v
		case *Cell:
			if m, ok := v.v.(*Mem); ok {
				if w, ok := scalarWidth(t.Elem()); ok {
					if w == m.w {
						return &ElemPtr{m, c.Int(0), -1}
					}
					return &CastPtr{m, c.Int(0), w}
				}
			}
			return v
		case *ElemPtr:
			if w, ok := scalarWidth(t.Elem()); ok {
				if w == v.m.w {
					return &ElemPtr{v.m, v.idx, -1}
				}
				return &CastPtr{v.m, v.idx, w}
			}
			if a, ok := t.Elem().Underlying().(*types.Array); ok {
				if w, ok := scalarWidth(a.Elem()); ok && w == v.m.w {
					return &ElemPtr{v.m, v.idx, a.Len()}
				}
			}
			return v
		case *CastPtr:
			if w, ok := scalarWidth(t.Elem()); ok {
				if w == v.m.w {
					return &ElemPtr{v.m, v.idx, -1}
				}
				return &CastPtr{v.m, v.idx, w}
			}
		case ptrInt:
			return p.convert(v.v, from, to)
		}
	}
	p.unsupported("convert %T from %s to %s", x, from, to)
	return nil
}

// ptrInt is a uintptr made from a pointer.
type ptrInt struct{ v Value }

func (p *Path) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = p.w.ex.implements(p.w, x.t, it)
			v = x
		} else {
			ok = sameType(x.t, in.AssertedType)
			v = x.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = p.zero(in.AssertedType)
		} else {
			v = p.copyVal(v)
		}
		return Tuple{v, p.c.Bool(ok)}
	}
	if !ok {
		msg := fmt.Sprintf("interface conversion: interface is %v, not %s", x.t, in.AssertedType)
		panic(goPanic{Iface{p.w.ex.rtErr, Str{c: msg}}, p.where()})
	}
	return p.copyVal(v)
}

// ---- maps ----

func (p *Path) newMap() *MapV {
	p.mapID++
	return &MapV{idx: map[string]*mapEnt{}, id: p.mapID}
}

func (p *Path) concKey(k Value) (string, bool) {
	switch v := k.(type) {
	case *Expr:
		if v.isConst() {
			return fmt.Sprintf("i%d", v.val), true
		}
	case Str:
		if s, ok := p.concStr(v); ok {
			return "s" + s, true
		}
	case Iface:
		if v.t == nil {
			return "n", true
		}
		if s, ok := p.concKey(v.v); ok {
			return "f" + v.t.String() + ":" + s, true
		}
	case *Cell:
		return fmt.Sprintf("p%p", v), true
	case *Struct:
		r := "t"
		for i := range v.f {
			s, ok := p.concKey(v.f[i].v)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s", len(s), s)
		}
		return r, true
	case float64:
		return fmt.Sprint("d", v), true
	case Nil:
		return "0", true
	}
	return "", false
}

func (p *Path) mapFind(m *MapV, k Value) *mapEnt {
	ck, conc := p.concKey(k)
	if conc {
		if e, ok := m.idx[ck]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := p.concKey(e.k.v); c2 {
				continue // concrete and different
			}
		}
		if p.branch(p.equal(k, e.k.v)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		e.v.v = p.copyVal(v)
		return
	}
	if s, ok := k.(Str); ok && s.m != nil { // freeze views
		k = p.freeze(s)
	}
	e := &mapEnt{k: Cell{p.copyVal(k)}, v: Cell{p.copyVal(v)}}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := p.concKey(k); ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (p *Path) freeze(s Str) Str {
	if s.m == nil {
		return s
	}
	m := p.newMem(8, s.m.share())
	m.cow = true
	return Str{m: m, off: s.off, n: s.n}
}

func (p *Path) mapDelete(m *MapV, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := p.concKey(e.k.v); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && len(m.ents) > 4*m.n {
		var live []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				live = append(live, x)
			}
		}
		_ = live // iterators hold positions; keep the dead entries
	}
}

func (p *Path) lookup(in *ssa.Lookup, x, k Value) Value {
	switch m := x.(type) {
	case Str:
		return p.index(m, p.toInt(k, in.Index.Type()))
	case *MapV, Nil:
		var e *mapEnt
		if mm, ok := m.(*MapV); ok {
			e = p.mapFind(mm, k)
		}
		var v Value
		if e != nil {
			v = p.copyVal(e.v.v)
		} else {
			t := in.Type()
			if in.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
			}
			v = p.zero(t)
		}
		if in.CommaOk {
			return Tuple{v, p.c.Bool(e != nil)}
		}
		return v
	}
	p.unsupported("lookup %T", x)
	return nil
}

func (p *Path) iterNext(in *ssa.Next, it *Iter) Value {
	c := p.c
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		n := p.strLen(*it.s)
		if !p.branch(c.Slt(it.off, n)) {
			return Tuple{c.False, c.Int(0), c.Const(0, 32)}
		}
		b := p.strAt(*it.s, it.off)
		k := it.off
		if p.branch(c.Ult(b, c.Const(0x80, 8))) {
			it.off = c.Add(it.off, c.Int(1))
			return Tuple{c.True, k, c.ZExt(b, 32)}
		}
		fn := p.w.ex.stdFunc("unicode/utf8", "DecodeRuneInString")
		r := p.callFn(p.cur.top, fn, []Value{p.substr(*it.s, it.off, n)}, nil).(Tuple)
		it.off = c.Add(it.off, r[1].(*Expr))
		return Tuple{c.True, k, r[0]}
	}
	for it.pos < len(it.m.ents) {
		e := it.m.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{c.True, p.copyVal(e.k.v), p.copyVal(e.v.v)}
	}
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return p.zero(t)
	}
	return Tuple{c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

// ---- builtins ----

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := p.c
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return p.strLen(v)
		case SliceV:
			return v.len
		case *MapV:
			return c.Int(int64(v.n))
		case *Mem:
			return c.Int(p.memLen(v))
		case *ArrV:
			return c.Int(int64(len(v.e)))
		case *Cell:
			if a, ok := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return c.Int(a.Len())
			}
		case Nil:
			if pt, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				return c.Int(pt.Elem().Underlying().(*types.Array).Len())
			}
			return c.Int(0)
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return v.cap
		case *Mem:
			return c.Int(p.memLen(v))
		case *ArrV:
			return c.Int(int64(len(v.e)))
		}
	case "append":
		dst := args[0].(SliceV)
		switch s := args[1].(type) {
		case SliceV:
			return p.appendSlice(dst, s, elemType(cc, b))
		case Str:
			return p.appendSlice(dst, p.strToSliceView(s), elemType(cc, b))
		}
	case "copy":
		dst := args[0].(SliceV)
		var src SliceV
		switch s := args[1].(type) {
		case SliceV:
			src = s
		case Str:
			src = p.strToSliceView(s)
		}
		n := p.min(dst.len, src.len)
		if n.isConst() && n.val == 0 {
			return n
		}
		if dst.m != nil && src.m != nil {
			p.copyRange(dst.m, dst.off, src.m.share(), src.off, n)
			return n
		}
		if dst.a != nil && src.a != nil {
			k := int(p.concretize(n))
			do, so := int(p.concretize(dst.off)), int(p.concretize(src.off))
			tmp := make([]Value, k)
			for i := 0; i < k; i++ {
				tmp[i] = p.copyVal(p.cell(src.a, so+i).v)
			}
			for i := 0; i < k; i++ {
				p.storeCell(p.cell(dst.a, do+i), tmp[i])
			}
			return c.Int(int64(k))
		}
		return c.Int(0)
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			for _, e := range v.ents {
				e.dead = true
			}
			v.n, v.nsym, v.idx = 0, 0, map[string]*mapEnt{}
		case SliceV:
			if v.m != nil {
				p.copyRange(v.m, v.off, zeroNode, c.Int(0), v.len)
			} else if v.a != nil {
				k, o := int(p.concretize(v.len)), int(p.concretize(v.off))
				for i := 0; i < k; i++ {
					p.storeCell(p.cell(v.a, o+i), p.zero(v.a.et))
				}
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Expr:
				y := a.(*Expr)
				var lt *Expr
				if isSigned(cc.Args[0].Type()) {
					lt = c.Slt(x, y)
				} else {
					lt = c.Ult(x, y)
				}
				if b.Name() == "max" {
					lt = c.Not(lt)
				}
				r = c.Ite(lt, x, y)
			case float64:
				if b.Name() == "max" {
					r = math.Max(x, a.(float64))
				} else {
					r = math.Min(x, a.(float64))
				}
			default:
				p.unsupported("min/max")
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		return p.recover(fr)
	case "panic":
		panic(goPanic{args[0], p.where()})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(Nil); ok {
			p.gopanicRT("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := args[1].(*Expr)
		switch v := args[0].(type) {
		case *ElemPtr:
			return p.normStr(Str{m: v.m, off: v.idx, n: p.c.ZExt(n, 64)})
		case Nil:
			return Str{}
		}
	case "StringData":
		s := args[0].(Str)
		v := p.strToSliceView(s)
		return &ElemPtr{v.m, v.off, -1}
	case "SliceData":
		s := args[0].(SliceV)
		if s.m != nil {
			return &ElemPtr{s.m, s.off, -1}
		}
		if s.a != nil && len(s.a.e) > 0 {
			return p.cell(s.a, int(p.concretize(s.off)))
		}
		return Nil{}
	case "Slice":
		n := c.ZExt(args[1].(*Expr), 64)
		switch v := args[0].(type) {
		case *ElemPtr:
			return SliceV{m: v.m, off: v.idx, len: n, cap: n}
		case Nil:
			z := c.Int(0)
			return SliceV{off: z, len: z, cap: z}
		}
	}
	p.unsupported("builtin %s %T", b.Name(), args[0])
	return nil
}

func elemType(cc *ssa.CallCommon, b *ssa.Builtin) types.Type {
	var t types.Type
	if cc != nil {
		t = cc.Args[0].Type()
	} else {
		t = b.Type().(*types.Signature).Params().At(0).Type()
	}
	return t.Underlying().(*types.Slice).Elem()
}

func (p *Path) min(a, b *Expr) *Expr {
	lt := p.c.Slt(a, b)
	if p.implied(lt) {
		return a
	}
	ge := p.c.Not(lt)
	if p.implied(ge) {
		return b
	}
	return p.c.Ite(lt, a, b)
}

func (p *Path) appendSlice(dst, src SliceV, et types.Type) Value {
	c := p.c
	if src.len.isConst() && src.len.val == 0 {
		return dst
	}
	nl := c.Add(dst.len, src.len)
	w, scalar := scalarWidth(et)
	if p.branch(c.Sle(nl, dst.cap)) {
		if scalar {
			if dst.m == nil {
				return dst // both empty
			}
			p.copyRange(dst.m, c.Add(dst.off, dst.len), src.m.share(), src.off, src.len)
		} else {
			k := int(p.concretize(src.len))
			do, so := int(p.concretize(c.Add(dst.off, dst.len))), 0
			if k > 0 {
				so = int(p.concretize(src.off))
			}
			tmp := make([]Value, k)
			for i := 0; i < k; i++ {
				tmp[i] = p.copyVal(p.cell(src.a, so+i).v)
			}
			for i := 0; i < k; i++ {
				p.storeCell(p.cell(dst.a, do+i), tmp[i])
			}
			nl = c.Add(dst.len, c.Int(int64(k)))
		}
		return SliceV{m: dst.m, a: dst.a, off: dst.off, len: nl, cap: dst.cap}
	}
	ncap := nl
	if nl.isConst() && dst.cap.isConst() {
		k := int64(nl.val)
		oc := int64(dst.cap.val)
		if 2*oc > k {
			if oc < 256 {
				k = 2 * oc
			} else {
				for x := oc; ; {
					x += (x + 768) / 4
					if x >= k {
						k = x
						break
					}
				}
			}
		}
		if k < 8 && w == 8 {
			k = 8
		}
		ncap = c.Int(k)
	}
	if scalar {
		m := p.newMem(w, zeroNode)
		if ncap.isConst() && ncap.val <= 256 {
			v := make([]*Expr, ncap.val)
			z := c.Const(0, w)
			for i := range v {
				v[i] = z
			}
			m.head = p.vecNode(v)
		}
		if dst.m != nil {
			p.copyRange(m, c.Int(0), dst.m.share(), dst.off, dst.len)
		}
		p.copyRange(m, dst.len, src.m.share(), src.off, src.len)
		return SliceV{m: m, off: c.Int(0), len: nl, cap: ncap}
	}
	n := int(p.concretize(nl))
	dl := int(p.concretize(dst.len))
	cp := n
	if ncap.isConst() {
		cp = int(ncap.val)
	}
	a := &ArrV{e: make([]Cell, cp), et: et}
	do := 0
	if dst.a != nil {
		do = int(p.concretize(dst.off))
	}
	for i := 0; i < dl; i++ {
		a.e[i].v = p.copyVal(p.cell(dst.a, do+i).v)
	}
	so := int(p.concretize(src.off))
	for i := dl; i < n; i++ {
		a.e[i].v = p.copyVal(p.cell(src.a, so+i-dl).v)
	}
	return SliceV{a: a, off: c.Int(0), len: c.Int(int64(n)), cap: c.Int(int64(cp))}
}

func (p *Path) recover(fr *frame) Value {
	// recover is called by a deferred function: its caller frame is panicking
	f := fr.caller
	if f != nil && f.panicking {
		f.panicking = false
		gp := f.pan.(goPanic)
		f.pan = nil
		return gp.v
	}
	return Iface{}
}

// ---- coroutines ----

type coro struct {
	id    int
	top   *frame
	depth int
	ch    chan struct{}
	done  bool
	fn    Value
}

func (p *Path) coNew(fn Value) int {
	p.coIDs++
	co := &coro{id: p.coIDs, ch: make(chan struct{}), fn: fn}
	p.coros = append(p.coros, co)
	started := co
	go func() {
		<-started.ch
		if p.dead {
			p.abortCh <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			if p.dead {
				p.abortCh <- struct{}{}
				return
			}
			started.done = true
			if r == nil {
				r = fmt.Errorf("coroutine returned")
			}
			p.finish(r)
		}()
		p.cur.top, p.cur.depth = nil, 0
		p.call(nil, fn, nil)
	}()
	return co.id
}

// finish passes a terminal event to the main coroutine.
func (p *Path) finish(r interface{}) {
	p.abortVal = r
	main := p.coros[0]
	p.cur = main
	main.ch <- struct{}{}
}

func (p *Path) coSwitch(id int) {
	me := p.cur
	if me.id == id {
		return
	}
	var to *coro
	for _, c := range p.coros {
		if c.id == id {
			to = c
		}
	}
	if to == nil || to.done {
		p.unsupported("switch to dead coroutine %d", id)
	}
	p.cur = to
	to.ch <- struct{}{}
	<-me.ch
	if p.dead {
		panic(pathAbort{"killed", ""})
	}
	if p.abortVal != nil && me.id == 0 {
		r := p.abortVal
		p.abortVal = nil
		panic(r)
	}
}

// killCoros unwinds every other coroutine at the end of a path.
func (p *Path) killCoros() {
	p.dead = true
	for _, c := range p.coros[1:] {
		if !c.done {
			c.ch <- struct{}{}
			<-p.abortCh
			c.done = true
		}
	}
}
