package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vpkg = "vrt/verif."

func newRuntimeErrType() types.Type {
	return &nativeType{name: "runtime.Error", methods: map[string]intrinsic{
		"Error":        func(p *Path, fr *frame, a []Value) Value { return a[0] },
		"RuntimeError": func(p *Path, fr *frame, a []Value) Value { return nil },
	}}
}

// shaRec remembers symbolic hash applications.
type shaRec struct {
	in  []*Expr
	out string
}

func str(p *Path, v Value) string { return p.forceStr(v.(Str)) }

func intrinsics(ex *Explorer) map[string]intrinsic {
	m := map[string]intrinsic{}
	// ---- harness API ----
	v := func(name string, f intrinsic) { m[vpkg+name] = f }
	v("Int", func(p *Path, fr *frame, a []Value) Value {
		lo := int64(p.concretize(a[1].(*Expr)))
		hi := int64(p.concretize(a[2].(*Expr)))
		return p.ndInt(str(p, a[0]), 64, lo, hi)
	})
	v("Byte", func(p *Path, fr *frame, a []Value) Value { return p.ndInt(str(p, a[0]), 8, -128, 127) })
	v("Uint64", func(p *Path, fr *frame, a []Value) Value { return p.ndInt(str(p, a[0]), 64, minS(64), maxS(64)) })
	v("Bool", func(p *Path, fr *frame, a []Value) Value { return p.ndInt(str(p, a[0]), 0, 0, 0) })
	v("Bytes", func(p *Path, fr *frame, a []Value) Value {
		return p.ndBytes(str(p, a[0]), a[1].(*Expr), 0)
	})
	v("Choose", func(p *Path, fr *frame, a []Value) Value {
		n := int64(p.concretize(a[1].(*Expr)))
		if n <= 1 {
			return p.c.Int(0)
		}
		return p.c.Int(int64(p.concretize(p.ndInt(str(p, a[0]), 64, 0, n-1))))
	})
	v("Concrete", func(p *Path, fr *frame, a []Value) Value { return p.c.Int(int64(p.concretize(a[0].(*Expr)))) })
	v("Assume", func(p *Path, fr *frame, a []Value) Value { p.assume(a[0].(*Expr)); return nil })
	v("Assert", func(p *Path, fr *frame, a []Value) Value { p.check(a[0].(*Expr), str(p, a[1])); return nil })
	v("AssertEqBytes", func(p *Path, fr *frame, a []Value) Value {
		x, y := a[0].(SliceV), a[1].(SliceV)
		p.assertEqBytes(x, y, str(p, a[2]))
		return nil
	})
	v("EqBytes", func(p *Path, fr *frame, a []Value) Value {
		return p.strEq(p.sliceToStr(a[0].(SliceV)), p.sliceToStr(a[1].(SliceV)))
	})
	v("And", func(p *Path, fr *frame, a []Value) Value { return p.c.And(a[0].(*Expr), a[1].(*Expr)) })
	v("Or", func(p *Path, fr *frame, a []Value) Value { return p.c.Or(a[0].(*Expr), a[1].(*Expr)) })
	v("Implies", func(p *Path, fr *frame, a []Value) Value { return p.c.Implies(a[0].(*Expr), a[1].(*Expr)) })
	v("Iff", func(p *Path, fr *frame, a []Value) Value { return p.c.Eq(a[0].(*Expr), a[1].(*Expr)) })
	v("IteInt", func(p *Path, fr *frame, a []Value) Value {
		return p.c.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr))
	})
	v("Reach", func(p *Path, fr *frame, a []Value) Value { p.reached[str(p, a[0])] = true; return nil })
	v("Observe", func(p *Path, fr *frame, a []Value) Value {
		p.obs = append(p.obs, obs{label: str(p, a[0]), e: a[1].(*Expr)})
		return nil
	})
	v("ObserveBytes", func(p *Path, fr *frame, a []Value) Value {
		s := p.sliceToStr(a[1].(SliceV))
		p.obs = append(p.obs, obs{label: str(p, a[0]), s: &s})
		return nil
	})
	v("Restart", func(p *Path, fr *frame, a []Value) Value { return nil })
	v("Restarted", func(p *Path, fr *frame, a []Value) Value { return Str{} })
	v("Exit", func(p *Path, fr *frame, a []Value) Value { p.abort("exit", ""); return nil })
	v("Symbolic", func(p *Path, fr *frame, a []Value) Value { return p.c.True })
	v("Initialising", func(p *Path, fr *frame, a []Value) Value { return p.c.Bool(p.initing > 0) })
	v("Thorough", func(p *Path, fr *frame, a []Value) Value { return p.c.Bool(thoroughTier) })
	v("coNew", func(p *Path, fr *frame, a []Value) Value { return p.c.Int(int64(p.coNew(a[0]))) })
	v("coSwitch", func(p *Path, fr *frame, a []Value) Value { p.coSwitch(int(p.concretize(a[0].(*Expr)))); return nil })
	v("Fatal", func(p *Path, fr *frame, a []Value) Value { p.abort("unsupported", str(p, a[0])); return nil })
	v("Debug", func(p *Path, fr *frame, a []Value) Value {
		if p.w.ex.cfg.Verbose {
			fmt.Println("DEBUG", str(p, a[0]), show(a[1]))
		}
		return nil
	})

	// ---- redirects to Go models ----
	redirect := func(name, fn string) {
		m[name] = func(p *Path, fr *frame, a []Value) Value {
			f := p.w.ex.stdFunc("vrt/stdmodel", fn)
			if f == nil {
				p.unsupported("no model %s", fn)
			}
			return p.callFn(fr, f, a, nil)
		}
	}
	redirect("internal/bytealg.IndexByte", "IndexByte")
	redirect("internal/bytealg.IndexByteString", "IndexByteString")
	redirect("internal/bytealg.LastIndexByte", "LastIndexByte")
	redirect("internal/bytealg.LastIndexByteString", "LastIndexByteString")
	redirect("internal/bytealg.Count", "Count")
	redirect("internal/bytealg.CountString", "CountString")
	redirect("internal/bytealg.Compare", "Compare")
	redirect("internal/bytealg.CompareString", "CompareString")
	redirect("bytes.Index", "Index")
	redirect("strings.Index", "IndexString")
	redirect("bytes.IndexByte", "IndexByte")
	redirect("strings.IndexByte", "IndexByteString")
	redirect("bytes.Compare", "Compare")
	redirect("strings.Compare", "CompareString")
	redirect("internal/bytealg.Index", "Index")
	redirect("internal/bytealg.IndexString", "IndexString")
	redirect("bytes.LastIndexByte", "LastIndexByte")
	redirect("errors.Is", "ErrorsIs")
	redirect("bytes.EqualFold", "EqualFold")
	redirect("strings.EqualFold", "EqualFoldString")
	redirect("unicode/utf8.Valid", "Utf8Valid")
	redirect("unicode/utf8.ValidString", "Utf8ValidString")
	redirect("(net.IP).String", "IPString")
	redirect("(net/http.Header).Write", "HeaderWrite")
	eqb := func(p *Path, fr *frame, a []Value) Value {
		return p.strEq(p.view(a[0].(SliceV)), p.view(a[1].(SliceV)))
	}
	m["internal/bytealg.Equal"] = eqb
	m["bytes.Equal"] = eqb
	m["internal/bytealg.MakeNoZero"] = func(p *Path, fr *frame, a []Value) Value {
		return p.makeSlice(types.NewSlice(types.Typ[types.Uint8]), a[0].(*Expr), a[0].(*Expr))
	}
	ident := func(p *Path, fr *frame, a []Value) Value { return a[0] }
	m["internal/abi.NoEscape"] = ident
	m["internal/abi.Escape"] = ident
	m["strings.noescape"] = ident
	m["strings.Clone"] = ident
	m["internal/stringslite.Clone"] = ident
	nop := func(p *Path, fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Gosched",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"log.Print", "log.Printf", "log.Println", "fmt.Print", "fmt.Printf", "fmt.Println"} {
		n := n
		m[n] = func(p *Path, fr *frame, a []Value) Value {
			if strings.HasPrefix(n, "fmt.") {
				return Tuple{p.c.Int(0), Iface{}}
			}
			return nil
		}
	}
	_ = nop
	m["(*log.Logger).Print"] = nop
	m["(*log.Logger).Printf"] = nop
	m["(*log.Logger).Println"] = nop
	m["(*sync.Mutex).TryLock"] = func(p *Path, fr *frame, a []Value) Value { return p.c.True }
	m["(*sync.Once).Do"] = func(p *Path, fr *frame, a []Value) Value {
		cl := a[0].(*Cell)
		key := fmt.Sprintf("once%p", cl)
		if p.misc[key] == nil {
			p.misc[key] = true
			p.call(fr, a[1], nil)
		}
		return nil
	}
	m["(*sync.Pool).Get"] = func(p *Path, fr *frame, a []Value) Value {
		s := a[0].(*Cell).v.(*Struct)
		nf := s.f[len(s.f)-1].v
		if _, ok := nf.(Nil); ok {
			return Iface{}
		}
		return p.call(fr, nf, nil)
	}
	m["(*sync.Pool).Put"] = nop
	// std atomics used inside std code (the code under test goes through vatomic)
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer"} {
		t := "(*sync/atomic." + ty + ")."
		if ty == "Pointer" {
			t = "(*sync/atomic.Pointer[T])."
		}
		last := func(a []Value) *Cell { s := a[0].(*Cell).v.(*Struct); return &s.f[len(s.f)-1] }
		isB := ty == "Bool"
		dec := func(p *Path, v Value) Value {
			if isB {
				return p.c.Not(p.c.Eq(v.(*Expr), p.c.Const(0, 32)))
			}
			return v
		}
		enc := func(p *Path, v Value) Value {
			if isB {
				return p.c.Ite(v.(*Expr), p.c.Const(1, 32), p.c.Const(0, 32))
			}
			return v
		}
		m[t+"Load"] = func(p *Path, fr *frame, a []Value) Value { return dec(p, last(a).v) }
		m[t+"Store"] = func(p *Path, fr *frame, a []Value) Value { last(a).v = enc(p, a[1]); return nil }
		m[t+"Swap"] = func(p *Path, fr *frame, a []Value) Value {
			o := last(a).v
			last(a).v = enc(p, a[1])
			return dec(p, o)
		}
		m[t+"CompareAndSwap"] = func(p *Path, fr *frame, a []Value) Value {
			c := last(a)
			if p.branch(p.equal(c.v, enc(p, a[1]))) {
				c.v = enc(p, a[2])
				return p.c.True
			}
			return p.c.False
		}
		if ty != "Bool" && ty != "Pointer" {
			m[t+"Add"] = func(p *Path, fr *frame, a []Value) Value {
				c := last(a)
				c.v = p.c.Add(c.v.(*Expr), a[1].(*Expr))
				return c.v
			}
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		n := "sync/atomic."
		m[n+"Load"+ty] = func(p *Path, fr *frame, a []Value) Value { return p.load(a[0], nilType) }
		m[n+"Store"+ty] = func(p *Path, fr *frame, a []Value) Value { p.store(a[0], a[1]); return nil }
		m[n+"Add"+ty] = func(p *Path, fr *frame, a []Value) Value {
			v := p.c.Add(p.load(a[0], nilType).(*Expr), a[1].(*Expr))
			p.store(a[0], v)
			return v
		}
		m[n+"Swap"+ty] = func(p *Path, fr *frame, a []Value) Value {
			o := p.load(a[0], nilType)
			p.store(a[0], a[1])
			return o
		}
		m[n+"CompareAndSwap"+ty] = func(p *Path, fr *frame, a []Value) Value {
			if p.branch(p.equal(p.load(a[0], nilType), a[1])) {
				p.store(a[0], a[2])
				return p.c.True
			}
			return p.c.False
		}
	}
	m["(*sync/atomic.Value).Load"] = func(p *Path, fr *frame, a []Value) Value { return a[0].(*Cell).v.(*Struct).f[0].v }
	m["(*sync/atomic.Value).Store"] = func(p *Path, fr *frame, a []Value) Value {
		a[0].(*Cell).v.(*Struct).f[0].v = a[1]
		return nil
	}
	m["os.Getenv"] = func(p *Path, fr *frame, a []Value) Value { return Str{} }
	m["internal/godebug.New"] = func(p *Path, fr *frame, a []Value) Value { return Nil{} }
	m["(*internal/godebug.Setting).Value"] = func(p *Path, fr *frame, a []Value) Value { return Str{} }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop

	// ---- fmt ----
	m["fmt.Sprintf"] = func(p *Path, fr *frame, a []Value) Value { return p.sprintf(a[0], a[1].(SliceV)) }
	m["fmt.Sprint"] = func(p *Path, fr *frame, a []Value) Value { return Str{c: fmt.Sprint(p.hostArgs(a[0].(SliceV))...)} }
	m["fmt.Sprintln"] = func(p *Path, fr *frame, a []Value) Value { return Str{c: fmt.Sprintln(p.hostArgs(a[0].(SliceV))...)} }
	m["fmt.Errorf"] = func(p *Path, fr *frame, a []Value) Value {
		s := p.sprintf(a[0], a[1].(SliceV))
		var wrapped Value = Iface{}
		if f, ok := p.concStr(a[0].(Str)); ok && strings.Contains(f, "%w") {
			sl := a[1].(SliceV)
			if sl.a != nil {
				n := int(p.concretize(sl.len))
				for i := 0; i < n; i++ {
					if x, ok := p.cell(sl.a, int(sl.off.val)+i).v.(Iface); ok && x.t != nil {
						if hasMethod(x.t, "Error") {
							wrapped = x
						}
					}
				}
			}
		}
		return Iface{errNative(p.w.ex), &Struct{f: []Cell{{s}, {wrapped}}}}
	}
	fprint := func(text func(p *Path, a []Value) Str) intrinsic {
		return func(p *Path, fr *frame, a []Value) Value {
			w := a[0].(Iface)
			if w.t == nil {
				p.gopanicRT("invalid memory address or nil pointer dereference")
			}
			data := p.strToSlice(text(p, a[1:]))
			if nt, ok := w.t.(*nativeType); ok && nt.methods["Write"] != nil {
				return nt.methods["Write"](p, fr, []Value{w.v, data})
			}
			fn := p.w.ex.methodByName(w.t, "Write")
			if fn == nil {
				p.unsupported("no Write of %s", w.t)
			}
			return p.callFn(fr, fn, []Value{p.copyVal(w.v), data}, nil)
		}
	}
	m["fmt.Fprintf"] = fprint(func(p *Path, a []Value) Str { return p.sprintf(a[0], a[1].(SliceV)) })
	m["fmt.Fprint"] = fprint(func(p *Path, a []Value) Str { return Str{c: fmt.Sprint(p.hostArgs(a[0].(SliceV))...)} })
	m["fmt.Fprintln"] = fprint(func(p *Path, a []Value) Str { return Str{c: fmt.Sprintln(p.hostArgs(a[0].(SliceV))...)} })
	m["errors.As"] = errorsAs
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice

	// ---- time ----
	timeIntr(m)
	hashIntr(m)
	return m
}

var nilType = types.Typ[types.Invalid]

var errNat *nativeType

func errNative(ex *Explorer) *nativeType { return errNat }

func init() {
	errNat = &nativeType{name: "*fmt.wrapError", methods: map[string]intrinsic{
		"Error":  func(p *Path, fr *frame, a []Value) Value { return a[0].(*Struct).f[0].v },
		"Unwrap": func(p *Path, fr *frame, a []Value) Value { return a[0].(*Struct).f[1].v },
	}}
}

func hasMethod(t types.Type, n string) bool {
	if x, ok := t.(*nativeType); ok {
		return x.methods[n] != nil
	}
	o, _, _ := types.LookupFieldOrMethod(t, false, nil, n)
	_, ok := o.(*types.Func)
	return ok
}

// view aliases a byte slice as a string without a snapshot.
func (p *Path) view(s SliceV) Str {
	if s.m == nil {
		return Str{}
	}
	return Str{m: s.m, off: s.off, n: s.len}
}

func (p *Path) hostVal(v Value) interface{} {
	x, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	if x.t == nil {
		return nil
	}
	if hasMethod(x.t, "Error") {
		var r Value
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(goPanic); !ok {
						panic(e)
					}
				}
			}()
			if nt, ok := x.t.(*nativeType); ok {
				r = nt.methods["Error"](p, nil, []Value{x.v})
			} else if fn := p.w.ex.methodByName(x.t, "Error"); fn != nil {
				r = p.callFn(nil, fn, []Value{x.v}, nil)
			}
		}()
		if s, ok := r.(Str); ok {
			if c, ok := p.concStr(s); ok {
				return c
			}
		}
		return "<error>"
	}
	switch y := x.v.(type) {
	case *Expr:
		if !y.isConst() {
			return "<sym>"
		}
		if y.w == 0 {
			return y.isTrue()
		}
		if isSigned(x.t) {
			return y.sval()
		}
		if y.w == 8 {
			return uint8(y.val)
		}
		return y.val
	case Str:
		if s, ok := p.concStr(y); ok {
			return s
		}
		return "<sym>"
	case float64:
		return y
	case SliceV:
		if y.m != nil && y.m.w == 8 {
			if s, ok := p.concStr(p.view(y)); ok {
				return []byte(s)
			}
		}
		if st, ok := x.t.Underlying().(*types.Slice); ok && (y.a != nil || y.m != nil) && y.len.isConst() && y.len.sval() <= 64 {
			_, isI := st.Elem().Underlying().(*types.Interface)
			r := make([]interface{}, y.len.sval())
			for i := range r {
				e := p.load(p.indexAddr(y, p.c.Int(int64(i))), st.Elem())
				if !isI {
					e = Iface{st.Elem(), e}
				}
				r[i] = p.hostVal(e)
			}
			return r
		}
		return "<slice>"
	}
	return x.t.String()
}

func (ex *Explorer) methodByName(t types.Type, n string) *ssa.Function {
	ex.P.mu.Lock()
	defer ex.P.mu.Unlock()
	ms := ex.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return ex.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) hostArgs(s SliceV) []interface{} {
	if s.a == nil {
		return nil
	}
	n := int(p.concretize(s.len))
	off := int(p.concretize(s.off))
	r := make([]interface{}, n)
	for i := range r {
		r[i] = p.hostVal(p.cell(s.a, off+i).v)
	}
	return r
}

func (p *Path) sprintf(f Value, s SliceV) Str {
	fs := str(p, f)
	args := p.hostArgs(s)
	fs = strings.ReplaceAll(fs, "%w", "%v")
	return Str{c: fmt.Sprintf(fs, args...)}
}

func (p *Path) panicText(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	return fmt.Sprint(p.hostVal(v))
}

func show(v Value) string {
	switch x := v.(type) {
	case *Expr:
		return x.String()
	case Iface:
		return "iface " + fmt.Sprint(x.t) + " " + show(x.v)
	case Str:
		if x.m == nil {
			return strconv.Quote(x.c)
		}
		return "str len " + x.n.String()
	case SliceV:
		return fmt.Sprintf("slice off %s len %s cap %s", x.off, x.len, x.cap)
	case Tuple:
		s := ""
		for _, y := range x {
			s += show(y) + ", "
		}
		return "(" + s + ")"
	}
	return fmt.Sprintf("%T", v)
}

func (p *Path) assertEqBytes(x, y SliceV, label string) {
	c := p.c
	p.check(c.Eq(x.len, y.len), label+" (length)")
	if !p.branch(c.Eq(x.len, y.len)) {
		return
	}
	n := x.len
	if v, ok := p.fixed(n); ok {
		n = c.Int(int64(v))
	} else if v, ok := p.fixed(y.len); ok {
		n = c.Int(int64(v))
	}
	if n.isConst() && n.val == 0 {
		p.check(c.True, label)
		return
	}
	if n.isConst() && n.val <= 2048 {
		r := c.True
		for i := uint64(0); i < n.val; i++ {
			ix := c.Int(int64(i))
			r = c.And(r, c.Eq(p.read(x.m, c.Add(x.off, ix)), p.read(y.m, c.Add(y.off, ix))))
		}
		p.check(r, label)
		return
	}
	if x.m == nil || y.m == nil {
		// both have the same length; nil means empty
		p.check(c.Eq(n, c.Int(0)), label)
		return
	}
	// arbitrary index
	k := p.c.Var(p.ndName("k!"+label), 64, 0, 1<<40)
	in := c.Slt(k, n)
	// implied() must know the index is in range: extend the path condition temporarily
	savePC, saveSet, saveImpl := p.pc, p.pcSet, p.implCache
	p.pc = append([]*Expr(nil), p.pc...)
	p.pcSet = map[int]bool{}
	for k, v := range saveSet {
		p.pcSet[k] = v
	}
	p.implCache = map[int]int8{}
	for k, v := range saveImpl {
		p.implCache[k] = v
	}
	saveMemo := p.rdMemo
	p.rdMemo = map[rdKey]*Expr{}
	saveModel := p.model
	feasible := true
	if p.eval(in) == 0 {
		r, m := p.ask(p.pc, in, p.model)
		if r == Sat {
			p.setModel(m)
		} else {
			feasible = r == Unknown
		}
	}
	if feasible {
		p.addPC(in)
		e := c.Eq(p.read(x.m, c.Add(x.off, k)), p.read(y.m, c.Add(y.off, k)))
		p.w.ex.noteLabel(label)
		if e.isTrue() {
			p.trivial++
		} else if p.pos >= len(p.dec) {
			r, m := p.ask(p.pc, c.Not(e), p.model)
			switch r {
			case Unsat:
				p.asserts++
			case Unknown:
				p.w.ex.noteUnknown("assert " + label)
			case Sat:
				p.report(label, p.where(), m)
			}
		}
	} else {
		p.check(c.True, label)
	}
	p.pc, p.pcSet, p.implCache, p.rdMemo = savePC, saveSet, saveImpl, saveMemo
	p.setModel(saveModel)
}

// ---- time: Time{wall: 0, ext: nanoseconds since 1970, loc: nil} ----

func timeIntr(m map[string]intrinsic) {
	mk := func(p *Path, ns *Expr) Value {
		return &Struct{f: []Cell{{p.c.Const(0, 64)}, {ns}, {Nil{}}}}
	}
	ext := func(v Value) *Expr { return v.(*Struct).f[1].v.(*Expr) }
	m["time.Unix"] = func(p *Path, fr *frame, a []Value) Value {
		c := p.c
		return mk(p, c.Add(c.Mul(a[0].(*Expr), c.Int(1e9)), a[1].(*Expr)))
	}
	m["time.UnixMilli"] = func(p *Path, fr *frame, a []Value) Value {
		return mk(p, p.c.Mul(a[0].(*Expr), p.c.Int(1e6)))
	}
	m["time.UnixMicro"] = func(p *Path, fr *frame, a []Value) Value {
		return mk(p, p.c.Mul(a[0].(*Expr), p.c.Int(1e3)))
	}
	m["(time.Time).Sub"] = func(p *Path, fr *frame, a []Value) Value { return p.c.Sub(ext(a[0]), ext(a[1])) }
	m["(time.Time).Add"] = func(p *Path, fr *frame, a []Value) Value { return mk(p, p.c.Add(ext(a[0]), a[1].(*Expr))) }
	div := func(k int64) intrinsic {
		return func(p *Path, fr *frame, a []Value) Value { return p.c.Div(ext(a[0]), p.c.Int(k), true) }
	}
	m["(time.Time).Unix"] = div(1e9)
	m["(time.Time).UnixMilli"] = div(1e6)
	m["(time.Time).UnixMicro"] = div(1e3)
	m["(time.Time).UnixNano"] = func(p *Path, fr *frame, a []Value) Value { return ext(a[0]) }
	m["(time.Time).After"] = func(p *Path, fr *frame, a []Value) Value { return p.c.Slt(ext(a[1]), ext(a[0])) }
	m["(time.Time).Before"] = func(p *Path, fr *frame, a []Value) Value { return p.c.Slt(ext(a[0]), ext(a[1])) }
	m["(time.Time).Equal"] = func(p *Path, fr *frame, a []Value) Value { return p.c.Eq(ext(a[0]), ext(a[1])) }
	m["(time.Time).IsZero"] = func(p *Path, fr *frame, a []Value) Value { return p.c.Eq(ext(a[0]), p.c.Int(0)) }
	m["(time.Time).UTC"] = func(p *Path, fr *frame, a []Value) Value { return a[0] }
	m["(time.Time).Local"] = func(p *Path, fr *frame, a []Value) Value { return a[0] }
	m["(time.Time).Truncate"] = func(p *Path, fr *frame, a []Value) Value {
		d := a[1].(*Expr)
		return mk(p, p.c.Sub(ext(a[0]), p.c.Rem(ext(a[0]), d, true)))
	}
	m["(time.Time).Compare"] = func(p *Path, fr *frame, a []Value) Value {
		c := p.c
		return c.Ite(c.Slt(ext(a[0]), ext(a[1])), c.Int(-1), c.Ite(c.Eq(ext(a[0]), ext(a[1])), c.Int(0), c.Int(1)))
	}
}

// ---- hashes: concrete inputs are computed, symbolic ones are uninterpreted ----

func hashIntr(m map[string]intrinsic) {
	m["crypto/sha1.Sum"] = func(p *Path, fr *frame, a []Value) Value {
		return p.sha1(p.sliceToStr(a[0].(SliceV)))
	}
}

func pkgInits() map[string]func(*Path, *ssa.Package) {
	m := map[string]func(*Path, *ssa.Package){}
	for _, n := range []string{"runtime", "os", "net", "syscall", "time", "internal/poll", "reflect", "internal/reflectlite", "crypto/sha1", "log", "fmt", "golang.org/x/sys/unix", "internal/godebug", "sync", "internal/cpu", "internal/bytealg"} {
		m[n] = nil
	}
	// errors keeps one reflected type besides ErrUnsupported
	m["errors"] = func(p *Path, pkg *ssa.Package) {
		g, ok := pkg.Members["ErrUnsupported"].(*ssa.Global)
		fn := pkg.Func("New")
		if !ok || fn == nil {
			return
		}
		v := p.callFn(nil, fn, []Value{Str{c: "unsupported operation"}}, nil)
		p.store(p.global(g), v)
	}
	return m
}

// errorsAs looks for an error of the type target points to.
func errorsAs(p *Path, fr *frame, a []Value) Value {
	err, _ := a[0].(Iface)
	to, _ := a[1].(Iface)
	pt, ok := to.t.(*types.Pointer)
	if !ok {
		p.unsupported("errors.As target %v", to.t)
	}
	for err.t != nil {
		nt, native := err.t.(*nativeType)
		if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if !native && p.w.ex.implements(p.w, err.t, it) || native && it.NumMethods() == 0 {
				p.store(to.v, err)
				return p.c.True
			}
		} else if !native && sameType(err.t, pt.Elem()) {
			p.store(to.v, p.copyVal(err.v))
			return p.c.True
		}
		var next Value
		if native {
			if nt.methods["Unwrap"] == nil {
				break
			}
			next = nt.methods["Unwrap"](p, fr, []Value{err.v})
		} else {
			if !hasMethod(err.t, "Unwrap") {
				break
			}
			fn := p.w.ex.methodByName(err.t, "Unwrap")
			if fn == nil {
				break
			}
			next = p.callFn(fr, fn, []Value{p.copyVal(err.v)}, nil)
		}
		n, ok := next.(Iface)
		if !ok {
			p.unsupported("errors.As over joined errors")
		}
		err = n
	}
	return p.c.False
}

// sortSlice is an insertion sort with the caller's less.
func sortSlice(p *Path, fr *frame, a []Value) Value {
	x, _ := a[0].(Iface)
	sl, ok := x.v.(SliceV)
	st, ok2 := x.t.Underlying().(*types.Slice)
	if !ok || !ok2 {
		p.unsupported("sort.Slice of %v", x.t)
	}
	n := p.concretize(sl.len)
	for i := int64(1); i < int64(n); i++ {
		for j := i; j > 0; j-- {
			if !p.branch(p.call(fr, a[1], []Value{p.c.Int(j), p.c.Int(j - 1)}).(*Expr)) {
				break
			}
			q, r := p.indexAddr(sl, p.c.Int(j)), p.indexAddr(sl, p.c.Int(j-1))
			v, w := p.load(q, st.Elem()), p.load(r, st.Elem())
			p.store(q, w)
			p.store(r, v)
		}
	}
	return nil
}
