package main

// Values and memory.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Expr (bool, ints), float64, complex128, Str, pointers
// (*Cell, *ElemPtr, *CastPtr, Nil), SliceV, *MapV, Iface, *Closure, *Struct,
// *Mem (array of scalars), *ArrV (other arrays), Tuple, *Iter.
type Value interface{}

type Nil struct{}

type Cell struct{ v Value }

type Struct struct{ f []Cell }

type ArrV struct {
	e  []Cell
	et types.Type
}

type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	in  intrinsic // native function value
	nm  string
	bi  *ssa.Builtin
}

type ElemPtr struct {
	m   *Mem
	idx *Expr
	arr int64 // >=0: points to an array of that many elements starting at idx
}

type CastPtr struct {
	m   *Mem
	idx *Expr
	w   uint8
}

type SliceV struct {
	m             *Mem
	a             *ArrV
	off, len, cap *Expr
}

// Str is a string: concrete (m == nil) or a view of memory.
type Str struct {
	c   string
	m   *Mem
	off *Expr
	n   *Expr
}

type mapEnt struct {
	k, v Cell
	dead bool
}

type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // entries with concrete keys
	nsym int                // live entries with symbolic keys
	n    int
	id   int
}

type Iter struct {
	m   *MapV
	pos int
	s   *Str
	off *Expr
}

// ---- scalar memory ----

type nkind uint8

const (
	nZero nkind = iota
	nVec
	nStr
	nSym
	nStore
	nCopy
)

type MNode struct {
	k    nkind
	prev *MNode
	idx  *Expr // store index / copy destination offset
	val  *Expr // store value
	src  *MNode
	soff *Expr
	n    *Expr
	vec  []*Expr
	str  string
	name string
	d    int
	id   int
}

type Mem struct {
	head *MNode
	w    uint8
	id   int
	cow  bool  // head vec shared
	n    int64 // array length (arrays only)
}

func (p *Path) newMem(w uint8, head *MNode) *Mem {
	p.memID++
	return &Mem{head: head, w: w, id: p.memID}
}

func (p *Path) node(n MNode) *MNode {
	p.nodeID++
	n.id = p.nodeID
	if n.prev != nil {
		n.d = n.prev.d + 1
	}
	return &n
}

var zeroNode = &MNode{k: nZero}

func (p *Path) vecNode(v []*Expr) *MNode { return p.node(MNode{k: nVec, vec: v}) }

type rdKey struct {
	n   *MNode
	idx *Expr
}

// readNode reads element idx (64-bit term).
func (p *Path) readNode(n *MNode, idx *Expr, w uint8) *Expr {
	c := p.c
	for {
		switch n.k {
		case nZero:
			return c.Const(0, w)
		case nStr:
			if idx.isConst() {
				if idx.val >= uint64(len(n.str)) {
					return c.Const(0, w)
				}
				return c.Const(uint64(n.str[idx.val]), w)
			}
			lo, hi := idx.lo, idx.hi
			if lo < 0 {
				lo = 0
			}
			if hi >= int64(len(n.str)) {
				hi = int64(len(n.str)) - 1
			}
			if hi < lo {
				return c.Const(0, w)
			}
			r := c.Const(uint64(n.str[hi]), w)
			for i := hi - 1; i >= lo; i-- {
				r = c.Ite(c.Eq(idx, c.Int(i)), c.Const(uint64(n.str[i]), w), r)
			}
			return r
		case nVec:
			if idx.isConst() {
				if idx.val >= uint64(len(n.vec)) {
					return c.Const(0, w)
				}
				return n.vec[idx.val]
			}
			key := rdKey{n, idx}
			if r, ok := p.rdMemo[key]; ok {
				return r
			}
			lo, hi := idx.lo, idx.hi
			if lo < 0 {
				lo = 0
			}
			if hi >= int64(len(n.vec)) {
				hi = int64(len(n.vec)) - 1
			}
			if hi < lo {
				return c.Const(0, w)
			}
			r := n.vec[hi]
			for i := hi - 1; i >= lo; i-- {
				r = c.Ite(c.Eq(idx, c.Int(i)), n.vec[i], r)
			}
			p.rdMemo[key] = r
			p.vecRead[n] = true
			return r
		case nSym:
			return c.Read(n.name, idx, w)
		case nStore:
			e := c.Eq(n.idx, idx)
			if e.isTrue() {
				return n.val
			}
			if e.isFalse() {
				n = n.prev
				continue
			}
			if p.implied(e) {
				return n.val
			}
			if p.implied(c.Not(e)) {
				n = n.prev
				continue
			}
			key := rdKey{n, idx}
			if r, ok := p.rdMemo[key]; ok {
				return r
			}
			r := c.Ite(e, n.val, p.readNode(n.prev, idx, w))
			p.rdMemo[key] = r
			return r
		case nCopy:
			d := c.Sub(idx, n.idx)
			in := c.And(c.Sle(c.Int(0), d), c.Slt(d, n.n))
			if in.isTrue() {
				idx = c.Add(d, n.soff)
				n = n.src
				continue
			}
			if in.isFalse() {
				n = n.prev
				continue
			}
			if p.implied(in) {
				idx = c.Add(d, n.soff)
				n = n.src
				continue
			}
			if p.implied(c.Not(in)) {
				n = n.prev
				continue
			}
			key := rdKey{n, idx}
			if r, ok := p.rdMemo[key]; ok {
				return r
			}
			r := c.Ite(in, p.readNode(n.src, c.Add(d, n.soff), w), p.readNode(n.prev, idx, w))
			p.rdMemo[key] = r
			return r
		}
	}
}

func (p *Path) read(m *Mem, idx *Expr) *Expr { return p.readNode(m.head, idx, m.w) }

func (p *Path) write(m *Mem, idx, val *Expr) {
	if val.w != m.w {
		panic(fmt.Sprintf("write width %d into %d", val.w, m.w))
	}
	h := m.head
	if h.k == nVec && idx.isConst() && idx.val < uint64(len(h.vec)) {
		if m.cow {
			v := append([]*Expr(nil), h.vec...)
			m.head = p.vecNode(v)
			m.cow = false
			h = m.head
		}
		h.vec[idx.val] = val
		// the vector changed in place: drop memo by renewing the node identity
		if p.memoTouched(h) {
			m.head = p.vecNode(h.vec)
		}
		return
	}
	if h.k == nVec {
		m.cow = true
	}
	if h.k == nStore && idx == h.idx {
		h = h.prev
	}
	m.head = p.node(MNode{k: nStore, prev: h, idx: idx, val: val})
}

// memoTouched reports whether symbolic reads of this vector were memoised.
func (p *Path) memoTouched(h *MNode) bool { return p.vecRead[h] }

// share takes an immutable snapshot of m's contents.
func (m *Mem) share() *MNode {
	if m.head.k == nVec {
		m.cow = true
	}
	return m.head
}

func (p *Path) copyMem(m *Mem) *Mem {
	n := p.newMem(m.w, m.share())
	n.cow = m.cow
	n.n = m.n
	return n
}

// copyRange: dst[doff:doff+n] = src[soff:soff+n] (src snapshot)
func (p *Path) copyRange(dst *Mem, doff *Expr, src *MNode, soff, n *Expr) {
	if n.isConst() && n.val == 0 {
		return
	}
	// short concrete copies into vectors stay vectors
	if n.isConst() && doff.isConst() && n.val <= 64 && dst.head.k == nVec && doff.val+n.val <= uint64(len(dst.head.vec)) {
		tmp := make([]*Expr, n.val)
		for i := range tmp {
			tmp[i] = p.readNode(src, p.c.Add(soff, p.c.Int(int64(i))), dst.w)
		}
		for i, e := range tmp {
			p.write(dst, p.c.Int(int64(doff.val)+int64(i)), e)
		}
		return
	}
	// collapse chains of copies: copying from a copy that surely covers the range
	for src.k == nCopy {
		d := p.c.Sub(soff, src.idx)
		in := p.c.And(p.c.Sle(p.c.Int(0), d), p.c.Sle(p.c.Add(d, n), src.n))
		if in.isTrue() || (!in.isFalse() && p.implied(in)) {
			soff = p.c.Add(d, src.soff)
			src = src.src
			continue
		}
		break
	}
	h := dst.head
	if h.k == nVec {
		dst.cow = true
	}
	dst.head = p.node(MNode{k: nCopy, prev: h, idx: doff, src: src, soff: soff, n: n})
}

// ---- helpers on types ----

func scalarWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (p *Path) zero(t types.Type) Value {
	if w, ok := scalarWidth(t); ok {
		return p.c.Const(0, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
		return Nil{} // unsafe.Pointer, untyped nil
	case *types.Struct:
		s := &Struct{f: make([]Cell, u.NumFields())}
		for i := range s.f {
			s.f[i].v = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if w, ok := scalarWidth(u.Elem()); ok {
			if u.Len() <= 64 {
				v := make([]*Expr, u.Len())
				z := p.c.Const(0, w)
				for i := range v {
					v[i] = z
				}
				m := p.newMem(w, p.vecNode(v))
				m.n = u.Len()
				return m
			}
			m := p.newMem(w, zeroNode)
			m.n = u.Len()
			return m
		}
		return &ArrV{e: make([]Cell, u.Len()), et: u.Elem()}
	case *types.Slice:
		z := p.c.Int(0)
		return SliceV{off: z, len: z, cap: z}
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = p.zero(u.At(i).Type())
		}
		return tp
	}
	return Nil{}
}

func (p *Path) cell(a *ArrV, i int) *Cell {
	c := &a.e[i]
	if c.v == nil {
		c.v = p.zero(a.et)
	}
	return c
}

func (p *Path) copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Cell, len(x.f))}
		for i := range x.f {
			n.f[i].v = p.copyVal(x.f[i].v)
		}
		return n
	case *Mem:
		return p.copyMem(x)
	case *ArrV:
		n := &ArrV{e: make([]Cell, len(x.e)), et: x.et}
		for i := range x.e {
			if x.e[i].v != nil {
				n.e[i].v = p.copyVal(x.e[i].v)
			}
		}
		return n
	}
	return v
}

// storeCell assigns v to the variable c, in place for aggregates.
func (p *Path) storeCell(c *Cell, v Value) {
	switch x := v.(type) {
	case *Struct:
		d, ok := c.v.(*Struct)
		if !ok {
			c.v = p.copyVal(x)
			return
		}
		if d == x {
			return
		}
		for i := range x.f {
			p.storeCell(&d.f[i], x.f[i].v)
		}
	case *Mem:
		d, ok := c.v.(*Mem)
		if !ok {
			c.v = p.copyMem(x)
			return
		}
		if d != x {
			d.head = x.share()
			d.cow = x.cow
		}
	case *ArrV:
		d, ok := c.v.(*ArrV)
		if !ok {
			c.v = p.copyVal(x)
			return
		}
		if d != x {
			for i := range x.e {
				if x.e[i].v == nil {
					d.e[i].v = nil
				} else {
					p.storeCell(p.cell(d, i), x.e[i].v)
				}
			}
		}
	default:
		c.v = v
	}
}
