package main

// Hash-consed bit-vector / boolean terms with simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ORead // uninterpreted byte source: name(idx)
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OSum // n-ary linear sum
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OZExt
	OSExt
	OExtract
	OConcat
)

type Term struct {
	c uint64
	e *Expr
}

// Expr is a term. Width 0 means boolean.
type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	val     uint64 // constant, extract low bit
	name    string
	terms   []Term // OSum (val holds the constant part)
	id      int
	lo, hi  int64 // signed interval, always valid (for w>0)
	evGen   int
	evVal   uint64
	emitted int // solver generation in which it was defined
	seenGen int
	sup     map[string]struct{}
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
	name    string
}

// Ctx owns terms; one per worker.
type Ctx struct {
	tab   map[ekey]*Expr
	n     int
	True  *Expr
	False *Expr
	gen   int // evaluation generation
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}}
	c.False = c.mk(Expr{op: OConst, w: 0, val: 0})
	c.True = c.mk(Expr{op: OConst, w: 0, val: 1})
	return c
}

func eid(e *Expr) int {
	if e == nil {
		return -1
	}
	return e.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func minS(w uint8) int64 { return -1 << (w - 1) }
func maxS(w uint8) int64 { return int64(mask(w) >> 1) }

func (c *Ctx) mk(e Expr) *Expr {
	k := ekey{e.op, e.w, eid(e.a), eid(e.b), eid(e.c), e.val, e.name}
	if e.op == OSum {
		var sb strings.Builder
		for _, t := range e.terms {
			fmt.Fprintf(&sb, "%d*%d,", t.c, t.e.id)
		}
		k.name = sb.String()
	}
	if x, ok := c.tab[k]; ok {
		return x
	}
	x := new(Expr)
	*x = e
	x.id = c.n
	c.n++
	if x.w > 0 {
		if x.op != OVar {
			x.lo, x.hi = rangeOf(x)
		}
	}
	c.tab[k] = x
	return x
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	return p, p/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63)
}

func rangeOf(x *Expr) (int64, int64) {
	mn, mx := minS(x.w), maxS(x.w)
	switch x.op {
	case OConst:
		v := sext(x.val, x.w)
		return v, v
	case OIte:
		lo, hi := x.b.lo, x.b.hi
		if x.c.lo < lo {
			lo = x.c.lo
		}
		if x.c.hi > hi {
			hi = x.c.hi
		}
		return lo, hi
	case OSum:
		lo := sext(x.val, x.w)
		hi := lo
		for _, t := range x.terms {
			k := sext(t.c, x.w)
			l, o1 := mulOv(k, t.e.lo)
			h, o2 := mulOv(k, t.e.hi)
			if o1 || o2 {
				return mn, mx
			}
			if l > h {
				l, h = h, l
			}
			var o3, o4 bool
			lo, o3 = addOv(lo, l)
			hi, o4 = addOv(hi, h)
			if o3 || o4 {
				return mn, mx
			}
		}
		if lo < mn || hi > mx {
			return mn, mx
		}
		return lo, hi
	case OZExt:
		if x.a.lo >= 0 {
			return x.a.lo, x.a.hi
		}
		if x.a.w >= 64 {
			return mn, mx
		}
		return 0, int64(mask(x.a.w))
	case OSExt:
		return x.a.lo, x.a.hi
	case OExtract:
		if x.val == 0 && x.a.lo >= 0 && x.a.hi <= mx {
			return x.a.lo, x.a.hi
		}
	case OBAnd:
		if x.b.op == OConst && sext(x.b.val, x.w) >= 0 {
			return 0, sext(x.b.val, x.w)
		}
		if x.a.lo >= 0 {
			if x.b.lo >= 0 && x.b.hi < x.a.hi {
				return 0, x.b.hi
			}
			return 0, x.a.hi
		}
		if x.b.lo >= 0 {
			return 0, x.b.hi
		}
	case OBOr, OBXor:
		if x.a.lo >= 0 && x.b.lo >= 0 {
			m := uint64(x.a.hi | x.b.hi)
			n := bits.Len64(m)
			return 0, int64(uint64(1)<<n - 1)
		}
	case OURem:
		if x.b.lo > 0 && x.a.lo >= 0 {
			h := x.b.hi - 1
			if x.a.hi < h {
				h = x.a.hi
			}
			return 0, h
		}
	case OSRem:
		if x.b.lo > 0 && x.a.lo >= 0 {
			h := x.b.hi - 1
			if x.a.hi < h {
				h = x.a.hi
			}
			return 0, h
		}
		if x.b.lo > 0 {
			return -(x.b.hi - 1), x.b.hi - 1
		}
	case OUDiv, OSDiv:
		if x.a.lo >= 0 && x.b.op == OConst && sext(x.b.val, x.w) > 0 {
			d := sext(x.b.val, x.w)
			return x.a.lo / d, x.a.hi / d
		}
		if x.op == OSDiv && x.b.op == OConst && sext(x.b.val, x.w) > 0 {
			d := sext(x.b.val, x.w)
			return x.a.lo / d, x.a.hi / d
		}
	case OLShr:
		if x.a.lo >= 0 && x.b.op == OConst && x.b.val < 64 {
			return x.a.lo >> x.b.val, x.a.hi >> x.b.val
		}
		if x.a.lo >= 0 {
			return 0, x.a.hi
		}
		if x.b.op == OConst && x.b.val > 0 && x.b.val < uint64(x.w) {
			return 0, int64(mask(x.w) >> x.b.val)
		}
	case OAShr:
		if x.b.op == OConst && x.b.val < 64 {
			return x.a.lo >> x.b.val, x.a.hi >> x.b.val
		}
		if x.a.lo >= 0 {
			return 0, x.a.hi
		}
	case OShl:
		if x.b.op == OConst && x.b.val < uint64(x.w)-1 && x.a.lo >= 0 && x.a.hi <= mx>>x.b.val {
			return x.a.lo << x.b.val, x.a.hi << x.b.val
		}
	case OConcat:
		if x.a.lo >= 0 && x.b.w < 63 {
			return x.a.lo << x.b.w, x.a.hi<<x.b.w | int64(mask(x.b.w))
		}
	case OMul:
		if x.a.lo >= 0 && x.b.lo >= 0 {
			h, o := mulOv(x.a.hi, x.b.hi)
			if !o && h <= mx {
				l, _ := mulOv(x.a.lo, x.b.lo)
				return l, h
			}
		}
	}
	return mn, mx
}

func (c *Ctx) Const(v uint64, w uint8) *Expr {
	return c.mk(Expr{op: OConst, w: w, val: v & mask(w)})
}
func (c *Ctx) Int(v int64) *Expr { return c.Const(uint64(v), 64) }
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

// Var declares (or returns) a variable with a signed interval known to hold.
func (c *Ctx) Var(name string, w uint8, lo, hi int64) *Expr {
	// The range is part of the name: models travel between workers by name, and the
	// same position may have different ranges on different paths.
	if lo != 0 || hi != 0 {
		name = fmt.Sprintf("%s~%d~%d", name, lo, hi)
	}
	k := ekey{OVar, w, -1, -1, -1, 0, name}
	if x, ok := c.tab[k]; ok {
		return x
	}
	x := c.mk(Expr{op: OVar, w: w, name: name})
	x.lo, x.hi = lo, hi
	return x
}

func (c *Ctx) Read(name string, idx *Expr, w uint8) *Expr {
	return c.mk(Expr{op: ORead, w: w, a: idx, name: name})
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }
func (e *Expr) sval() int64   { return sext(e.val, e.w) }

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.a
	}
	return c.mk(Expr{op: ONot, a: a})
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return c.False
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Expr{op: OAnd, a: a, b: b})
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return c.True
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Expr{op: OOr, a: a, b: b})
}

func (c *Ctx) Implies(a, b *Expr) *Expr { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(Expr{op: OIte, w: a.w, a: cond, b: a, c: b})
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return c.False
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			// ite with constant arms
			if a.op == OIte && (a.b.isConst() || a.c.isConst()) {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
			if a.op == OZExt {
				if b.val > mask(a.a.w) {
					return c.False
				}
				return c.Eq(a.a, c.Const(b.val, a.a.w))
			}
		}
		if a.op == OSum || b.op == OSum {
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(d.val == 0)
			}
			if d.op != OSum && d.w == a.w {
				if d.lo > 0 || d.hi < 0 {
					return c.False
				}
				a, b = d, c.Const(0, d.w)
			} else if d.op == OSum {
				if d.lo > 0 || d.hi < 0 {
					return c.False
				}
				if len(d.terms) == 1 && (d.terms[0].c == 1 || d.terms[0].c == mask(d.w)) {
					k := d.val
					if d.terms[0].c == 1 {
						k = -k
					}
					return c.Eq(d.terms[0].e, c.Const(k, d.w))
				}
				// canonical orientation
				neg := c.Neg(d)
				if neg.id < d.id {
					d = neg
				}
				return c.mk(Expr{op: OEq, a: d, b: c.Const(0, d.w)})
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		a, b = b, a
	}
	return c.mk(Expr{op: OEq, a: a, b: b})
}

func urange(a *Expr) (uint64, uint64) {
	if a.lo >= 0 {
		return uint64(a.lo), uint64(a.hi)
	}
	if a.hi < 0 {
		return uint64(a.lo) & mask(a.w), uint64(a.hi) & mask(a.w)
	}
	return 0, mask(a.w)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a.w != b.w {
		panic("Ult width")
	}
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	al, ah := urange(a)
	bl, bh := urange(b)
	if ah < bl {
		return c.True
	}
	if al >= bh {
		return c.False
	}
	if a.lo >= 0 && b.lo >= 0 {
		return c.Slt(a, b)
	}
	return c.mk(Expr{op: OUlt, a: a, b: b})
}
func (c *Ctx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a.w != b.w {
		panic("Slt width")
	}
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	// both sides small enough: decide and normalise through the difference
	if a.w >= 2 {
		q := int64(1) << (a.w - 2)
		if a.lo >= -q && a.hi < q && b.lo >= -q && b.hi < q && (a.op == OSum || b.op == OSum) {
			d := c.Sub(a, b) // in range, no overflow
			if d.hi < 0 {
				return c.True
			}
			if d.lo >= 0 {
				return c.False
			}
			if d.op == OSum {
				// move the constant and negative terms to the right: positives < negatives - const
				var pos, neg []Term
				m := mask(d.w)
				for _, t := range d.terms {
					if sext(t.c, d.w) > 0 {
						pos = append(pos, t)
					} else {
						neg = append(neg, Term{(-t.c) & m, t.e})
					}
				}
				k := sext(d.val, d.w)
				var l, r *Expr
				if k <= 0 {
					l = c.sum(pos, 0, d.w)
					r = c.sum(neg, uint64(-k), d.w)
				} else {
					l = c.sum(pos, uint64(k), d.w)
					r = c.sum(neg, 0, d.w)
				}
				// the split sums must not overflow either
				if okRange(l) && okRange(r) {
					if l.hi < r.lo {
						return c.True
					}
					if l.lo >= r.hi {
						return c.False
					}
					return c.mk(Expr{op: OSlt, a: l, b: r})
				}
			}
		}
	}
	return c.mk(Expr{op: OSlt, a: a, b: b})
}

func okRange(e *Expr) bool {
	return e.lo > minS(e.w) && e.hi < maxS(e.w)
}
func (c *Ctx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

// linear decomposition
func (c *Ctx) lin(e *Expr, k uint64, acc map[*Expr]uint64, cst *uint64) {
	m := mask(e.w)
	switch e.op {
	case OConst:
		*cst = (*cst + k*e.val) & m
	case OSum:
		*cst = (*cst + k*e.val) & m
		for _, t := range e.terms {
			acc[t.e] = (acc[t.e] + k*t.c) & m
		}
	default:
		acc[e] = (acc[e] + k) & m
	}
}

func (c *Ctx) sum(ts []Term, cst uint64, w uint8) *Expr {
	if len(ts) == 0 {
		return c.Const(cst, w)
	}
	if len(ts) == 1 && ts[0].c == 1 && cst == 0 {
		return ts[0].e
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].e.id < ts[j].e.id })
	return c.mk(Expr{op: OSum, w: w, terms: ts, val: cst & mask(w)})
}

func (c *Ctx) fromLin(acc map[*Expr]uint64, cst uint64, w uint8) *Expr {
	ts := make([]Term, 0, len(acc))
	for e, k := range acc {
		if k != 0 {
			ts = append(ts, Term{k, e})
		}
	}
	return c.sum(ts, cst, w)
}

func (c *Ctx) addK(a *Expr, ka uint64, b *Expr, kb uint64) *Expr {
	if a.w != b.w {
		panic("add width")
	}
	if a.isConst() && b.isConst() {
		return c.Const(a.val*ka+b.val*kb, a.w)
	}
	acc := map[*Expr]uint64{}
	var cst uint64
	c.lin(a, ka, acc, &cst)
	c.lin(b, kb, acc, &cst)
	return c.fromLin(acc, cst, a.w)
}
func (c *Ctx) Add(a, b *Expr) *Expr { return c.addK(a, 1, b, 1) }
func (c *Ctx) Sub(a, b *Expr) *Expr { return c.addK(a, 1, b, mask(b.w)) }
func (c *Ctx) Neg(a *Expr) *Expr    { return c.Sub(c.Const(0, a.w), a) }

func (c *Ctx) Mul(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Const(a.val*b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		acc := map[*Expr]uint64{}
		var cst uint64
		c.lin(a, b.val, acc, &cst)
		return c.fromLin(acc, cst, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Expr{op: OMul, w: a.w, a: a, b: b})
}

func ulog2(v uint64) (uint64, bool) {
	if v != 0 && v&(v-1) == 0 {
		return uint64(bits.TrailingZeros64(v)), true
	}
	return 0, false
}

func (c *Ctx) Div(a, b *Expr, signed bool) *Expr {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			if signed {
				if b.sval() == -1 {
					return c.Neg(a)
				}
				return c.Const(uint64(a.sval()/b.sval()), a.w)
			}
			return c.Const(a.val/b.val, a.w)
		}
		if b.val == 1 {
			return a
		}
		if k, ok := ulog2(b.val); ok && (!signed || a.lo >= 0) {
			return c.Shift(OLShr, a, c.Const(k, a.w))
		}
	}
	if signed && a.lo >= 0 && b.lo >= 0 {
		signed = false
	}
	if signed {
		return c.mk(Expr{op: OSDiv, w: a.w, a: a, b: b})
	}
	if a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
		return c.Const(0, a.w)
	}
	return c.mk(Expr{op: OUDiv, w: a.w, a: a, b: b})
}

func (c *Ctx) Rem(a, b *Expr, signed bool) *Expr {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			if signed {
				if b.sval() == -1 {
					return c.Const(0, a.w)
				}
				return c.Const(uint64(a.sval()%b.sval()), a.w)
			}
			return c.Const(a.val%b.val, a.w)
		}
		if b.val == 1 {
			return c.Const(0, a.w)
		}
		if _, ok := ulog2(b.val); ok && (!signed || a.lo >= 0) {
			return c.BAnd(a, c.Const(b.val-1, a.w))
		}
	}
	if signed && a.lo >= 0 && b.lo >= 0 {
		signed = false
	}
	if !signed && a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
		return a
	}
	if signed {
		return c.mk(Expr{op: OSRem, w: a.w, a: a, b: b})
	}
	return c.mk(Expr{op: OURem, w: a.w, a: a, b: b})
}

func (c *Ctx) Shift(op Op, a, n *Expr) *Expr {
	if n.isConst() {
		if n.val == 0 {
			return a
		}
		if n.val >= uint64(a.w) {
			if op == OAShr {
				n = c.Const(uint64(a.w-1), n.w)
			} else {
				return c.Const(0, a.w)
			}
		}
		if a.isConst() {
			switch op {
			case OShl:
				return c.Const(a.val<<n.val, a.w)
			case OLShr:
				return c.Const(a.val>>n.val, a.w)
			default:
				return c.Const(uint64(a.sval()>>n.val), a.w)
			}
		}
		if op == OShl { // as a multiplication keeps sums linear
			return c.shl(a, n.val)
		}
		if op == OAShr && a.lo >= 0 {
			op = OLShr
		}
		if op == OLShr {
			// structural: shift right of zext/concat
			if a.op == OZExt && n.val >= uint64(a.a.w) {
				return c.Const(0, a.w)
			}
			return c.ZExt(c.Extract(a, uint8(n.val), a.w-uint8(n.val)), a.w)
		}
	}
	return c.mk(Expr{op: op, w: a.w, a: a, b: n})
}

// shl by a constant: concat(extract, 0)
func (c *Ctx) shl(a *Expr, n uint64) *Expr {
	if a.op == OZExt || a.op == OExtract || a.op == OConcat || a.op == ORead || a.op == OBOr || a.op == OBAnd || a.op == OIte || a.op == OBXor {
		return c.Concat(c.Extract(a, 0, a.w-uint8(n)), c.Const(0, uint8(n)))
	}
	return c.Mul(a, c.Const(uint64(1)<<n, a.w))
}

func (c *Ctx) BAnd(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.val&b.val, a.w)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// contiguous mask: concat(0, extract, 0)
		tz := bits.TrailingZeros64(b.val)
		if m := b.val >> tz; m&(m+1) == 0 {
			n := uint8(bits.Len64(m))
			x := c.ZExt(c.Extract(a, uint8(tz), n), a.w-uint8(tz))
			if tz > 0 {
				x = c.Concat(x, c.Const(0, uint8(tz)))
			}
			return x
		}
		if a.lo >= 0 && bits.Len64(uint64(a.hi)) <= bits.TrailingZeros64(b.val) {
			return c.Const(0, a.w)
		}
	}
	if a == b {
		return a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Expr{op: OBAnd, w: a.w, a: a, b: b})
}

// bitParts gives the mask of bits that may be non-zero.
func maybeBits(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OZExt:
		return maybeBits(e.a)
	case OConcat:
		return maybeBits(e.a)<<e.b.w | maybeBits(e.b)
	case OBOr, OBXor:
		return maybeBits(e.a) | maybeBits(e.b)
	case OBAnd:
		return maybeBits(e.a) & maybeBits(e.b)
	case OIte:
		return maybeBits(e.b) | maybeBits(e.c)
	case OExtract:
		return (maybeBits(e.a) >> e.val) & mask(e.w)
	}
	if e.w > 0 && e.lo >= 0 {
		n := bits.Len64(uint64(e.hi))
		if n >= 64 {
			return mask(e.w)
		}
		return (uint64(1)<<n - 1) & mask(e.w)
	}
	return mask(e.w)
}

func (c *Ctx) BOr(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.val|b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	// disjoint parts: assemble bytes with concat
	ma, mb := maybeBits(a), maybeBits(b)
	if ma&mb == 0 && ma != 0 && mb != 0 {
		// split at the lowest bit of the higher part if clean
		hi, lo, mh, ml := a, b, ma, mb
		if ma < mb {
			hi, lo, mh, ml = b, a, mb, ma
		}
		s := bits.Len64(ml)
		if bits.TrailingZeros64(mh) >= s && s < int(a.w) {
			return c.Concat(c.Extract(hi, uint8(s), a.w-uint8(s)), c.Extract(lo, 0, uint8(s)))
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Expr{op: OBOr, w: a.w, a: a, b: b})
}

func (c *Ctx) BXor(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.val^b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return c.BNot(a)
		}
	}
	if a == b {
		return c.Const(0, a.w)
	}
	if a.op == OBXor {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if b.op == OBXor {
		if b.a == a {
			return b.b
		}
		if b.b == a {
			return b.a
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(Expr{op: OBXor, w: a.w, a: a, b: b})
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(^a.val, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(Expr{op: OBNot, w: a.w, a: a})
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	if a.isConst() {
		return c.Const(a.val, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.c, w))
	}
	// zext of a truncation that loses nothing
	if a.op == OExtract && a.val == 0 && a.a.w == w && a.a.lo >= 0 && uint64(a.a.hi) <= mask(a.w) {
		return a.a
	}
	return c.mk(Expr{op: OZExt, w: w, a: a})
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, 0, w)
	}
	if a.isConst() {
		return c.Const(uint64(a.sval()), w)
	}
	if a.lo >= 0 {
		return c.ZExt(a, w)
	}
	if a.op == OExtract && a.val == 0 && a.a.w == w && a.a.lo >= minS(a.w) && a.a.hi <= maxS(a.w) {
		return a.a
	}
	return c.mk(Expr{op: OSExt, w: w, a: a})
}

func (c *Ctx) Extract(a *Expr, lo uint8, w uint8) *Expr {
	if lo == 0 && w == a.w {
		return a
	}
	if lo+w > a.w {
		panic("extract")
	}
	switch a.op {
	case OConst:
		return c.Const(a.val>>lo, w)
	case OExtract:
		return c.Extract(a.a, uint8(a.val)+lo, w)
	case OZExt:
		if lo >= a.a.w {
			return c.Const(0, w)
		}
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		return c.ZExt(c.Extract(a.a, lo, a.a.w-lo), w)
	case OConcat:
		if lo >= a.b.w {
			return c.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return c.Extract(a.b, lo, w)
		}
		return c.Concat(c.Extract(a.a, 0, lo+w-a.b.w), c.Extract(a.b, lo, a.b.w-lo))
	case OBAnd:
		return c.BAnd(c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OBOr:
		return c.BOr(c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OBXor:
		return c.BXor(c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	}
	if lo > 0 && a.lo >= 0 && bits.Len64(uint64(a.hi)) <= int(lo) {
		return c.Const(0, w)
	}
	return c.mk(Expr{op: OExtract, w: w, a: a, val: uint64(lo)})
}

func (c *Ctx) Concat(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Const(a.val<<b.w|b.val, a.w+b.w)
	}
	if a.isConst() && a.val == 0 {
		return c.ZExt(b, a.w+b.w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.val == b.val+uint64(b.w) {
		return c.Extract(a.a, uint8(b.val), a.w+b.w)
	}
	if a.op == OZExt {
		return c.ZExt(c.Concat(a.a, b), a.w+b.w)
	}
	// right-associate and merge neighbouring extracts
	if b.op == OConcat && a.op == OExtract && b.a.op == OExtract && a.a == b.a.a && a.val == b.a.val+uint64(b.a.w) {
		return c.Concat(c.Extract(a.a, uint8(b.a.val), a.w+b.a.w), b.b)
	}
	if a.op == OConcat {
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	return c.mk(Expr{op: OConcat, w: a.w + b.w, a: a, b: b})
}

// ---- evaluation under a model ----

type Model struct {
	vars  map[string]uint64
	reads map[string]map[uint64]uint64
}

func newModel() *Model {
	return &Model{vars: map[string]uint64{}, reads: map[string]map[uint64]uint64{}}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval evaluates e; gen must be fresh whenever the model changes.
func (m *Model) Eval(e *Expr, gen int) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.evGen == gen {
		return e.evVal
	}
	var v uint64
	w := e.w
	switch e.op {
	case OVar:
		x, ok := m.vars[e.name]
		if !ok && w > 0 {
			x = 0
			if e.lo > 0 || e.hi < 0 {
				x = uint64(e.lo)
			}
		}
		v = x
	case ORead:
		v = m.reads[e.name][m.Eval(e.a, gen)]
	case ONot:
		v = 1 - m.Eval(e.a, gen)
	case OAnd:
		v = m.Eval(e.a, gen) & m.Eval(e.b, gen)
	case OOr:
		v = m.Eval(e.a, gen) | m.Eval(e.b, gen)
	case OEq:
		v = b2u(m.Eval(e.a, gen) == m.Eval(e.b, gen))
	case OUlt:
		v = b2u(m.Eval(e.a, gen) < m.Eval(e.b, gen))
	case OSlt:
		v = b2u(sext(m.Eval(e.a, gen), e.a.w) < sext(m.Eval(e.b, gen), e.b.w))
	case OIte:
		if m.Eval(e.a, gen) != 0 {
			v = m.Eval(e.b, gen)
		} else {
			v = m.Eval(e.c, gen)
		}
	case OSum:
		v = e.val
		for _, t := range e.terms {
			v += t.c * m.Eval(t.e, gen)
		}
	case OMul:
		v = m.Eval(e.a, gen) * m.Eval(e.b, gen)
	case OUDiv:
		a, b := m.Eval(e.a, gen), m.Eval(e.b, gen)
		if b == 0 {
			v = mask(w)
		} else {
			v = a / b
		}
	case OURem:
		a, b := m.Eval(e.a, gen), m.Eval(e.b, gen)
		if b == 0 {
			v = a
		} else {
			v = a % b
		}
	case OSDiv:
		a, b := sext(m.Eval(e.a, gen), w), sext(m.Eval(e.b, gen), w)
		if b == 0 {
			if a >= 0 {
				v = mask(w)
			} else {
				v = 1
			}
		} else if b == -1 {
			v = uint64(-a)
		} else {
			v = uint64(a / b)
		}
	case OSRem:
		a, b := sext(m.Eval(e.a, gen), w), sext(m.Eval(e.b, gen), w)
		if b == 0 {
			v = uint64(a)
		} else if b == -1 {
			v = 0
		} else {
			v = uint64(a % b)
		}
	case OShl:
		a, b := m.Eval(e.a, gen), m.Eval(e.b, gen)
		if b < uint64(w) {
			v = a << b
		}
	case OLShr:
		a, b := m.Eval(e.a, gen), m.Eval(e.b, gen)
		if b < uint64(w) {
			v = a >> b
		}
	case OAShr:
		a, b := sext(m.Eval(e.a, gen), w), m.Eval(e.b, gen)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		v = uint64(a >> b)
	case OBAnd:
		v = m.Eval(e.a, gen) & m.Eval(e.b, gen)
	case OBOr:
		v = m.Eval(e.a, gen) | m.Eval(e.b, gen)
	case OBXor:
		v = m.Eval(e.a, gen) ^ m.Eval(e.b, gen)
	case OBNot:
		v = ^m.Eval(e.a, gen)
	case OZExt:
		v = m.Eval(e.a, gen)
	case OSExt:
		v = uint64(sext(m.Eval(e.a, gen), e.a.w))
	case OExtract:
		v = m.Eval(e.a, gen) >> e.val
	case OConcat:
		v = m.Eval(e.a, gen)<<e.b.w | m.Eval(e.b, gen)
	default:
		panic("eval op")
	}
	if w > 0 {
		v &= mask(w)
	}
	e.evGen, e.evVal = gen, v
	return v
}

func (e *Expr) String() string {
	return e.str(6)
}

func (e *Expr) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch e.op {
	case OConst:
		if e.w == 0 {
			return fmt.Sprint(e.val == 1)
		}
		return fmt.Sprint(e.sval())
	case OVar:
		return e.name
	case ORead:
		return fmt.Sprintf("%s[%s]", e.name, e.a.str(d-1))
	case OSum:
		var sb strings.Builder
		sb.WriteString("(")
		for i, t := range e.terms {
			if i > 0 {
				sb.WriteString("+")
			}
			if t.c != 1 {
				fmt.Fprintf(&sb, "%d*", sext(t.c, e.w))
			}
			sb.WriteString(t.e.str(d - 1))
		}
		fmt.Fprintf(&sb, "%+d)", sext(e.val, e.w))
		return sb.String()
	}
	names := map[Op]string{ONot: "!", OAnd: "&&", OOr: "||", OEq: "==", OUlt: "<u", OSlt: "<", OIte: "ite", OMul: "*", OUDiv: "/u", OSDiv: "/", OURem: "%u", OSRem: "%", OShl: "<<", OLShr: ">>u", OAShr: ">>", OBAnd: "&", OBOr: "|", OBXor: "^", OBNot: "~", OZExt: "zx", OSExt: "sx", OExtract: "ex", OConcat: "++"}
	s := names[e.op] + "("
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += x.str(d-1) + " "
		}
	}
	return strings.TrimSpace(s) + ")"
}
