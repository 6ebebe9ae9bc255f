package main

import (
	"crypto/sha1"
)

// sha1 computes the digest of a concrete string; for a symbolic one it returns
// unconstrained bytes, the same bytes for equal inputs.
func (p *Path) sha1(s Str) Value {
	if c, ok := p.concStr(s); ok {
		d := sha1.Sum([]byte(c))
		v := make([]*Expr, len(d))
		for i, b := range d {
			v[i] = p.c.Const(uint64(b), 8)
		}
		return p.arr(v)
	}
	n := p.concretize(p.strLen(s))
	in := make([]*Expr, n)
	for i := range in {
		in[i] = p.strAt(s, p.c.Int(int64(i)))
	}
	out := p.ndName("sha1!")
	v := make([]*Expr, 20)
	for i := range v {
		v[i] = p.c.Read(out, p.c.Int(int64(i)), 8)
	}
	for _, r := range p.sha {
		if len(r.in) != len(in) {
			continue
		}
		eq := p.c.True
		for i := range in {
			eq = p.c.And(eq, p.c.Eq(in[i], r.in[i]))
		}
		for i := range v {
			v[i] = p.c.Ite(eq, p.c.Read(r.out, p.c.Int(int64(i)), 8), v[i])
		}
	}
	p.sha = append(p.sha, shaRec{in, out})
	p.imprecise = true
	return p.arr(v)
}

func (p *Path) arr(v []*Expr) *Mem {
	m := p.newMem(8, p.vecNode(v))
	m.n = int64(len(v))
	return m
}
