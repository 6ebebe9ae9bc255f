// Package c11: the key/value store of a connection.
package c11

import (
	"github.com/Allenxuxu/gev"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
)

type entry struct {
	k string
	v int // -1: nil
}

// lookup finds k in the model.
func lookup(m []entry, k string) int {
	for i, e := range m {
		if e.k == k {
			return i
		}
	}
	return -1
}

func check(c *gev.KeyValueContext, m []entry, k string) {
	v, ok := c.Get(k)
	i := lookup(m, k)
	verif.Assert(ok == (i >= 0), "presence of a key")
	if i >= 0 {
		if m[i].v < 0 {
			verif.Assert(v == nil, "value of a key")
			return
		}
		n, isInt := v.(int)
		verif.Assert(isInt, "type of the value")
		verif.Assert(n == m[i].v, "value of a key")
	} else {
		verif.Assert(v == nil, "no value for an absent key")
	}
}

// Seq: any sequence of operations on keys of any content.
func Seq() {
	var c gev.KeyValueContext
	seq(&c, verif.Tier(4, 5))
	verif.Reach("done")
}

func seq(c *gev.KeyValueContext, n int) {
	var m []entry
	var keys []string
	for i := 0; i < n; i++ {
		k := string(verif.Bytes("key", verif.Choose("len", 3)))
		keys = append(keys, k)
		j := lookup(m, k)
		op := verif.Choose("op", 4)
		switch op {
		case 0, 3:
			v := -1
			if op == 0 {
				v = verif.Int("value", 0, 1<<40)
				c.Set(k, v)
			} else {
				c.Set(k, nil)
			}
			if j >= 0 {
				m[j].v = v
			} else {
				m = append(m, entry{k, v})
			}
		case 1:
			c.Delete(k)
			if j >= 0 {
				m = append(m[:j:j], m[j+1:]...)
			}
		case 2:
			check(c, m, k)
		}
	}
	for _, k := range keys {
		check(c, m, k)
	}
}

type handler struct {
	conns []*gev.Connection
}

func (h *handler) OnConnect(c *gev.Connection) {
	h.conns = append(h.conns, c)
	_, ok := c.Get("k")
	verif.Assert(!ok, "a new connection has no values")
	verif.Assert(c.Context() == nil, "a new connection has no context")
	c.Set("k", len(h.conns))
}
func (h *handler) OnClose(c *gev.Connection) {}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	return nil
}

// Conns: the stores of different connections are separate, also one after the other.
func Conns() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1))
	a := s.Accept()
	b := s.Accept()
	if len(h.conns) != 2 {
		verif.Assert(false, "two connections")
		return
	}
	ka := string(verif.Bytes("ka", verif.Choose("la", 3)))
	kb := string(verif.Bytes("kb", verif.Choose("lb", 3)))
	xa, xb := verif.Int("xa", 0, 1<<40), verif.Int("xb", 0, 1<<40)
	h.conns[0].SetContext(xa)
	if verif.Choose("both", 2) == 1 {
		h.conns[1].SetContext(-1)
		h.conns[1].SetContext(xb)
		verif.Assert(h.conns[1].Context() == interface{}(xb), "the context set last")
	} else {
		verif.Assert(h.conns[1].Context() == nil, "the context of another connection")
	}
	verif.Assert(h.conns[0].Context() == interface{}(xa), "the context of a connection")
	h.conns[0].Set(ka, 100)
	h.conns[1].Set(kb, 200)
	check(&h.conns[0].KeyValueContext, []entry{{ka, 100}, {"k", 1}}, ka)
	check(&h.conns[1].KeyValueContext, []entry{{kb, 200}, {"k", 2}}, kb)
	check(&h.conns[0].KeyValueContext, []entry{{ka, 100}, {"k", 1}}, kb)
	for n := 0; n <= 16; n++ {
		k := string(verif.Bytes("other", n))
		if k != ka && k != "k" {
			check(&h.conns[0].KeyValueContext, nil, k)
		}
	}
	a.Rx = append(a.Rx, 1)
	hx.Idle()
	verif.Assert(h.conns[0].Context() == interface{}(xa), "the context is kept")
	if verif.Choose("close", 2) == 1 {
		a.RxEOF = true
		_ = h.conns[1].Close()
		hx.Idle()
		_ = b
		s.Accept()
		verif.Assert(len(h.conns) == 3, "third connection")
		if len(h.conns) == 3 && ka != "k" {
			_, ok := h.conns[2].Get(ka)
			verif.Assert(!ok, "a new connection has no values")
		}
	}
	verif.Reach("separate")
}

type op struct {
	kind       int // 0 set, 1 get, 2 delete
	val        int // set: the value; get: the result
	ok         bool
	start, end int
}

// legal: some order of the operations that respects real time explains every result.
func legal(ops []*op, done int, has bool, val int) bool {
	all := true
	for i, o := range ops {
		if done&(1<<i) != 0 {
			continue
		}
		all = false
		first := true
		for j, q := range ops {
			if done&(1<<j) == 0 && q.end < o.start {
				first = false
			}
		}
		if !first {
			continue
		}
		switch o.kind {
		case 0:
			if legal(ops, done|1<<i, true, o.val) {
				return true
			}
		case 1:
			if o.ok == has && (!has || o.val == val) && legal(ops, done|1<<i, has, val) {
				return true
			}
		case 2:
			if legal(ops, done|1<<i, false, 0) {
				return true
			}
		}
	}
	return all
}

// Conc: two goroutines, every interleaving within the bound.
func Conc() {
	verif.Fine = true
	var c gev.KeyValueContext
	var ops []*op
	clock := 0
	run := func(kinds []int, base int) {
		for i, k := range kinds {
			o := &op{kind: k, val: base + i, start: clock, end: 1 << 30}
			clock++
			ops = append(ops, o)
			switch k {
			case 0:
				c.Set("k", o.val)
			case 1:
				v, ok := c.Get("k")
				o.ok = ok
				o.val = 0
				if n, is := v.(int); is {
					o.val = n
				}
			case 2:
				c.Delete("k")
			}
			o.end = clock
			clock++
		}
	}
	if verif.Choose("initially", 2) == 1 {
		run([]int{0}, 500)
	}
	n := verif.Tier(2, 3)
	ka := make([]int, n)
	kb := make([]int, 2)
	for i := range ka {
		ka[i] = verif.Choose("a", 3)
	}
	for i := range kb {
		kb[i] = verif.Choose("b", 3)
	}
	verif.Explore(verif.Tier(2, 3))
	t1 := verif.Go(func() { run(ka, 100) })
	t2 := verif.Go(func() { run(kb, 200) })
	t1.Wait()
	t2.Wait()
	verif.StopExplore()
	verif.Assert(legal(ops, 0, false, 0), "the operations are atomic")
	verif.Reach("linearised")
}
