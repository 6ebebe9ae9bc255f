// Package c23: Send from any goroutine.
package c23

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

type handler struct {
	c      *gev.Connection
	loop   *verif.Task
	closed bool
}

func (h *handler) OnConnect(c *gev.Connection) { h.c, h.loop = c, verif.Cur() }
func (h *handler) OnClose(c *gev.Connection)   { h.closed = true }
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	return nil
}

type msg struct {
	who, n   int
	data     []byte
	packed   int
	finished int
	err      error
	closed   bool // Close had been called and executed before Send was called
}

// proto notes what is packed, in order, and frames it between two tags.
type proto struct {
	h     *handler
	order []*msg
}

func (p *proto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	n := b.Length()
	if n == 0 {
		return nil, nil
	}
	b.Retrieve(n)
	return nil, []byte{1}
}

func (p *proto) Packet(c *gev.Connection, data interface{}) []byte {
	m, ok := data.(*msg)
	verif.Assert(ok, "Packet gets the value given to Send")
	if !ok {
		return nil
	}
	verif.Assert(c == p.h.c, "Packet gets the connection")
	verif.Assert(verif.Cur() == p.h.loop, "packed on the loop")
	verif.Assert(!p.h.closed, "nothing is packed after the connection has ended")
	m.packed++
	verif.Assert(m.packed == 1, "packed once")
	p.order = append(p.order, m)
	return append([]byte{0xa0}, m.data...)
}

func run(producers, sends, bound int, closing bool) {
	h := &handler{}
	pr := &proto{h: h}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(pr))
	p := s.Accept()
	if h.c == nil {
		verif.Assert(false, "connected")
		return
	}
	if verif.Choose("full", 2) == 1 {
		p.Window = 3
	}
	var all []*msg
	mk := func(who int) []*msg {
		var ms []*msg
		for i := 0; i < sends; i++ {
			m := &msg{who: who, n: i, data: verif.Bytes("data", 1)}
			ms = append(ms, m)
		}
		all = append(all, ms...)
		return ms
	}
	send := func(ms []*msg) {
		for _, m := range ms {
			m := m
			m.closed = h.closed
			m.err = h.c.Send(m, gev.SendInLoop(func(d interface{}) {
				verif.Assert(d == interface{}(m), "completion gets the data given to Send")
				verif.Assert(m.packed == 1, "completion after the data was handed over")
				verif.Assert(verif.Cur() == h.loop, "completion on the loop")
				m.finished++
			}))
		}
	}
	var lists [][]*msg
	for i := 0; i < producers; i++ {
		lists = append(lists, mk(i))
	}
	verif.Explore(bound)
	var ts []*verif.Task
	for _, l := range lists {
		l := l
		ts = append(ts, verif.Go(func() { send(l) }))
	}
	if closing {
		ts = append(ts, verif.Go(func() { _ = h.c.Close() }))
	}
	for _, t := range ts {
		t.Wait()
	}
	verif.StopExplore()
	hx.Idle()
	if p.Window >= 0 && !h.closed {
		p.Window = -1
		hx.Idle()
	}
	verif.Assert(h.closed == closing, "the connection ends exactly when closed")
	// what was packed
	for _, m := range all {
		verif.Assert(m.finished == m.packed, "completion called once for what was handed over")
		if m.err == nil {
			verif.Assert(closing || m.packed == 1, "data sent on an open connection is packed")
		} else {
			verif.Assert(m.err == gev.ErrConnectionClosed, "Send fails with ErrConnectionClosed only")
			verif.Assert(closing, "Send on an open connection returns nil")
			verif.Assert(m.packed == 0, "a failed Send writes nothing")
		}
		verif.Assert(!m.closed || m.err != nil, "Send after the end fails")
	}
	for i, a := range pr.order {
		for _, b := range pr.order[i+1:] {
			if a.who == b.who {
				verif.Assert(a.n < b.n, "sends of a goroutine are packed in call order")
			}
		}
	}
	for _, a := range all { // no gaps: nothing is packed after something that was not
		for _, b := range pr.order {
			if a.who == b.who && a.n < b.n {
				verif.Assert(a.packed == 1, "no send of a goroutine is skipped")
			}
		}
	}
	var wire []byte
	for _, m := range pr.order {
		wire = append(wire, 0xa0)
		wire = append(wire, m.data...)
	}
	n := len(p.Tx)
	verif.Assert(n <= len(wire), "no more on the wire than was packed")
	if n <= len(wire) {
		verif.AssertEqBytes(p.Tx, wire[:n], "the wire carries what was packed, in order")
	}
	verif.Assert(closing || n == len(wire), "all that was packed is written")
	verif.Observe("wire", n)
	if closing {
		_ = h.c.Send(&msg{})
		hx.Idle()
		verif.Assert(len(p.Tx) == n, "nothing is written after the end")
		verif.Assert(vunix.Lookup(p.FD).Closed, "descriptor closed")
		verif.Reach("closed")
	}
	verif.Reach("sent")
}

// Open: two goroutines, the connection stays open.
func Open() { run(2, 2, verif.Tier(2, 3), false) }

// Closing: one (thorough two) goroutines against Close.
func Closing() { run(verif.Tier(1, 2), 2, verif.Tier(2, 2), true) }

// Reuse: what was given to Send may be overwritten by its completion callback.
func Reuse() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	if h.c == nil {
		verif.Assert(false, "connected")
		return
	}
	p.Window = verif.Choose("window", 4) - 1
	size := 1 + verif.Choose("size", 4)
	sends := verif.Tier(2, 3)
	scratch := make([]byte, size)
	var want []byte
	done := 0
	var next func()
	next = func() {
		data := verif.Bytes("data", size)
		want = append(want, data...)
		copy(scratch, data)
		err := h.c.Send(scratch, gev.SendInLoop(func(d interface{}) {
			done++
			for i := range scratch {
				scratch[i] = 0xee
			}
			if done < sends {
				next()
			}
		}))
		verif.Assert(err == nil, "Send on an open connection returns nil")
	}
	next()
	hx.Idle()
	verif.Assert(done == sends, "completion called once for each")
	for i := 0; i < len(want) && p.Window >= 0; i++ { // opened bit by bit
		p.Window = 1
		hx.Idle()
	}
	if p.Window >= 0 {
		p.Window = -1
		hx.Idle()
	}
	verif.AssertEqBytes(p.Tx, want, "bytes of a buffer used again by the completion callback")
	verif.Reach("reused")
}
