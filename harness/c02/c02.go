// Package c02: the outbound byte stream of a connection, its flushing (C03) and the
// lengths it reports (C10).
package c02

import (
	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

type handler struct {
	conn  *gev.Connection
	reply func(data []byte) []byte
	got   []byte
	hello []byte
	sent  *[]byte
}

func (h *handler) OnConnect(c *gev.Connection) { h.conn = c }
func (h *handler) OnClose(c *gev.Connection)   {}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	h.got = append(h.got, data...)
	if r := h.reply(data); r != nil {
		return r
	}
	return nil
}

// invariants that hold whenever the server is idle
func idle(h *handler, p *vunix.Conn, expected, fed []byte, polled bool) {
	n := len(p.Tx)
	verif.Assert(n <= len(expected), "no more bytes on the wire than were sent")
	if n > len(expected) {
		return
	}
	verif.AssertEqBytes(p.Tx, expected[:n], "bytes on the wire")
	ev, ok := vunix.Interest(p.FD)
	verif.Assert(ok, "an open connection is registered")
	if n < len(expected) {
		verif.Assert(ev&unix.EPOLLOUT != 0, "pending output: registered for writability")
		verif.Assert(p.Window == 0, "pending output only when the kernel takes no more")
	} else {
		verif.Assert(ev&unix.EPOLLIN != 0, "no pending output: registered for reading")
		verif.Assert(ev&unix.EPOLLOUT == 0, "no pending output: not waiting for writability")
		verif.AssertEqBytes(h.got, fed, "no pending output: all input processed")
	}
	if polled {
		verif.Assert(h.conn.WriteBufferLength() == int64(len(expected)-n), "WriteBufferLength")
	}
}

func run(steps int, sizes int, accept func(n int) int, window func() int) {
	var expected, fed []byte
	h := &handler{}
	rlen := 0
	h.reply = func(data []byte) []byte {
		if rlen == 0 {
			return nil
		}
		r := verif.Bytes("reply", rlen)
		expected = append(expected, r...)
		return r
	}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	p.WriteN = accept
	p.Window = window()
	for i := 0; i < steps; i++ {
		polled := false
		switch verif.Choose("op", 4) {
		case 0: // the peer sends: a reply is produced
			d := verif.Bytes("input", 1)
			rlen = verif.Choose("replylen", sizes+1)
			p.Feed(d)
			fed = append(fed, d...)
			hx.Idle()
			polled = len(h.got) == len(fed)
		case 1: // Send from outside
			d := verif.Bytes("send", 1+verif.Choose("sendlen", sizes))
			if h.conn.Send(d) == nil {
				expected = append(expected, d...)
			} else {
				verif.Assert(false, "Send on an open connection")
			}
			hx.Idle()
		case 2: // two Sends queued together
			for k := 0; k < 2; k++ {
				d := verif.Bytes("send", 1+verif.Choose("sendlen", sizes))
				_ = h.conn.Send(d)
				expected = append(expected, d...)
			}
			hx.Idle()
		case 3: // the peer takes data
			before := len(p.Tx)
			p.Window += 1 + verif.Choose("open", sizes+1)
			hx.Idle()
			polled = len(p.Tx) > before
		}
		idle(h, p, expected, fed, polled)
	}
	verif.Observe("onwire", len(p.Tx))
	verif.Observe("window", p.Window)
	// the peer takes everything
	p.Window = -1
	hx.Idle()
	verif.AssertEqBytes(p.Tx, expected, "all output arrives")
	verif.AssertEqBytes(h.got, fed, "all input is processed")
	p.Feed([]byte{1})
	rlen = 0
	hx.Idle()
	verif.Assert(len(h.got) == len(fed)+1, "reading goes on after the backlog is gone")
	verif.Reach("flushed")
}

// Backlog: the peer's window limits the writes.
func Backlog() {
	run(verif.Tier(3, 4), 2, nil, func() int { return verif.Choose("window", 4) })
}

// Partial: the kernel accepts an arbitrary part of each write (or EAGAIN).
func Partial() {
	budget := verif.Tier(3, 4)
	run(2, 3, func(n int) int {
		if budget == 0 || n <= 0 {
			return n
		}
		budget--
		return verif.Choose("accept", n+1)
	}, func() int { return -1 })
}

// Wide: packets of arbitrary size against an arbitrary window.
func Wide() {
	var expected []byte
	h := &handler{reply: func([]byte) []byte { return nil }}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	p.Window = verif.Int("window", 0, 300000)
	a := verif.Bytes("a", verif.Int("alen", 1, 200000))
	b := verif.Bytes("b", verif.Int("blen", 1, 200000))
	_ = h.conn.Send(a)
	hx.Idle()
	_ = h.conn.Send(b)
	hx.Idle()
	expected = append(append(expected, a...), b...)
	n := len(p.Tx)
	verif.AssertEqBytes(p.Tx, expected[:n], "bytes on the wire")
	p.Window += verif.Int("more", 0, 300000)
	hx.Idle()
	n = len(p.Tx)
	verif.AssertEqBytes(p.Tx, expected[:n], "bytes on the wire after the window opened")
	p.Window = -1
	hx.Idle()
	verif.AssertEqBytes(p.Tx, expected, "all output arrives")
	verif.Reach("flushed")
}

// Wrap: a backlog that wraps around the end of its buffer, flushed in arbitrary parts,
// with more output added on the way.
func Wrap() {
	h := &handler{reply: func([]byte) []byte { return nil }}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	p.Window = 0
	var expected []byte
	send := func(n int) {
		d := verif.Bytes("send", n)
		expected = append(expected, d...)
		_ = h.conn.Send(d)
		hx.Idle()
		idle(h, p, expected, nil, false)
	}
	a := 2 + verif.Choose("first", verif.Tier(3, 4))
	send(a)
	take := 1 + verif.Choose("take", a-1)
	p.Window = take
	hx.Idle()
	idle(h, p, expected, nil, true)
	send(1 + verif.Choose("second", take))
	budget := verif.Tier(3, 4)
	p.WriteN = func(n int) int {
		if budget == 0 || n <= 0 {
			return n
		}
		budget--
		return verif.Choose("accept", n+1)
	}
	p.Window = 1 + verif.Choose("window", len(expected)-len(p.Tx))
	before := len(p.Tx)
	hx.Idle()
	idle(h, p, expected, nil, len(p.Tx) > before)
	if verif.Choose("third", 2) == 1 {
		send(2)
	}
	p.Window = -1
	hx.Idle()
	verif.AssertEqBytes(p.Tx, expected, "all output arrives")
	idle(h, p, expected, nil, false)
	p.Feed([]byte{1})
	hx.Idle()
	verif.Assert(len(h.got) == 1, "reading goes on after the backlog is gone")
	verif.Reach("flushed")
}

// Many: many packets behind one another while the peer takes nothing, then bit by bit.
func Many() {
	h := &handler{reply: func([]byte) []byte { return nil }}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	p.Window = verif.Choose("window", 3)
	var expected []byte
	n := verif.Tier(600, 1200)
	for i := 0; i < n; i++ {
		d := verif.Bytes("send", 1+i%5)
		expected = append(expected, d...)
		_ = h.conn.Send(d)
		if i%50 == 49 {
			p.Window += 37
			hx.Idle()
			idle(h, p, expected, nil, false)
		}
	}
	hx.Idle()
	for p.Window += 613; len(p.Tx) < len(expected); p.Window += 613 {
		before := len(p.Tx)
		hx.Idle()
		idle(h, p, expected, nil, true)
		if len(p.Tx) == before {
			break
		}
	}
	verif.AssertEqBytes(p.Tx, expected, "all output arrives")
	verif.Reach("flushed")
}
