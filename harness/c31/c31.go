// Package c31: half-closing a connection with ShutdownWrite.
package c31

import (
	"errors"

	"github.com/Allenxuxu/gev"
	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

type handler struct {
	c, was *gev.Connection
	got    []byte
	closes int
	act    func(c *gev.Connection) interface{}
	hello  func(c *gev.Connection)
}

func (h *handler) OnConnect(c *gev.Connection) {
	h.c = c
	if h.hello != nil {
		h.hello(c)
	}
}
func (h *handler) OnClose(c *gev.Connection) { h.closes++; h.was = c }
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	verif.Assert(h.closes == 0 || c != h.was, "no OnMessage after OnClose")
	h.got = append(h.got, data...)
	if h.act != nil {
		return h.act(c)
	}
	return nil
}

// Flush: what was submitted before ShutdownWrite goes out first, then the end of the
// stream; input goes on until the peer ends it.
func Flush() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1))
	var want, fed []byte
	var p *vunix.Conn
	say := func() []byte {
		d := verif.Bytes("data", 1+verif.Choose("size", 2))
		want = append(want, d...)
		return d
	}
	order := func() {
		verif.Assert(len(p.Tx) <= len(want), "no more output than was submitted")
		if len(p.Tx) > len(want) {
			verif.Exit()
		}
		verif.AssertEqBytes(p.Tx, want[:len(p.Tx)], "output in order")
	}
	p = s.Accept()
	p.Window = verif.Choose("window", 4)
	// what was submitted before
	for i := verif.Choose("before", verif.Tier(3, 4)); i > 0; i-- {
		if verif.Choose("how", 2) == 0 {
			verif.Assert(h.c.Send(say()) == nil, "Send on an open connection")
		} else {
			h.act = func(c *gev.Connection) interface{} { return say() }
			in := verif.Bytes("in", 1)
			fed = append(fed, in...)
			hx.Idle()
			p.Feed(in)
			hx.Idle()
		}
		if verif.Choose("run", 2) == 1 {
			hx.Idle()
		}
	}
	order()
	pending := len(h.got) < len(fed)
	switch verif.Choose("from", 3) {
	case 0:
		verif.Assert(h.c.ShutdownWrite() == nil, "ShutdownWrite on an open connection")
		if pending { // a reply may still be submitted behind it: let it be silent
			h.act = nil
		}
	case 1: // from a callback, with a reply
		hx.Idle()
		done := false
		h.act = func(c *gev.Connection) interface{} {
			if done {
				return nil
			}
			done = true
			verif.Assert(c.ShutdownWrite() == nil, "ShutdownWrite on an open connection")
			return say()
		}
		in := verif.Bytes("in", 1)
		fed = append(fed, in...)
		p.Feed(in)
	case 2: // a Send right before it and a second ShutdownWrite
		verif.Assert(h.c.Send(say()) == nil, "Send on an open connection")
		verif.Assert(h.c.ShutdownWrite() == nil, "ShutdownWrite on an open connection")
		verif.Assert(h.c.ShutdownWrite() == nil, "a second ShutdownWrite")
		h.act = nil
	}
	hx.Idle()
	for i := 0; ; i++ {
		order()
		if p.TxShut {
			verif.Assert(len(p.Tx) == len(want), "everything submitted before is sent before the end of the stream")
			break
		}
		verif.Assert(len(p.Tx) < len(want) || len(h.got) < len(fed), "the end of the stream is sent as soon as everything is")
		verif.Assert(p.Window == 0, "output waits only for the peer")
		verif.Assert(h.closes == 0, "half-closing does not end the connection")
		if i > 12 {
			verif.Assert(false, "the end of the stream is sent")
			return
		}
		p.Window += 1 + verif.Choose("open", 2)
		hx.Idle()
	}
	verif.AssertEqBytes(p.Tx, want, "everything submitted before is sent")
	verif.Assert(h.closes == 0 && h.c.Connected(), "half-closing does not end the connection")
	verif.Assert(hx.IsOpen(p), "the descriptor stays open")
	verif.AssertEqBytes(h.got, fed, "all input is processed")
	// input goes on
	h.act = nil
	in := verif.Bytes("in", 2)
	fed = append(fed, in...)
	p.Feed(in[:1])
	hx.Idle()
	p.Feed(in[1:])
	if verif.Choose("fin", 2) == 0 {
		hx.Idle()
		verif.Assert(h.closes == 0 && h.c.Connected(), "half-closing does not end the connection")
	}
	p.RxEOF = true
	hx.Idle()
	verif.AssertEqBytes(h.got, fed, "input behind the half-close is processed")
	verif.Assert(h.closes == 1, "OnClose when the peer ends its side too")
	verif.Assert(!hx.IsOpen(p), "the descriptor is closed then")
	verif.Assert(p.AfterShut == 0, "nothing is written behind the end of the stream")
	verif.Assert(h.c.ShutdownWrite() == gev.ErrConnectionClosed, "ShutdownWrite on a closed connection")
	hx.Idle()
	verif.Observe("sent", len(p.Tx))
	verif.Reach("half-closed")
}

// Wrap: the backlog to be sent before the end of the stream wraps around its buffer.
func Wrap() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	p.Window = 0
	var want []byte
	send := func(n int) {
		d := verif.Bytes("send", n)
		want = append(want, d...)
		verif.Assert(h.c.Send(d) == nil, "Send on an open connection")
		hx.Idle()
	}
	a := 2 + verif.Choose("first", verif.Tier(3, 4))
	send(a)
	p.Window = 1 + verif.Choose("take", a-1)
	hx.Idle()
	send(1 + verif.Choose("second", len(p.Tx)))
	first := verif.Choose("shutdown", 2) == 0
	if first {
		verif.Assert(h.c.ShutdownWrite() == nil, "ShutdownWrite on an open connection")
		hx.Idle()
	}
	budget := verif.Tier(3, 4)
	p.WriteN = func(n int) int {
		if budget == 0 || n <= 0 {
			return n
		}
		budget--
		return verif.Choose("accept", n+1)
	}
	p.Window = 1 + verif.Choose("window", len(want)-len(p.Tx))
	hx.Idle()
	if !first {
		verif.Assert(h.c.ShutdownWrite() == nil, "ShutdownWrite on an open connection")
		hx.Idle()
	}
	verif.Assert(p.TxShut == (len(p.Tx) == len(want)), "the end of the stream is sent exactly when everything is")
	p.Window = -1
	hx.Idle()
	verif.AssertEqBytes(p.Tx, want, "everything submitted before is sent")
	verif.Assert(p.TxShut && p.AfterShut == 0, "the end of the stream is sent, and nothing behind it")
	p.Feed([]byte{1})
	hx.Idle()
	verif.Assert(len(h.got) == 1 && h.closes == 0, "input goes on")
	p.RxEOF = true
	hx.Idle()
	verif.Assert(h.closes == 1 && !hx.IsOpen(p), "the connection ends with the peer's side")
	verif.Reach("half-closed")
}

// Ended: ShutdownWrite against the end of the connection touches no other descriptor.
func Ended() {
	h := &handler{}
	vunix.Reuse = true
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	c := h.c
	if verif.Choose("full", 2) == 1 {
		p.Window = 0
		_ = c.Send([]byte{1})
		hx.Idle()
	}
	early := verif.Choose("early", 3)
	if early == 1 {
		_ = c.ShutdownWrite()
	}
	switch verif.Choose("end", 3) {
	case 0:
		p.RxErr = unix.ECONNRESET
	case 1:
		_ = c.Close()
	case 2:
		_ = c.Close()
		p.RxEOF = true
	}
	if early == 2 {
		_ = c.ShutdownWrite()
	}
	hx.Idle()
	verif.Assert(h.closes == 1, "the connection ends")
	old := p.FD
	q := s.Accept()
	verif.Assert(q.FD == old, "the descriptor number is used again")
	verif.Assert(c.ShutdownWrite() == gev.ErrConnectionClosed, "ShutdownWrite on a closed connection")
	verif.Assert(errors.Is(c.Send([]byte{1}), gev.ErrConnectionClosed), "Send on a closed connection")
	hx.Idle()
	verif.Assert(!q.TxShut && hx.IsOpen(q), "the new connection is left alone")
	q.Feed([]byte{5})
	hx.Idle()
	verif.AssertEqBytes(h.got, []byte{5}, "the new connection works")
	verif.Assert(len(q.Tx) == 0, "nothing is written to the new connection")
	verif.Reach("ended")
}
