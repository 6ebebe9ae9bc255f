// Package c04: the life of a connection: callbacks (C04), descriptor (C05), counters (C10).
package c04

import (
	"errors"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vtime"
	"vrt/vunix"
)

// life is what happened to one connection.
type life struct {
	c        *gev.Connection
	p        *vunix.Conn
	connects int
	msgs     int
	closes   int
	got      []byte
	dead     bool // must have ended
	mayEnd   bool // may have ended
}

type handler struct {
	lives []*life
	act   func(c *gev.Connection, l *life) interface{}
	onCon func(c *gev.Connection)
	onCls func(c *gev.Connection)
}

func (h *handler) of(c *gev.Connection) *life {
	for _, l := range h.lives {
		if l.c == c {
			return l
		}
	}
	return nil
}

func (h *handler) OnConnect(c *gev.Connection) {
	verif.Assert(h.of(c) == nil, "OnConnect once per connection")
	verif.Assert(c.Connected(), "connected in OnConnect")
	h.lives = append(h.lives, &life{c: c, connects: 1})
	if h.onCon != nil {
		h.onCon(c)
	}
}

func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	l := h.of(c)
	verif.Assert(l != nil, "OnConnect before OnMessage")
	if l == nil {
		return nil
	}
	verif.Assert(l.closes == 0, "no OnMessage after OnClose")
	l.msgs++
	l.got = append(l.got, data...)
	if h.act != nil {
		return h.act(c, l)
	}
	return nil
}

func closed(c *gev.Connection, when string) {
	verif.Assert(!c.Connected(), "Connected is false "+when)
	verif.Assert(c.Send([]byte{1}) == gev.ErrConnectionClosed, "Send returns ErrConnectionClosed "+when)
	verif.Assert(c.Close() == gev.ErrConnectionClosed, "Close returns ErrConnectionClosed "+when)
}

func (h *handler) OnClose(c *gev.Connection) {
	l := h.of(c)
	verif.Assert(l != nil, "OnConnect before OnClose")
	if l == nil {
		return
	}
	l.closes++
	verif.Assert(l.closes == 1, "OnClose once")
	closed(c, "in OnClose")
	if h.onCls != nil {
		h.onCls(c)
	}
}

var errIO = errors.New("input/output error")

// settled checks a connection while the server is idle.
func settled(l *life, loop *eventloop.EventLoop) {
	f := vunix.Lookup(l.p.FD)
	verif.Assert(f.Closes <= 1, "descriptor closed at most once")
	if l.closes == 1 {
		verif.Assert(f.Closed, "descriptor closed when the connection has ended")
		closed(l.c, "after the end")
		_ = l.c.ShutdownWrite() // must not touch the closed descriptor
		verif.Assert(l.dead || l.mayEnd, "no connection ends without a reason")
		l.dead = true
	} else {
		verif.Assert(!f.Closed, "the descriptor of a live connection is open")
		verif.Assert(l.c.Connected(), "a live connection is connected")
		_, ok := vunix.Interest(l.p.FD)
		verif.Assert(ok, "the descriptor of a live connection is registered")
		verif.Assert(!l.dead, "the connection ends when it should")
	}
	n := int64(1)
	if l.closes == 1 {
		n = 0
	}
	if loop != nil {
		verif.Assert(loop.ConnectionCount() == n, "ConnectionCount")
	}
}

// Seq: one connection, a sequence of things that happen to it, the server idle in between.
func Seq() { seq(verif.Tier(3, 4)) }

func seq(steps int) {
	h := &handler{}
	var loop *eventloop.EventLoop
	idle := verif.Choose("idle", 2) == 1
	opts := []gev.Option{gev.NumLoops(1), gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
		loop = ls[0]
		return ls[0]
	})}
	if idle {
		opts = append(opts, gev.IdleTime(10*time.Second))
	}
	s := hx.Start(h, opts...)
	p := s.Accept()
	verif.Assert(len(h.lives) == 1, "OnConnect called for the accepted connection")
	if len(h.lives) != 1 {
		return
	}
	l := h.lives[0]
	l.p = p
	failOp := ""
	vunix.Fail = func(op string, fd int) error {
		if fd == p.FD && op == failOp {
			failOp = ""
			return errIO
		}
		return nil
	}
	settled(l, loop)
	eof, pending := false, 0
	for i := 0; i < steps; i++ {
		switch verif.Choose("op", 11) {
		case 0: // the peer sends
			if eof || p.RxErr != nil {
				break
			}
			how := verif.Choose("answer", 5)
			closing := false
			h.act = func(c *gev.Connection, l *life) interface{} {
				switch how {
				case 1:
					return []byte{9}
				case 2:
					verif.Assert(c.Close() == nil, "Close on an open connection")
					closing = true
				case 3:
					_ = c.Send([]byte{8})
					_ = c.Close()
					closing = true
				case 4:
					_ = c.Close()
					_ = c.Send([]byte{8})
					_ = c.Close()
					closing = true
					return []byte{7}
				}
				return nil
			}
			p.Feed([]byte{1})
			hx.Idle()
			if closing {
				l.dead = true
			}
		case 1: // the peer shuts its side down
			p.RxEOF, eof = true, true
			l.mayEnd = true
			hx.Idle()
		case 2: // reset
			p.RxErr = unix.ECONNRESET
			l.dead = true
			hx.Idle()
		case 3: // hang-up
			p.Hung, p.RxEOF, eof = true, true, true
			l.mayEnd = true
			hx.Idle()
			if len(l.got) == 0 || p.Window != 0 {
				l.dead = true
			}
		case 4: // Close from outside
			err := l.c.Close()
			verif.Assert((err == nil) == (l.closes == 0), "result of Close")
			l.dead = true
			hx.Idle()
		case 5: // Close twice, then Send
			_ = l.c.Close()
			_ = l.c.Close()
			_ = l.c.Send([]byte{3})
			l.dead = true
			hx.Idle()
		case 6: // Send
			if l.c.Send([]byte{2, 2}) == nil {
				pending = 2
			}
			hx.Idle()
		case 7: // the peer stops or starts reading
			if p.Window != 0 {
				p.Window = 0
			} else {
				p.Window = -1
			}
			hx.Idle()
		case 8: // time passes
			vtime.Advance(25 * int(time.Second))
			hx.Wheel().Fire()
			hx.Idle()
			hx.Wheel().Fire()
			hx.Idle()
			if idle {
				l.dead = true
			}
		case 9: // a read fails
			if eof || p.RxErr != nil || l.closes > 0 {
				break
			}
			failOp = "read"
			h.act = nil
			p.Feed([]byte{1})
			hx.Idle()
			if failOp == "" {
				l.dead = true
			}
			failOp = ""
		case 10: // a write fails
			failOp = "write"
			_ = l.c.Send([]byte{4})
			hx.Idle()
			if failOp == "" {
				l.dead = true
			}
			failOp = ""
		}
		_ = pending
		// a half-closed peer ends the connection as soon as nothing is pending
		if eof && p.Window != 0 {
			l.dead = true
		}
		settled(l, loop)
	}
	verif.Observe("closes", l.closes)
	verif.Observe("tx", len(p.Tx))
	verif.ObserveBytes("got", l.got)
	if l.closes == 1 {
		verif.Reach("ended")
	}
	_ = l.c.Close()
	l.dead = true
	hx.Idle()
	settled(l, loop)
	verif.Assert(l.closes == 1, "OnClose called")
	verif.Assert(l.connects == 1, "OnConnect called")
	verif.Reach("done")
}
