package c04

import (
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vtime"
	"vrt/vunix"
)

// start makes a server with one loop, with or without an idle timeout.
func start(h *handler, idle bool) (*hx.Srv, func() *eventloop.EventLoop) {
	var loop *eventloop.EventLoop
	opts := []gev.Option{gev.NumLoops(1), gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
		loop = ls[0]
		return ls[0]
	})}
	if idle {
		opts = append(opts, gev.IdleTime(10*time.Second))
	}
	return hx.Start(h, opts...), func() *eventloop.EventLoop { return loop }
}

// occur is what happened to one connection before the server ran again.
type occur struct {
	fed                      []byte
	eof, rst, hung           bool
	closed, shut, late, idle bool
	writes                   bool // something was written behind the half-close
}

// happen makes one thing happen to a connection without running the server.
func (o *occur) happen(h *handler, l *life, k int) {
	p := l.p
	switch k {
	case 0: // input
		if !o.eof && !o.rst {
			p.Feed([]byte{1})
			o.fed = append(o.fed, 1)
		}
	case 1: // the peer ends its side
		p.RxEOF, o.eof = true, true
	case 2: // reset
		p.RxErr, o.rst = unix.ECONNRESET, true
	case 3:
		if l.c.Close() == nil {
			o.closed = true
		}
	case 4:
		_ = l.c.Send([]byte{2})
		o.writes = o.writes || o.shut
	case 5:
		_ = l.c.ShutdownWrite()
		o.shut = true
	case 6: // time passes, the timers run with everything else
		vtime.Advance(25 * int(time.Second))
		hx.Wheel().Fire()
		o.late = o.idle
	case 7: // both sides down
		p.Hung, p.RxEOF, o.eof, o.hung = true, true, true, true
	}
}

// Burst: several things happen to a connection before the server runs again.
func Burst() {
	h := &handler{}
	o := &occur{idle: verif.Choose("idle", 2) == 1}
	s, loop := start(h, o.idle)
	p := s.Accept()
	if len(h.lives) != 1 {
		verif.Assert(false, "OnConnect called for the accepted connection")
		return
	}
	l := h.lives[0]
	l.p = p
	how := verif.Choose("answer", 4)
	h.act = func(c *gev.Connection, l *life) interface{} {
		switch how {
		case 1:
			o.writes = o.writes || o.shut
			return []byte{9}
		case 2:
			_ = c.Close()
			o.closed = true
		case 3:
			_ = c.ShutdownWrite()
			o.shut = true
			o.writes = true
			return []byte{8}
		}
		return nil
	}
	switch verif.Choose("full", 3) {
	case 1:
		p.Window = 0
	case 2: // with output pending
		p.Window = 0
		_ = l.c.Send([]byte{7})
		hx.Idle()
	}
	for i := verif.Tier(3, 4); i > 0; i-- {
		o.happen(h, l, verif.Choose("op", 8))
	}
	hx.Idle()
	judge := func() {
		open := p.Window != 0
		l.mayEnd = o.eof || o.late || (o.shut && o.writes)
		l.dead = o.rst || o.closed || (o.eof && open)
		settled(l, loop())
		if l.closes == 0 && open {
			verif.AssertEqBytes(l.got, o.fed, "all input of a live connection is processed")
		}
		if o.eof && open && !o.rst && !o.closed && !o.late && !o.writes && !o.hung {
			verif.AssertEqBytes(l.got, o.fed, "input ahead of the end of the stream is processed")
		}
		verif.Assert(len(l.got) <= len(o.fed), "no input is processed twice")
	}
	judge()
	// the peer takes everything
	p.Window = -1
	hx.Idle()
	judge()
	if l.closes == 1 {
		verif.Reach("ended")
	}
	verif.Observe("closes", l.closes)
	verif.Observe("tx", len(p.Tx))
	_ = l.c.Close()
	l.dead = true
	hx.Idle()
	settled(l, loop())
	verif.Assert(l.closes == 1 && l.connects == 1, "OnConnect and OnClose once")
	verif.Reach("done")
}

// Conc: goroutines use a connection while things happen to it, and another peer gets
// its descriptor number as soon as it is free.
func Conc() {
	vunix.Reuse = verif.Choose("reuse", 2) == 1
	h := &handler{}
	ev := verif.Choose("event", 5)
	o := &occur{idle: ev == 4}
	s, loop := start(h, o.idle)
	p := s.Accept()
	if len(h.lives) != 1 {
		verif.Assert(false, "OnConnect called for the accepted connection")
		return
	}
	l := h.lives[0]
	l.p = p
	if verif.Choose("full", 2) == 1 {
		p.Window = 0
		_ = l.c.Send([]byte{7})
		hx.Idle()
	}
	f := vunix.Lookup(p.FD)
	q := vunix.NewPeer()
	verif.Delays(verif.Tier(1, 2))
	if ev > 0 {
		o.happen(h, l, []int{0, 0, 1, 2, 6}[ev])
	}
	use := verif.Choose("use", 3)
	t1 := verif.Go(func() {
		switch use {
		case 0:
			_ = l.c.Send([]byte{2})
		case 1:
			_ = l.c.ShutdownWrite()
		case 2:
			_ = l.c.Close()
		}
	})
	t2 := verif.Go(func() { _ = l.c.Close() })
	t3 := verif.Go(func() {
		verif.Block(func() bool { return f.Closed })
		q.Feed([]byte{5})
		s.L.L.Pending = append(s.L.L.Pending, q)
	})
	t1.Wait()
	t2.Wait()
	t3.Wait()
	hx.Idle()
	verif.StopExplore()
	hx.Idle()
	verif.Assert(l.closes == 1, "OnClose called")
	verif.Assert(f.Closed && f.Closes == 1, "the descriptor is closed once")
	closed(l.c, "after the end")
	verif.Assert(len(h.lives) == 2, "the second connection is accepted")
	if len(h.lives) != 2 {
		return
	}
	m := h.lives[1]
	m.p = q
	verif.Assert(!vunix.Reuse || q.FD == p.FD, "the descriptor number is used again")
	settled(m, loop())
	verif.AssertEqBytes(m.got, []byte{5}, "the second connection gets its own input")
	verif.Assert(len(q.Tx) == 0, "nothing meant for the first connection reaches the second")
	verif.Assert(!q.TxShut, "the second connection is not half-closed")
	verif.Reach("reused")
}

// Apart: the callbacks of the connections of one loop never run at the same time.
func Apart() {
	h := &handler{}
	busy := false
	alone := func() {
		verif.Assert(!busy, "one callback at a time on a loop")
		busy = true
		verif.Yield()
		busy = false
	}
	h.onCon = func(*gev.Connection) { alone() }
	h.onCls = func(*gev.Connection) { alone() }
	h.act = func(c *gev.Connection, l *life) interface{} {
		alone()
		return nil
	}
	ev := verif.Choose("event", 5)
	o := &occur{idle: ev == 4}
	s, _ := start(h, o.idle)
	p := s.Accept()
	if len(h.lives) != 1 {
		verif.Assert(false, "OnConnect called for the accepted connection")
		return
	}
	l := h.lives[0]
	l.p = p
	verif.Delays(verif.Tier(1, 2))
	q := vunix.NewPeer()
	q.Feed([]byte{5})
	s.L.L.Pending = append(s.L.L.Pending, q)
	if ev > 0 {
		o.happen(h, l, []int{0, 0, 1, 2, 6}[ev])
	}
	t := verif.Go(func() { _ = l.c.Close() })
	t.Wait()
	hx.Idle()
	verif.StopExplore()
	hx.Idle()
	verif.Assert(len(h.lives) == 2, "the second connection is accepted")
	verif.Assert(l.closes == 1, "OnClose called")
	verif.Reach("apart")
}
