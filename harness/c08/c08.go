// Package c08: the idle timeout, on a virtual clock.
package c08

import (
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/RussellLuo/timingwheel"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vtime"
)

type handler struct {
	conns  []*gev.Connection
	closes []int
	at     []int // when it was closed
}

func (h *handler) OnConnect(c *gev.Connection) {
	h.conns = append(h.conns, c)
	h.closes = append(h.closes, 0)
	h.at = append(h.at, 0)
}
func (h *handler) OnClose(c *gev.Connection) {
	for i, x := range h.conns {
		if x == c {
			h.closes[i]++
			h.at[i] = vtime.Nanos
		}
	}
}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} { return nil }

// pass lets t nanoseconds pass: timers fire when they are due (to the nanosecond:
// the clock is moved to each due time in turn), at most n of them.
func pass(t int, n int) {
	end := vtime.Nanos + t
	for i := 0; i < n; i++ {
		due, any := 0, false
		for _, tm := range hx.Wheel().Timers {
			if at := tm.At - timingwheel.Early; !any || at < due {
				due, any = at, true
			}
		}
		if !any || due > end {
			break
		}
		if due > vtime.Nanos {
			vtime.Nanos = due
		}
		hx.Wheel().Fire()
		hx.Idle()
	}
	if end > vtime.Nanos {
		vtime.Nanos = end
	}
}

// slack is the timer latency granted.
const slack = 2 * int(time.Millisecond)

// Times: any idle timeout from 2 ms to 1000 s, any spacing of the activity.
func Times() {
	h := &handler{}
	timingwheel.Early = verif.Int("early", 0, int(time.Millisecond)-1)
	T := verif.Int("idle", 2*int(time.Millisecond), 1000*int(time.Second))
	vtime.Nanos = verif.Int("start", 0, int(time.Second)) + 1000*int(time.Second)
	p := hx.Start(h, gev.NumLoops(1), gev.IdleTime(time.Duration(T))).Accept()
	if len(h.conns) != 1 {
		verif.Assert(false, "connected")
		return
	}
	last := vtime.Nanos
	for i := 0; i < verif.Tier(2, 3); i++ {
		d := verif.Int("gap", 0, 2000*int(time.Second))
		pass(d, 6)
		if h.closes[0] == 1 {
			break
		}
		verif.Assert(vtime.Nanos-last <= T+slack, "an idle connection is closed")
		switch verif.Choose("activity", 3) {
		case 0:
			p.Feed([]byte{1})
		case 1: // output flushed: a writable event
			p.Window = 0
			_ = h.conns[0].Send([]byte{1, 2})
			hx.Idle()
			p.Window = -1
		case 2: // a burst
			p.Feed([]byte{1})
			hx.Idle()
			p.Feed([]byte{2})
		}
		hx.Idle()
		last = vtime.Nanos
	}
	if h.closes[0] == 0 {
		pass(3000*int(time.Second), 6)
		verif.Assert(h.closes[0] == 1, "an idle connection is closed in the end")
		verif.Reach("closed in the end")
	}
	verif.Assert(h.closes[0] == 1, "closed once")
	if h.closes[0] == 1 {
		verif.Assert(h.at[0]-last >= T, "closed only when nothing arrived for the idle time")
		verif.Assert(h.at[0]-last <= T+slack, "closed when the idle time is over")
		verif.Reach("closed")
	}
}

// State: the connection is idle in any of its states: output pending because the
// peer reads nothing (or only a part of it), a part of a frame received, the write
// side shut down, the peer's end of stream seen only after the output is flushed.
func State() {
	h := &handler{}
	timingwheel.Early = verif.Int("early", 0, int(time.Millisecond)-1)
	T := verif.Int("idle", 2*int(time.Millisecond), 1000*int(time.Second))
	vtime.Nanos = verif.Int("start", 0, int(time.Second)) + 1000*int(time.Second)
	p := hx.Start(h, gev.NumLoops(1), gev.IdleTime(time.Duration(T))).Accept()
	if len(h.conns) != 1 {
		verif.Assert(false, "connected")
		return
	}
	c := h.conns[0]
	last := vtime.Nanos
	d := verif.Int("before", 0, 1000*int(time.Second))
	verif.Assume(d < T)
	pass(d, 6)
	if verif.Choose("input", 2) == 1 {
		p.Feed([]byte{1})
		hx.Idle()
		last = vtime.Nanos
	}
	d = verif.Int("until the state", 0, 1000*int(time.Second))
	verif.Assume(d < T-(vtime.Nanos-last))
	pass(d, 6)
	switch verif.Choose("state", 5) {
	case 0: // output pending, nothing of it accepted
		p.Window = 0
		_ = c.Send([]byte{1, 2})
	case 1: // output pending, a part of it accepted
		p.Window = 1
		_ = c.Send([]byte{1, 2})
	case 2: // output pending, then the write side is shut down
		p.Window = 0
		_ = c.Send([]byte{1, 2})
		_ = c.ShutdownWrite()
	case 3: // the write side is shut down
		_ = c.ShutdownWrite()
	case 4: // output pending and input waiting in the kernel
		p.Window = 0
		_ = c.Send([]byte{1, 2})
		hx.Idle()
		p.Feed([]byte{1})
	}
	hx.Idle()
	if h.closes[0] == 0 {
		pass(T-1-(vtime.Nanos-last), 6)
		verif.Assert(h.closes[0] == 0, "not closed before the idle time is over")
		pass(2*T+2*slack, 6)
	}
	verif.Assert(h.closes[0] == 1, "an idle connection is closed in whatever state it is")
	if h.closes[0] == 1 {
		verif.Assert(h.at[0]-last >= T, "closed only when nothing arrived for the idle time")
		verif.Assert(h.at[0]-last <= T+slack, "closed when the idle time is over")
		verif.Reach("closed")
	}
}

// Two: an active and an idle connection; the idle one is closed, the other is not.
func Two() {
	h := &handler{}
	timingwheel.Early = verif.Int("early", 0, int(time.Millisecond)-1)
	T := verif.Int("idle", 2*int(time.Millisecond), 1000*int(time.Second))
	s := hx.Start(h, gev.NumLoops(1), gev.IdleTime(time.Duration(T)))
	a := s.Accept()
	s.Accept()
	if len(h.conns) != 2 {
		verif.Assert(false, "connected")
		return
	}
	for i := 0; i < 3; i++ {
		pass(T/2, 6)
		a.Feed([]byte{1})
		hx.Idle()
	}
	verif.Assert(h.closes[0] == 0, "the active connection is open")
	verif.Assert(h.closes[1] == 1, "the idle connection is closed")
	pass(2*T, 6)
	verif.Assert(h.closes[0] == 1, "then it is closed too")
	verif.Reach("both")
}

// Off: without an idle timeout nothing is ever closed for inactivity.
func Off() {
	h := &handler{}
	var opts []gev.Option
	switch verif.Choose("option", 3) {
	case 1:
		opts = append(opts, gev.IdleTime(0))
	case 2:
		opts = append(opts, gev.IdleTime(-5*time.Second))
	}
	s := hx.Start(h, append(opts, gev.NumLoops(1))...)
	p := s.Accept()
	for i := 0; i < 3; i++ {
		pass(verif.Int("gap", 0, 1000000*int(time.Second)), 6)
		if verif.Choose("activity", 2) == 1 {
			p.Feed([]byte{1})
			hx.Idle()
		}
	}
	verif.Assert(len(h.conns) == 1 && h.closes[0] == 0 && h.conns[0].Connected(), "no idle timeout: never closed")
	verif.Reach("open")
}
