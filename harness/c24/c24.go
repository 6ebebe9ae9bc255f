// Package c24: RunAfter and RunEvery.
package c24

import (
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/RussellLuo/timingwheel"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vtime"
)

type handler struct {
	c      *gev.Connection
	closes int
}

func (h *handler) OnConnect(c *gev.Connection) { h.c = c }
func (h *handler) OnClose(c *gev.Connection)   { h.closes++ }
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	return nil
}

func to(t int) {
	vtime.Nanos = t
	hx.Wheel().Fire()
	hx.Idle()
}

func due(tm *timingwheel.Timer, at int, label string) {
	verif.Assert(tm != nil, "a timer is returned")
	if tm != nil {
		verif.Assert(tm.At == at, label)
	}
}

// After: once, after exactly the delay.
func After() {
	s := hx.Start(&handler{}, gev.NumLoops(1))
	vtime.Nanos += verif.Int("start", 0, int(time.Second))
	d := verif.Int("delay", 1, 1000000*int(time.Second))
	ran := 0
	begin := vtime.Nanos
	tm := s.S.RunAfter(time.Duration(d), func() { ran++ })
	due(tm, begin+d, "RunAfter is due after its delay")
	early := verif.Int("early", 1, 1000000*int(time.Second))
	if early <= d {
		to(begin + d - early)
		verif.Assert(ran == 0, "RunAfter does not run early")
	}
	if verif.Choose("cancel", 2) == 1 {
		tm.Stop()
		to(begin + d)
		verif.Assert(ran == 0, "a stopped timer does not run")
		return
	}
	to(begin + d + verif.Int("late", 0, int(time.Second)))
	verif.Assert(ran == 1, "RunAfter runs when it is due")
	to(begin + 3*d + int(time.Second))
	verif.Assert(ran == 1, "RunAfter runs once")
	verif.Reach("ran")
}

// Every: each time exactly one period after the previous due time.
func Every() {
	s := hx.Start(&handler{}, gev.NumLoops(1))
	vtime.Nanos += verif.Int("start", 0, int(time.Second))
	d := verif.Int("period", 1, 1000000*int(time.Second))
	ran := 0
	begin := vtime.Nanos
	tm := s.S.RunEvery(time.Duration(d), func() { ran++ })
	due(tm, begin+d, "RunEvery is first due after one period")
	if tm == nil {
		return
	}
	n := verif.Tier(3, 5)
	for i := 1; i <= n; i++ {
		// served late by less than a period: the next due time does not drift
		late := verif.Int("late", 0, 1000000*int(time.Second))
		verif.Assume(late < d)
		to(begin + i*d + late)
		verif.Assert(ran == i, "RunEvery runs once per period")
		verif.Assert(tm.At == begin+(i+1)*d, "the next run is due one period after the previous due time")
	}
	tm.Stop()
	to(begin + (n+5)*d)
	verif.Assert(ran == n, "a stopped timer does not run")
	verif.Reach("ran")
}

// Mixed: user timers and the timers of connections do not disturb each other.
func Mixed() {
	h := &handler{}
	T := verif.Int("idle", 10*int(time.Millisecond), 100*int(time.Second))
	s := hx.Start(h, gev.NumLoops(1), gev.IdleTime(time.Duration(T)))
	a := verif.Int("delay", 1, 1000*int(time.Second))
	b := verif.Int("period", 1, 1000*int(time.Second))
	na, nb := 0, 0
	begin := vtime.Nanos
	ta := s.S.RunAfter(time.Duration(a), func() { na++ })
	p := s.Accept()
	tb := s.S.RunEvery(time.Duration(b), func() { nb++ })
	due(ta, begin+a, "RunAfter is due after its delay")
	due(tb, begin+b, "RunEvery is first due after one period")
	if h.c == nil {
		verif.Assert(false, "connected")
		return
	}
	how := verif.Choose("end", 3)
	switch how {
	case 0: // the connection ends: only its timer goes
		p.RxEOF = true
		hx.Idle()
		verif.Assert(h.closes == 1, "closed")
	case 1: // the user timers go: the connection still times out
		ta.Stop()
		tb.Stop()
		to(begin + T + 2*int(time.Millisecond))
		to(vtime.Nanos + 2*int(time.Millisecond))
		verif.Assert(h.closes == 1, "the connection times out")
		verif.Assert(na == 0 && nb == 0, "stopped timers do not run")
		verif.Reach("timed out")
		return
	case 2: // both
	}
	if a < b {
		to(begin + a)
		verif.Assert(na == 1 && nb == 0, "each timer runs when it is due")
		to(begin + b)
	} else {
		to(begin + b)
		verif.Assert(nb == 1, "each timer runs when it is due")
		if b < a {
			verif.Assert(na == 0, "each timer runs when it is due")
		}
		to(begin + a)
	}
	verif.Assert(na == 1, "each timer runs when it is due")
	verif.Assert(nb >= 1, "each timer runs when it is due")
	verif.Assert(how == 0 || h.closes == 0 || vtime.Nanos >= begin+T, "no connection ends early")
	verif.Reach("ran")
}

// Stopped: no scheduled function starts once the server is stopped.
func Stopped() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1+verif.Choose("loops", 2)), gev.IdleTime(time.Duration(verif.Choose("idle", 2))*time.Second))
	if verif.Choose("connection", 2) == 1 {
		s.Accept()
	}
	d := verif.Int("delay", 1, 1000000*int(time.Second))
	p := verif.Int("period", 1, 1000000*int(time.Second))
	ran, every := 0, 0
	begin := vtime.Nanos
	s.S.RunAfter(time.Duration(d), func() { ran++ })
	s.S.RunEvery(time.Duration(p), func() { every++ })
	at := verif.Int("at", 0, 1000000*int(time.Second))
	verif.Assume(at < 2*p)
	to(begin + at)
	a, b := ran, every
	verif.Assert((a == 1) == (at >= d) && (b == 1) == (at >= p), "what was due has run")
	s.S.Stop()
	hx.Idle()
	for i := 1; i < 4; i++ {
		to(begin + at + i*(d+p))
		verif.Assert(ran == a && every == b, "nothing scheduled runs after Stop")
	}
	verif.Assert(h.closes <= 1, "a connection ends once")
	verif.Reach("stopped")
}
