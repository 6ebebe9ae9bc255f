// Package vtime is a virtual clock.
package vtime

import (
	"time"

	"vrt/vchan"
	"vrt/verif"
)

// Nanos is the current time; it may be symbolic.
var Nanos int = 1000000000 * 1000

type Timer struct {
	C    *vchan.Chan[time.Time]
	at   int
	f    func()
	dead bool
}

var timers []*Timer

func Now() time.Time                  { return time.Unix(0, int64(Nanos)) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Advance(d int)                   { Nanos += d }

func Sleep(d time.Duration) {
	at := Nanos + int(d)
	verif.Block(func() bool { return Nanos >= at })
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{at: Nanos + int(d), f: f}
	timers = append(timers, t)
	return t
}

func (t *Timer) Stop() bool {
	verif.Yield()
	r := !t.dead
	t.dead = true
	return r
}

func (t *Timer) Reset(d time.Duration) bool {
	r := !t.dead
	t.at = Nanos + int(d)
	if t.dead {
		t.dead = false
		timers = append(timers, t)
	}
	return r
}

func tell(c *vchan.Chan[time.Time]) {
	if c.Len() == 0 {
		vchan.Send(c, Now())
	}
}

func NewTimer(d time.Duration) *Timer {
	c := vchan.Make[time.Time](1)
	t := AfterFunc(d, func() { tell(c) })
	t.C = c
	return t
}

func After(d time.Duration) *vchan.Chan[time.Time] { return NewTimer(d).C }

// Ticker drops ticks nobody has received, as the real one does.
type Ticker struct {
	C *vchan.Chan[time.Time]
	t *Timer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	k := &Ticker{C: vchan.Make[time.Time](1), d: d}
	k.t = AfterFunc(d, func() {
		k.t.Reset(k.d)
		tell(k.C)
	})
	return k
}

func (k *Ticker) Stop()                 { k.t.Stop() }
func (k *Ticker) Reset(d time.Duration) { k.d = d; k.t.Reset(d) }

func Tick(d time.Duration) *vchan.Chan[time.Time] { return NewTicker(d).C }

// Fire starts the functions of the timers that are due.
func Fire() int {
	n := 0
	ts := timers
	timers = nil
	for _, t := range ts {
		if t.dead {
			continue
		}
		if t.at <= Nanos {
			t.dead = true
			n++
			verif.Go(t.f)
			continue
		}
		timers = append(timers, t)
	}
	return n
}
