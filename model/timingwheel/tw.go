// Package timingwheel is a model of the dependency: it keeps the scheduled functions
// and runs each in its own task once the virtual clock has reached its time.
package timingwheel

import (
	"time"

	"vrt/verif"
	"vrt/vtime"
)

type TimingWheel struct {
	Tick    time.Duration
	Size    int64
	Started bool
	Stopped bool
	Timers  []*Timer
}

type Scheduler interface {
	Next(time.Time) time.Time
}

type Timer struct {
	At   int // nanoseconds
	D    time.Duration
	F    func()
	Dead bool
	tw   *TimingWheel
}

// All lists every wheel made.
var All []*TimingWheel

// Early is how much before its time a timer may fire (the real wheel works in whole
// milliseconds); harnesses may make it symbolic.
var Early = 0

func NewTimingWheel(tick time.Duration, size int64) *TimingWheel {
	if tick/time.Millisecond <= 0 {
		panic("tick must be greater than or equal to 1ms")
	}
	if size < 0 {
		panic("makeslice: len out of range")
	}
	tw := &TimingWheel{Tick: tick, Size: size}
	All = append(All, tw)
	return tw
}

func (tw *TimingWheel) Start() { tw.Started = true }
func (tw *TimingWheel) Stop()  { verif.Yield(); tw.Stopped = true }

func (tw *TimingWheel) add(t *Timer) *Timer {
	if tw.Size < 2 {
		panic("overflow wheels without end")
	}
	t.tw = tw
	tw.Timers = append(tw.Timers, t)
	return t
}

func (tw *TimingWheel) AfterFunc(d time.Duration, f func()) *Timer {
	verif.Yield()
	return tw.add(&Timer{At: vtime.Nanos + int(d), D: d, F: f})
}

func (tw *TimingWheel) ScheduleFunc(s Scheduler, f func()) *Timer {
	verif.Yield()
	at := s.Next(vtime.Now())
	if at.IsZero() {
		return nil
	}
	t := &Timer{At: int(at.UnixNano())}
	t.F = func() {
		// like the real wheel: reschedule first, from the expiration time
		n := s.Next(time.Unix(0, int64(t.At)))
		if !n.IsZero() {
			t.At = int(n.UnixNano())
			t.Dead = false
			tw.add(t)
		}
		f()
	}
	return tw.add(t)
}

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool {
	verif.Yield()
	r := !t.Dead
	t.Dead = true
	for i, x := range t.tw.Timers {
		if x == t {
			n := make([]*Timer, 0, len(t.tw.Timers))
			n = append(n, t.tw.Timers[:i]...)
			t.tw.Timers = append(n, t.tw.Timers[i+1:]...)
			break
		}
	}
	return r
}

// Fire starts every timer that is due; it reports how many there were.
func (tw *TimingWheel) Fire() int {
	if !tw.Started || tw.Stopped {
		return 0
	}
	n := 0
	ts := tw.Timers
	tw.Timers = nil
	for _, t := range ts {
		if t.At-Early <= vtime.Nanos {
			t.Dead = true
			n++
			verif.GoNamed("timer", t.F)
		} else {
			tw.Timers = append(tw.Timers, t)
		}
	}
	return n
}
