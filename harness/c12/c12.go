// Package c12: from ready descriptors to handlers.
package c12

import (
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/poller"
	"golang.org/x/sys/unix"

	"vrt/verif"
	"vrt/vunix"
)

type seen struct {
	fd int
	ev poller.Event
}

// want is what a mask means.
func want(m uint32) poller.Event {
	var e poller.Event
	if m&unix.EPOLLHUP != 0 && m&unix.EPOLLIN == 0 {
		e |= poller.EventErr
	}
	if m&(unix.EPOLLERR|unix.EPOLLOUT) != 0 {
		e |= poller.EventWrite
	}
	if m&(unix.EPOLLIN|unix.EPOLLPRI|unix.EPOLLRDHUP) != 0 {
		e |= poller.EventRead
	}
	return e
}

func oneEINTR() {
	if verif.Choose("eintr", 2) == 1 {
		done := false
		vunix.Fail = func(op string, fd int) error {
			if op == "epoll_wait" && !done {
				done = true
				return unix.EINTR
			}
			return nil
		}
	}
}

// Masks: every event mask a kernel can report for every kind of registration.
func Masks() {
	p, err := poller.Create()
	if err != nil {
		verif.Assert(false, "a poller can be made")
		return
	}
	c := vunix.NewConn()
	fd := c.FD
	vunix.RawEvents[fd] = 0
	reg := verif.Choose("registration", 5)
	interest := uint32(0)
	rd, wr := uint32(unix.EPOLLIN|unix.EPOLLPRI), uint32(unix.EPOLLOUT)
	switch reg {
	case 0:
		err = p.AddRead(fd)
		interest = rd
	case 1:
		err = p.AddWrite(fd)
		interest = wr
	case 2:
		_ = p.AddRead(fd)
		err = p.EnableReadWrite(fd)
		interest = rd | wr
	case 3:
		_ = p.AddRead(fd)
		err = p.EnableWrite(fd)
		interest = wr
	case 4:
		_ = p.AddRead(fd)
		_ = p.EnableReadWrite(fd)
		err = p.EnableRead(fd)
		interest = rd
	}
	verif.Assert(err == nil, "registration succeeds")
	got, ok := vunix.Interest(fd)
	verif.Assert(ok, "the descriptor is registered")
	verif.Assert(got&interest&(unix.EPOLLIN|unix.EPOLLOUT) == interest&(unix.EPOLLIN|unix.EPOLLOUT), "registered for what was asked")
	verif.Assert((got&unix.EPOLLOUT != 0) == (interest&unix.EPOLLOUT != 0), "not registered for writability unless asked")
	verif.Assert((got&unix.EPOLLIN != 0) == (interest&unix.EPOLLIN != 0), "not registered for reading unless asked")
	var log []seen
	verif.Go(func() {
		p.Poll(func(fd int, ev poller.Event) {
			if fd != -1 {
				vunix.RawEvents[fd] = 0
				log = append(log, seen{fd, ev})
			}
		})
	})
	verif.WaitIdle()
	oneEINTR()
	m := uint32(verif.Uint64("mask")) & (got | unix.EPOLLERR | unix.EPOLLHUP)
	verif.Assume(m != 0)
	vunix.RawEvents[fd] = m
	verif.WaitIdle()
	verif.Assert(len(log) == 1, "dispatched exactly once")
	if len(log) != 1 {
		return
	}
	verif.Assert(log[0].fd == fd, "dispatched for its descriptor")
	verif.Assert(log[0].ev == want(m), "events reported for the mask")
	verif.Assert(p.Del(fd) == nil, "deregistration succeeds")
	_, ok = vunix.Interest(fd)
	verif.Assert(!ok, "the descriptor is no longer registered")
	vunix.RawEvents[fd] = unix.EPOLLIN
	verif.WaitIdle()
	verif.Assert(len(log) == 1, "a deregistered descriptor is not dispatched")
	verif.Reach("dispatched")
}

// sock is a handler of the event loop.
type sock struct {
	fd  int
	log *[]seen
	act func(s *sock)
}

func (s *sock) HandleEvent(fd int, ev poller.Event) {
	vunix.RawEvents[fd] = 0
	verif.Assert(fd == s.fd, "handler called with its own descriptor")
	*s.log = append(*s.log, seen{s.fd, ev})
	if s.act != nil {
		s.act(s)
	}
}
func (s *sock) Close() error { return nil }

// Batch: several descriptors and a wake-up ready at once, in any order; a handler may
// deregister another one.
func Batch() {
	l, err := eventloop.New()
	if err != nil {
		verif.Assert(false, "a loop can be made")
		return
	}
	n := 1 + verif.Choose("n", verif.Tier(3, 4))
	var log []seen
	var ss []*sock
	for i := 0; i < n; i++ {
		c := vunix.NewConn()
		vunix.RawEvents[c.FD] = 0
		s := &sock{fd: c.FD, log: &log}
		ss = append(ss, s)
		verif.Assert(l.AddSocketAndEnableRead(s.fd, s) == nil, "registered")
	}
	verif.Assert(l.ConnectionCount() == int64(n), "ConnectionCount")
	verif.Go(func() { l.Run() })
	verif.WaitIdle()
	oneEINTR()
	by, victim := -1, -1
	if verif.Choose("remove", 2) == 1 {
		by, victim = verif.Choose("by", n), verif.Choose("victim", n)
		ss[by].act = func(*sock) { l.DeleteFdInLoop(ss[victim].fd) }
	}
	if verif.Choose("order", 2) == 1 {
		vunix.EvOrder = func(n int) int { return verif.Choose("first", n) }
	}
	ran := 0
	wake := verif.Choose("wake", 2) == 1
	if wake {
		l.QueueInLoop(func() { ran++ })
	}
	ms := make([]uint32, n)
	for i, s := range ss {
		ms[i] = []uint32{0, unix.EPOLLIN, unix.EPOLLHUP, unix.EPOLLERR | unix.EPOLLHUP | unix.EPOLLIN}[verif.Choose("mask", 4)]
		vunix.RawEvents[s.fd] = ms[i]
	}
	verif.WaitIdle()
	removed := victim >= 0 && ms[by] != 0
	for i, s := range ss {
		k := 0
		last := -1
		for j, e := range log {
			if e.fd == s.fd {
				k++
				last = j
				verif.Assert(e.ev == want(ms[i]), "events reported for the mask")
			}
		}
		if removed && i == victim && i != by {
			verif.Assert(k <= 1, "a removed descriptor is dispatched at most once")
			for j, e := range log {
				if e.fd == ss[by].fd && last > j {
					verif.Assert(false, "no event for a descriptor after it was removed")
				}
			}
			continue
		}
		w := 1
		if ms[i] == 0 {
			w = 0
		}
		verif.Assert(k == w, "each ready descriptor is dispatched exactly once")
	}
	c := int64(n)
	if removed {
		c--
	}
	verif.Assert(l.ConnectionCount() == c, "ConnectionCount")
	verif.Assert(!wake || ran == 1, "the wake-up runs the task")
	verif.Reach("dispatched")
}

// Full: more ready descriptors than the event array holds.
func Full() {
	l, err := eventloop.New()
	if err != nil {
		verif.Assert(false, "a loop can be made")
		return
	}
	n := []int{1023, 1024, 1025, 1030}[verif.Choose("n", verif.Tier(3, 4))]
	var log []seen
	var ss []*sock
	for i := 0; i < n; i++ {
		c := vunix.NewConn()
		vunix.RawEvents[c.FD] = 0
		s := &sock{fd: c.FD, log: &log}
		ss = append(ss, s)
		_ = l.AddSocketAndEnableRead(s.fd, s)
	}
	verif.Go(func() { l.Run() })
	verif.WaitIdle()
	ran := 0
	l.QueueInLoop(func() { ran++ })
	st := verif.Int("start", 0, 1)
	if verif.Choose("order", 2) == 1 {
		vunix.EvOrder = func(n int) int { return st }
	}
	for _, s := range ss {
		vunix.RawEvents[s.fd] = unix.EPOLLIN
	}
	verif.WaitIdle()
	verif.Assert(len(log) == n, "each ready descriptor is dispatched exactly once")
	at := map[int]int{}
	for _, e := range log {
		at[e.fd]++
	}
	for _, s := range ss {
		verif.Assert(at[s.fd] == 1, "each ready descriptor is dispatched exactly once")
	}
	verif.Assert(ran == 1, "the wake-up runs the task")
	verif.Reach("dispatched")
}
