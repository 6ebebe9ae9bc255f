// Package c13: accepting connections; which loop serves them (C09) and the counters (C10).
package c13

import (
	"errors"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

type handler struct {
	conns  []*gev.Connection
	closes []int
	got    [][]byte
}

func (h *handler) idx(c *gev.Connection) int {
	for i, x := range h.conns {
		if x == c {
			return i
		}
	}
	return -1
}
func (h *handler) OnConnect(c *gev.Connection) {
	verif.Assert(h.idx(c) < 0, "OnConnect once")
	h.conns = append(h.conns, c)
	h.closes = append(h.closes, 0)
	h.got = append(h.got, nil)
}
func (h *handler) OnClose(c *gev.Connection) {
	if i := h.idx(c); i >= 0 {
		h.closes[i]++
	} else {
		verif.Assert(false, "OnClose of an unknown connection")
	}
}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	if i := h.idx(c); i >= 0 {
		h.got[i] = append(h.got[i], data...)
	} else {
		verif.Assert(false, "OnMessage of an unknown connection")
	}
	return nil
}

var errs = []error{unix.EMFILE, unix.ECONNABORTED, unix.EAGAIN, unix.EINTR}

var addrs = []struct {
	sa unix.Sockaddr
	s  string
}{
	{&unix.SockaddrInet4{Port: 0, Addr: [4]byte{10, 1, 2, 3}}, "10.1.2.3:0"},
	{&unix.SockaddrInet4{Port: 65535, Addr: [4]byte{255, 0, 255, 0}}, "255.0.255.0:65535"},
	{&unix.SockaddrInet6{Port: 443, Addr: [16]byte{0x20, 1, 0xd, 0xb8, 15: 1}}, "[2001:db8::1]:443"},
	{&unix.SockaddrInet6{Port: 9, Addr: [16]byte{15: 1}}, "[::1]:9"},
}

// Faults: a sequence of incoming connections; accepting, setting up or registering each
// may fail.
func Faults() {
	h := &handler{}
	var loops []*eventloop.EventLoop
	var chosen []int
	nl := 1 + verif.Choose("loops", 2)
	s := hx.Start(h, gev.NumLoops(nl), gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
		loops = ls
		verif.Assert(len(ls) == nl, "the strategy sees every loop")
		k := verif.Choose("strategy", len(ls))
		chosen = append(chosen, k)
		return ls[k]
	}))
	failOp := ""
	hit := false
	vunix.Fail = func(op string, fd int) error {
		f := vunix.Lookup(fd)
		if f == nil || f.Conn == nil {
			return nil
		}
		if op == failOp {
			failOp = ""
			hit = true
			return errors.New("injected")
		}
		if op == "epoll_add" || op == "read" || op == "write" {
			verif.Assert(f.NonBlk, "non-blocking before it is used")
		}
		return nil
	}
	var peers []*vunix.Conn
	want := []int{}
	n := verif.Tier(2, 3)
	live := make([]int64, nl)
	for i := 0; i < n; i++ {
		a := addrs[verif.Choose("addr", len(addrs))]
		before := len(h.conns)
		s.L.L.Addrs = append(s.L.L.Addrs, a.sa)
		fate := verif.Choose("fate", 4)
		if fate == 1 {
			s.L.L.AcceptErr = errs[verif.Choose("errno", len(errs))]
		} else if fate == 2 {
			failOp = "setnonblock"
		} else if fate == 3 {
			failOp = "epoll_add"
		}
		hit = false
		p := s.Accept()
		failOp = ""
		s.L.L.Addrs = nil
		if hit && fate == 2 || p.FD < 0 {
			// refused before a connection was made
			verif.Assert(p.FD >= 0, "a later accept succeeds")
			verif.Assert(len(h.conns) == before, "no connection for a failed set-up")
			verif.Assert(vunix.Lookup(p.FD).Closed, "the descriptor of a failed set-up is closed")
			continue
		}
		verif.Assert(len(h.conns) == before+1, "one connection per accepted socket")
		if len(h.conns) != before+1 {
			return
		}
		verif.Assert(len(chosen) == len(h.conns), "the strategy is asked once per connection")
		c := h.conns[before]
		verif.Assert(c.PeerAddr() == a.s, "peer address")
		peers = append(peers, p)
		k := chosen[before]
		if hit && fate == 3 {
			verif.Assert(h.closes[before] == 1, "OnClose when the registration fails")
			verif.Assert(!c.Connected(), "not connected when the registration failed")
			verif.Assert(vunix.Lookup(p.FD).Closed, "the descriptor is closed when the registration fails")
			want = append(want, 0)
		} else {
			verif.Assert(vunix.Lookup(p.FD).NonBlk, "non-blocking")
			ev, ok := vunix.Interest(p.FD)
			verif.Assert(ok && ev&unix.EPOLLIN != 0, "registered for reading")
			verif.Assert(vunix.Registrations(p.FD) == 1, "registered on exactly one loop")
			want = append(want, 1)
			live[k]++
		}
		for j, l := range loops {
			verif.Assert(l.ConnectionCount() == live[j], "ConnectionCount of every loop")
		}
	}
	// every live connection works
	for i, p := range peers {
		if want[i] == 1 {
			p.Feed([]byte{byte(i + 1)})
		}
	}
	hx.Idle()
	for i := range peers {
		if want[i] == 1 {
			verif.AssertEqBytes(h.got[i], []byte{byte(i + 1)}, "data reaches its own connection")
			verif.Assert(h.closes[i] == 0, "live connections stay open")
		}
		verif.Assert(vunix.Lookup(peers[i].FD).Closes <= 1, "closed at most once")
	}
	verif.Observe("conns", len(h.conns))
	// and ends
	for i, p := range peers {
		if want[i] == 1 {
			p.RxEOF = true
			live[chosen[i]]--
			hx.Idle()
			for j, l := range loops {
				verif.Assert(l.ConnectionCount() == live[j], "ConnectionCount after a close")
			}
		}
	}
	verif.Reach("done")
}

// Burst: several peers wait at once; round robin spreads them, in order.
func Burst() {
	h := &handler{}
	nl := 1 + verif.Choose("loops", 3)
	var loops []*eventloop.EventLoop
	rr := gev.RoundRobin()
	lc := gev.LeastConnection()
	least := verif.Choose("strategy", 2) == 1
	served := []int{}
	s := hx.Start(h, gev.NumLoops(nl), gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
		loops = ls
		l := rr(ls)
		if least {
			l = lc(ls)
		}
		for i := range ls {
			if ls[i] == l {
				served = append(served, i)
				for j := range ls {
					verif.Assert(!least || ls[j].ConnectionCount() >= l.ConnectionCount(), "least connections: minimal count")
				}
			}
		}
		return l
	}))
	n := 1 + verif.Choose("peers", verif.Tier(4, 6))
	var ps []*vunix.Conn
	for i := 0; i < n; i++ {
		ps = append(ps, s.Connect())
		if verif.Choose("wait", 2) == 1 {
			hx.Idle()
		}
	}
	hx.Idle()
	verif.Assert(len(h.conns) == n, "every peer is connected")
	verif.Assert(len(served) == n, "the strategy chooses for every peer")
	cnt := make([]int64, nl)
	for i, k := range served {
		if !least {
			verif.Assert(k == i%nl, "round robin: connection i on loop i mod n")
		}
		cnt[k]++
	}
	for j, l := range loops {
		verif.Assert(l.ConnectionCount() == cnt[j], "ConnectionCount")
	}
	for i, p := range ps {
		p.Feed([]byte{byte(i)})
		_ = p
	}
	hx.Idle()
	total := 0
	for i := range h.got {
		total += len(h.got[i])
	}
	verif.Assert(total == n, "every peer is served")
	verif.Reach("done")
}

// Many: many peers pending at once, each of which has sent something.
func Many() {
	h := &handler{}
	nl := 1 + verif.Choose("loops", 3)
	s := hx.Start(h, gev.NumLoops(nl))
	n := verif.Tier(600, 2000)
	var ps []*vunix.Conn
	for i := 0; i < n; i++ {
		p := s.Connect()
		p.Rx = append(p.Rx, byte(i))
		ps = append(ps, p)
	}
	hx.Idle()
	verif.Assert(len(h.conns) == n, "every peer gets a connection")
	for i, g := range h.got {
		verif.Assert(len(g) == 1, "what a peer has sent is delivered")
		verif.Assert(h.closes[i] == 0, "connections stay open")
	}
	seen := make([]bool, 256)
	for _, g := range h.got {
		if len(g) == 1 {
			seen[g[0]] = true
		}
	}
	for i := 0; i < n && i < 256; i++ {
		verif.Assert(seen[i], "each peer is served")
	}
	for _, p := range ps {
		p.RxEOF = true
	}
	hx.Idle()
	for i := range h.conns {
		verif.Assert(h.closes[i] == 1, "every connection ends once")
	}
	verif.Reach("done")
}
