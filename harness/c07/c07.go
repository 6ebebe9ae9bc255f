// Package c07: stopping a server.
package c07

import (
	"github.com/Allenxuxu/gev"
	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vnet"
	"vrt/vruntime"
	"vrt/vunix"
)

type handler struct {
	conns  []*gev.Connection
	closes []int
	msgs   int
}

func (h *handler) idx(c *gev.Connection) int {
	for i, x := range h.conns {
		if x == c {
			return i
		}
	}
	return -1
}
func (h *handler) OnConnect(c *gev.Connection) {
	verif.Assert(h.idx(c) < 0, "OnConnect once")
	h.conns = append(h.conns, c)
	h.closes = append(h.closes, 0)
}
func (h *handler) OnClose(c *gev.Connection) {
	i := h.idx(c)
	verif.Assert(i >= 0, "OnConnect before OnClose")
	if i >= 0 {
		h.closes[i]++
	}
}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	i := h.idx(c)
	verif.Assert(i >= 0 && h.closes[i] == 0, "OnMessage of a live connection")
	h.msgs++
	return data
}

func stopped(h *handler, srv, stop *verif.Task) {
	verif.Assert(stop.Done(), "Stop returns")
	verif.Assert(srv.Done(), "Start returns after Stop")
	for i := range h.conns {
		verif.Assert(h.closes[i] == 1, "OnClose once for every connection")
		verif.Assert(!h.conns[i].Connected(), "not connected after Stop")
	}
	for _, f := range vunix.Table() {
		verif.Assert(f.Closed, "every descriptor is closed after Stop")
		verif.Assert(f.Closes <= 1, "no descriptor is closed twice")
	}
	verif.Observe("connections", len(h.conns))
	verif.Observe("messages", h.msgs)
	verif.Reach("stopped")
}

// activity does something to the server while it is being stopped.
func activity(s *hx.Srv, h *handler, p *vunix.Conn, k int) {
	switch k {
	case 1:
		p.Feed([]byte{1})
	case 2:
		p.RxEOF = true
	case 3:
		p.RxErr = unix.ECONNRESET
	case 4:
		s.Connect()
	case 5:
		p.Window = 0
		p.Feed([]byte{1})
	}
}

// Quiet: the server is idle when it is stopped, then every interleaving of the stopping
// goroutine with the loops.
func Quiet() { run(1+verif.Choose("loops", 2), verif.Choose("conns", 3), false) }

// Busy: something happens to the connections at the same time.
func Busy() { run(1, 1, true) }

func run(loops, conns int, busy bool) {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(loops))
	var p *vunix.Conn
	for i := 0; i < conns; i++ {
		p = s.Accept()
	}
	k := 0
	if busy {
		k = verif.Choose("activity", 6)
	}
	n := verif.Tier(2, 3)
	if busy {
		n = verif.Tier(1, 2)
	}
	verif.Explore(n)
	activity(s, h, p, k)
	stop := verif.GoNamed("stop", s.S.Stop)
	hx.Idle()
	stopped(h, s.Task, stop)
}

// Early: Stop is called over and over from the moment Start begins.
func Early() {
	vruntime.CPUs = 2
	h := &handler{}
	sv, err := gev.NewServer(h, gev.NumLoops(1))
	if err != nil {
		verif.Assert(false, "NewServer failed")
		return
	}
	l := vnet.Ls[len(vnet.Ls)-1]
	if verif.Choose("peer", 2) == 1 {
		l.L.Pending = append(l.L.Pending, vunix.NewPeer())
	}
	verif.Explore(verif.Tier(1, 2))
	srv := verif.GoNamed("server", sv.Start)
	verif.GoNamed("stop", func() {
		for i := 0; i < 3; i++ {
			sv.Stop()
		}
	})
	hx.Idle()
	verif.StopExplore()
	stop := verif.GoNamed("stop", sv.Stop)
	hx.Idle()
	stopped(h, srv, stop)
}
