// Package hx drives a gev server inside the models: the harness plays the peers.
package hx

import (
	"github.com/Allenxuxu/gev"
	"github.com/RussellLuo/timingwheel"

	"vrt/verif"
	"vrt/vnet"
	"vrt/vruntime"
	"vrt/vunix"
)

// Srv is a running server.
type Srv struct {
	S    *gev.Server
	L    *vnet.TCPListener
	Task *verif.Task
}

// Start makes a server and runs it until it is idle.
func Start(h gev.Handler, opts ...gev.Option) *Srv {
	vruntime.CPUs = 2
	s, err := gev.NewServer(h, opts...)
	if err != nil {
		verif.Assert(false, "NewServer failed: "+err.Error())
		verif.Exit()
	}
	r := &Srv{S: s, L: vnet.Ls[len(vnet.Ls)-1]}
	r.Task = verif.GoNamed("server", s.Start)
	verif.WaitIdle()
	return r
}

// Connect queues a new peer without running anything.
func (s *Srv) Connect() *vunix.Conn {
	p := vunix.NewPeer()
	s.L.L.Pending = append(s.L.L.Pending, p)
	return p
}

// Accept connects a peer and runs the server until it is idle.
func (s *Srv) Accept() *vunix.Conn {
	p := s.Connect()
	verif.WaitIdle()
	return p
}

// Idle runs everything until nothing can run.
func Idle() { verif.WaitIdle() }

// Wheel is the timing wheel of the server made last.
func Wheel() *timingwheel.TimingWheel {
	return timingwheel.All[len(timingwheel.All)-1]
}

// Cuts splits n bytes at k chosen points (segments may be empty).
func Cuts(name string, n, k int) []int {
	pos := make([]int, 0, k+1)
	lo := 0
	for i := 0; i < k; i++ {
		lo += verif.Choose(name, n-lo+1)
		pos = append(pos, lo)
	}
	return append(pos, n)
}

// Send makes the peer send b, cut into segments, letting the server run after each.
func Segments(p *vunix.Conn, b []byte, cuts []int) {
	last := 0
	for _, c := range cuts {
		if c > last {
			p.Feed(b[last:c])
			verif.WaitIdle()
			last = c
		}
	}
}

// IsOpen reports whether the server still holds p.
func IsOpen(p *vunix.Conn) bool {
	f := vunix.Lookup(p.FD)
	return f != nil && !f.Closed
}
