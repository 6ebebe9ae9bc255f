// Package c25: what NewServer makes of its options, and its failures.
package c25

import (
	"errors"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/RussellLuo/timingwheel"

	"vrt/verif"
	"vrt/vnet"
	"vrt/vruntime"
	"vrt/vunix"
)

type handler struct{ c []*gev.Connection }

func (h *handler) OnConnect(c *gev.Connection) { h.c = append(h.c, c) }
func (h *handler) OnClose(c *gev.Connection)   {}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	return nil
}

type proto struct{ calls int }

func (p *proto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	p.calls++
	b.Retrieve(b.Length())
	return nil, nil
}
func (p *proto) Packet(c *gev.Connection, data interface{}) []byte { return nil }

// Options: every subset of the options.
func Options() {
	h := &handler{}
	vruntime.CPUs = 1 + verif.Choose("cpus", 3)
	var opts []gev.Option
	network, address, n, idle, reuse := "tcp", ":1388", vruntime.CPUs, time.Duration(0), false
	pr := &proto{}
	custom, balanced := false, false
	asked := 0
	loops := 0
	if verif.Choose("network", 2) == 1 {
		network = "tcp4"
		opts = append(opts, gev.Network(network))
	}
	if verif.Choose("address", 2) == 1 {
		address = string(verif.Bytes("addr", 4))
		opts = append(opts, gev.Address(address))
	}
	switch k := verif.Choose("loops", 5); k {
	case 0:
	case 1:
		opts = append(opts, gev.NumLoops(-verif.Int("minus", 0, 1<<40)))
	default:
		n = k - 1
		opts = append(opts, gev.NumLoops(n))
	}
	if verif.Choose("reuse", 2) == 1 {
		reuse = true
		opts = append(opts, gev.ReusePort(true))
	}
	if verif.Choose("idle", 2) == 1 {
		idle = time.Duration(verif.Int("idletime", int(time.Second), 1<<50))
		opts = append(opts, gev.IdleTime(idle))
	}
	if verif.Choose("protocol", 2) == 1 {
		custom = true
		opts = append(opts, gev.CustomProtocol(pr))
	}
	if verif.Choose("strategy", 2) == 1 {
		balanced = true
		opts = append(opts, gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
			asked++
			loops = len(ls)
			return ls[len(ls)-1]
		}))
	}
	if verif.Choose("reversed", 2) == 1 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	s, err := gev.NewServer(h, opts...)
	verif.Assert(err == nil && s != nil, "NewServer succeeds")
	if err != nil || s == nil {
		return
	}
	o := s.Options()
	verif.Assert(o.Network == network, "Options: network")
	verif.Assert(o.Address == address, "Options: address")
	verif.Assert(o.NumLoops == n, "Options: number of loops")
	verif.Assert(o.IdleTime == idle, "Options: idle time")
	verif.Assert(o.ReusePort == reuse, "Options: reuse port")
	verif.Assert(len(vnet.Ls) == 1, "listens once")
	l := vnet.Ls[0]
	verif.Assert(l.Net == network, "listens on the network")
	verif.Assert(l.Addr_ == address, "listens on the address")
	verif.Assert(l.Reuse == reuse, "listens with SO_REUSEPORT if asked")
	verif.GoNamed("server", s.Start)
	verif.WaitIdle()
	p := vunix.NewPeer()
	l.L.Pending = append(l.L.Pending, p)
	verif.WaitIdle()
	verif.Assert(len(h.c) == 1, "a connection is served")
	if len(h.c) != 1 {
		return
	}
	if balanced {
		verif.Assert(asked == 1, "the strategy is asked")
		verif.Assert(loops == n, "as many loops as configured")
	} else { // round robin over n loops
		for i := 1; i <= n; i++ {
			q := vunix.NewPeer()
			l.L.Pending = append(l.L.Pending, q)
			verif.WaitIdle()
		}
		verif.Assert(len(h.c) == n+1, "connections are served")
		if len(h.c) == n+1 {
			for i := 1; i <= n; i++ {
				same := h.c[i].UserBuffer() == h.c[0].UserBuffer()
				verif.Assert(same == (i == n), "round robin over the configured number of loops")
			}
		}
	}
	tw := timingwheel.All[0]
	verif.Assert(tw.Started, "the wheel runs")
	if idle == 0 {
		verif.Assert(len(tw.Timers) == 0, "no idle timer without an idle time")
	} else {
		verif.Assert(len(tw.Timers) == len(h.c), "an idle timer per connection")
		if len(tw.Timers) > 0 {
			verif.Assert(tw.Timers[0].D == idle, "the idle time is the configured one")
		}
	}
	p.Feed([]byte{1})
	verif.WaitIdle()
	verif.Assert((pr.calls > 0) == custom, "the protocol is the configured one")
	verif.Reach("served")
}

var errX = errors.New("x")

// Failures: NewServer fails at any of its system calls: an error, and nothing left open.
func Failures() {
	h := &handler{}
	vruntime.CPUs = 2
	if verif.Choose("nil", 2) == 1 {
		s, err := gev.NewServer(nil)
		verif.Assert(err != nil, "a nil handler is refused")
		verif.Assert(s == nil, "no server with an error")
		verif.Assert(len(vunix.Open()) == 0, "no descriptor is left open")
		verif.Reach("nil handler")
		return
	}
	count, at := 0, verif.Choose("at", 40)
	step := func() error {
		count++
		if count-1 == at {
			return errX
		}
		return nil
	}
	failed := ""
	vnet.Fail = func(op string) error {
		err := step()
		if err != nil {
			failed = op
		}
		return err
	}
	vunix.Fail = func(op string, fd int) error {
		if op == "close" || op == "write" {
			return nil
		}
		err := step()
		if err != nil {
			failed = op
		}
		return err
	}
	vnet.NotTCP = verif.Choose("nottcp", 2) == 1
	s, err := gev.NewServer(h, gev.NumLoops(2), gev.ReusePort(verif.Choose("reuse", 2) == 1))
	if vnet.NotTCP {
		verif.Assert(err != nil, "a listener without a descriptor is refused")
	}
	if failed != "" {
		verif.Assert(err != nil, "a failure to start is reported")
	} else if !vnet.NotTCP {
		verif.Assert(err == nil, "no error without a failure")
	}
	verif.Assert((s == nil) == (err != nil), "a server or an error")
	if err != nil {
		verif.Assert(len(vunix.Open()) == 0, "no descriptor is left open")
		verif.Reach("failed")
		return
	}
	verif.Reach("no failure")
}
