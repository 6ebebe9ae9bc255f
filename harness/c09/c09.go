// Package c09: the load balancing strategies.
package c09

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

func loops(n int) []*eventloop.EventLoop {
	var ls []*eventloop.EventLoop
	for i := 0; i < n; i++ {
		ls = append(ls, &eventloop.EventLoop{})
	}
	return ls
}

func counts(ls []*eventloop.EventLoop) []int64 {
	var cs []int64
	for _, l := range ls {
		c := int64(verif.Int("count", 0, 1<<62))
		l.ConnCunt.Swap(c)
		cs = append(cs, c)
	}
	return cs
}

// Robin: the i-th pick is loop i mod n, whatever the counts; instances are independent.
func Robin() {
	n := 1 + verif.Choose("n", verif.Tier(5, 8))
	ls := loops(n)
	other := gev.RoundRobin()
	s := gev.RoundRobin()
	counts(ls)
	skew := verif.Choose("skew", 3)
	for i := 0; i < skew; i++ {
		other(ls)
	}
	for i := 0; i < 2*n+1; i++ {
		l := s(ls)
		verif.Assert(l == ls[i%n], "round robin: pick i is loop i mod n")
	}
	verif.Assert(other(ls) == ls[skew%n], "round robin instances are independent")
	verif.Reach("picked")
}

// Least: the loop picked has a minimal count, for all counts, at every pick.
func Least() {
	n := 1 + verif.Choose("n", verif.Tier(5, 8))
	ls := loops(n)
	s := gev.LeastConnection()
	for pick := 0; pick < 2; pick++ {
		cs := counts(ls)
		l := s(ls)
		k := -1
		for i := range ls {
			if ls[i] == l {
				k = i
			}
		}
		verif.Assert(k >= 0, "least connection returns one of the loops")
		if k < 0 {
			return
		}
		ok := true
		for i := range cs {
			ok = verif.And(ok, cs[k] <= cs[i])
		}
		verif.Assert(ok, "least connection: no loop has fewer connections")
		if n > 3 {
			break
		}
	}
	verif.Reach("picked")
}

type app struct {
	conns []*gev.Connection
	tasks []*verif.Task
}

func (a *app) OnConnect(c *gev.Connection) {
	a.conns = append(a.conns, c)
	a.tasks = append(a.tasks, verif.Cur())
}
func (a *app) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	for i, x := range a.conns {
		if x == c {
			verif.Assert(verif.Cur() == a.tasks[i], "a connection stays with its loop")
		}
	}
	return data
}
func (a *app) OnClose(c *gev.Connection) {}

// server is a running server with the loops its strategy was shown and what it chose.
type server struct {
	*hx.Srv
	app   *app
	n     int
	loops []*eventloop.EventLoop
	picks []*eventloop.EventLoop
	count map[*eventloop.EventLoop]int
	peers []*vunix.Conn
	gone  []bool
	kind  int
}

func start(kind, n int) *server {
	sv := &server{app: &app{}, n: n, kind: kind, count: map[*eventloop.EventLoop]int{}}
	opts := []gev.Option{gev.NumLoops(n)}
	var inner gev.LoadBalanceStrategy
	switch kind {
	case 1:
		inner = gev.RoundRobin()
	case 2:
		inner = gev.LeastConnection()
	case 3: // the application's own
		inner = func(ls []*eventloop.EventLoop) *eventloop.EventLoop { return ls[verif.Choose("loop", len(ls))] }
	}
	if inner != nil {
		opts = append(opts, gev.LoadBalance(func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
			if sv.loops == nil {
				sv.loops = append(sv.loops, ls...)
			}
			verif.Assert(len(ls) == n, "the strategy is shown every loop")
			for i := range ls {
				verif.Assert(ls[i] == sv.loops[i], "the strategy is shown the same loops each time")
			}
			l := inner(ls)
			sv.picks = append(sv.picks, l)
			return l
		}))
	}
	sv.Srv = hx.Start(sv.app, opts...)
	return sv
}

// Servers: two servers in one process, with the default strategy or one of their own,
// connections arriving at either in any order and ending in between.
func Servers() {
	n := 1 + verif.Choose("loops", 3)
	k := verif.Choose("strategy", 4)
	svs := []*server{start(k, n), start([]int{0, k}[verif.Choose("other strategy", 2)], 2)}
	events := verif.Tier(5, 6)
	if k == 3 {
		events--
	}
	for i := 0; i < events; i++ {
		sv := svs[0]
		switch verif.Choose("event", 3) {
		case 1:
			sv = svs[1]
		case 2: // the oldest connection of the first server ends
			for j, p := range sv.peers {
				if !sv.gone[j] {
					p.RxEOF = true
					hx.Idle()
					sv.gone[j] = true
					if k != 0 {
						sv.count[sv.picks[j]]--
					}
					break
				}
			}
			continue
		}
		p := sv.Accept()
		sv.peers, sv.gone = append(sv.peers, p), append(sv.gone, false)
		c := len(sv.app.conns)
		verif.Assert(c == len(sv.peers), "connected")
		if c != len(sv.peers) {
			return
		}
		sv.check(c - 1)
		p.Feed([]byte{byte(i)})
		hx.Idle()
	}
	verif.Reach("served")
}

func (sv *server) check(i int) {
	conn := sv.app.conns[i]
	if sv.kind != 0 && len(sv.picks) > 0 { // the loop the strategy chose
		verif.Assert(len(sv.picks) == i+1, "the strategy is asked once for a connection")
		if len(sv.picks) != i+1 {
			verif.Exit()
		}
		l := sv.picks[i]
		verif.Assert(conn.UserBuffer() == l.UserBuffer, "a connection is served by the loop the strategy chose")
		if sv.kind == 2 {
			for _, x := range sv.loops {
				verif.Assert(sv.count[l] <= sv.count[x], "least connection: no loop has fewer connections")
			}
		}
		if sv.kind == 1 {
			verif.Assert(l == sv.loops[i%sv.n], "round robin: connection i goes to loop i mod n")
		}
		sv.count[l]++
		verif.Assert(l.ConnectionCount() == int64(sv.count[l]), "the loop counts its connections")
	}
	// one goroutine a loop
	for j := 0; j < i; j++ {
		same := sv.app.tasks[j] == sv.app.tasks[i]
		verif.Assert(same == (sv.app.conns[j].UserBuffer() == conn.UserBuffer()), "each loop runs the callbacks of its own connections")
		if sv.kind <= 1 {
			verif.Assert(same == (j%sv.n == i%sv.n), "round robin: connection i goes to loop i mod n of its server")
		}
	}
}
