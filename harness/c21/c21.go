// Package c21: the WebSocket opening handshake under every segmentation.
package c21

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"
	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
	"vrt/vunix"
)

type app struct {
	msgs   [][]byte
	closed int
}

func (a *app) OnConnect(c *gev.Connection) {}
func (a *app) OnClose(c *gev.Connection)   { a.closed++ }
func (a *app) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	a.msgs = append(a.msgs, append([]byte(nil), msg...))
	return ws.MessageText, nil
}

func start() (*app, *hx.Srv) {
	a := &app{}
	u := &ws.Upgrader{}
	return a, hx.Start(websocket.NewHandlerWrap(u, a), gev.NumLoops(1), gev.CustomProtocol(websocket.New(u)))
}

// req is a short valid request with the key of wsx.Request.
const req = "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"

func steps(a *app, p *vunix.Conn, wire []byte, ends []int, msgs [][]byte, cuts []int) {
	at := 0
	for _, c := range cuts {
		if c > at {
			p.Feed(wire[at:c])
			verif.WaitIdle()
			at = c
		}
		if at < len(req) {
			verif.Assert(len(p.Tx) == 0, "nothing is answered before the request is complete")
			verif.Assert(len(a.msgs) == 0, "nothing is delivered before the request is complete")
			verif.Assert(a.closed == 0, "an incomplete request does not end the connection")
			continue
		}
		verif.Assert(len(p.Tx) > 0, "a complete request is answered")
		k := 0
		for k < len(ends) && ends[k] <= at {
			k++
		}
		verif.Assert(len(a.msgs) == k, "frames sent behind the request are delivered once")
	}
	verif.Assert(wsx.Upgraded(p.Tx), "the request is accepted, once")
	for i := range msgs {
		if i < len(a.msgs) {
			verif.AssertEqBytes(a.msgs[i], msgs[i], "content of a frame behind the request")
		}
	}
	verif.Assert(a.closed == 0, "the connection stays open")
	verif.Reach("upgraded")
}

func build(n int) (wire []byte, ends []int, msgs [][]byte) {
	wire = []byte(req)
	for i := 0; i < n; i++ {
		m := verif.Bytes("p", 1+i)
		msgs = append(msgs, m)
		wire = append(wire, wsx.Client(2, m).Bytes()...)
		ends = append(ends, len(wire))
	}
	return
}

// Cuts: the request and two frames behind it, cut anywhere.
func Cuts() {
	a, s := start()
	p := s.Accept()
	wire, ends, msgs := build(2)
	n := len(wire)
	c := verif.Choose("cut", n+1)
	d := n
	if verif.Thorough() {
		d = c + verif.Choose("cut2", n-c+1)
	} else {
		r := len(req)
		d = []int{n, r - 1, r, r + 1, r + 2, r + 5, r + 6, r + 7, n - 1}[verif.Choose("cut2", 9)]
		if d < c {
			c, d = d, c
		}
	}
	steps(a, p, wire, ends, msgs, []int{c, d, n})
}

// Bytewise: the request in segments of any one size up to 64.
func Bytewise() {
	a, s := start()
	p := s.Accept()
	wire, ends, msgs := build(2)
	k := 1 + verif.Choose("size", 64)
	var cuts []int
	for i := k; i < len(wire); i += k {
		cuts = append(cuts, i)
	}
	steps(a, p, wire, ends, msgs, append(cuts, len(wire)))
}

// Wrapped: the request at any place of the ring buffer, whole or any part of it.
func Wrapped() {
	rest := verif.Bytes("rest", verif.Choose("behind", 3))
	have := len(req) - verif.Choose("missing", verif.Tier(6, len(req)+1))
	wire := append([]byte(req[:have]), rest...)
	if have < len(req) {
		wire = wire[:have]
	}
	room := len(req) + 3
	at := verif.Choose("at", room)
	in := ringbuffer.New(room)
	_, _ = in.Write(make([]byte, at))
	in.Retrieve(at)
	_, _ = in.Write(wire)
	var u ws.Upgrader
	out, _, err := u.Upgrade(nil, in)
	if have < len(req) {
		verif.Assert(len(out) == 0, "nothing is answered before the request is complete")
		verif.AssertEqBytes(in.Bytes(), wire, "an incomplete request stays in the buffer")
		_, _ = in.Write([]byte(req[have:]))
		out, _, err = u.Upgrade(nil, in)
		verif.Assert(err == nil && wsx.Upgraded(out), "the request is accepted once it is complete")
		verif.Assert(in.Length() == 0, "the request is consumed")
		verif.Reach("completed")
		return
	}
	verif.Assert(err == nil && wsx.Upgraded(out), "a complete request is accepted wherever it lies")
	verif.Assert(in.Length() == len(rest), "exactly the request is consumed")
	verif.AssertEqBytes(in.Bytes(), rest, "what follows the request is kept")
	verif.Reach("accepted")
}

// Again: a valid request behind a refused one, cut anywhere.
func Again() {
	a, s := start()
	p := s.Accept()
	bad := []string{
		"GET / HTTP/1.1\r\nHost: h\r\n\r\n",
		"GET / HTTP/1.0\r\n\r\n",
		"x\r\n\r\n",
	}[verif.Choose("bad", 3)]
	part := verif.Choose("part", verif.Tier(8, len(req))) * verif.Tier(16, 1)
	if part > len(req) {
		part = len(req)
	}
	p.Feed([]byte(bad + req[:part]))
	verif.WaitIdle()
	n := len(p.Tx)
	verif.Assert(n > 0, "a refused request is answered")
	if !hx.IsOpen(p) || p.TxShut {
		verif.Reach("ended")
		return
	}
	cut := part + verif.Choose("cut", len(req)-part)
	if cut > part {
		p.Feed([]byte(req[part:cut]))
		verif.WaitIdle()
	}
	if cut < len(req) {
		verif.Assert(len(p.Tx) == n, "nothing is answered before the request is complete")
		f := wsx.Client(1, verif.Bytes("p", 2))
		p.Feed(append([]byte(req[cut:]), f.Bytes()...))
		verif.WaitIdle()
		verif.Assert(len(a.msgs) == 1, "a frame behind the request is delivered")
		if len(a.msgs) == 1 {
			verif.AssertEqBytes(a.msgs[0], f.Payload, "content of a frame behind the request")
		}
	}
	verif.Assert(wsx.Upgraded(p.Tx[n:]), "the request is accepted, once")
	verif.Reach("upgraded")
}

// Two: two connections with their requests in progress.
func Two() {
	a, s := start()
	p, q := s.Accept(), s.Accept()
	n := len(req)
	c := verif.Choose("cut", verif.Tier(19, n)) * verif.Tier(8, 1)
	if c > n {
		c = n
	}
	d := n - 1 - verif.Choose("cut2", verif.Tier(8, 40))
	if c > 0 {
		p.Feed([]byte(req[:c]))
	}
	if verif.Choose("run", 2) == 1 {
		verif.WaitIdle()
	}
	q.Feed([]byte(req[:d]))
	verif.WaitIdle()
	verif.Assert((len(p.Tx) == 0 || c == n) && len(q.Tx) == 0, "nothing is answered before the request is complete")
	if c < n {
		p.Feed([]byte(req[c:]))
	}
	if verif.Choose("run", 2) == 1 {
		verif.WaitIdle()
	}
	q.Feed(append([]byte(req[d:]), wsx.Client(1, verif.Bytes("p", 1)).Bytes()...))
	verif.WaitIdle()
	verif.Assert(wsx.Upgraded(p.Tx) && wsx.Upgraded(q.Tx), "each request is accepted, once")
	verif.Assert(len(a.msgs) == 1, "a frame behind the request is delivered")
	verif.Reach("upgraded")
}
