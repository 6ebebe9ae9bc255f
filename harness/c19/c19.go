// Package c19: WebSocket control frames (RFC 6455 section 5.5).
package c19

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"

	"github.com/Allenxuxu/gev/zz_harness/hx"
	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
	"vrt/vunix"
)

type app struct {
	msgs [][]byte
}

func (a *app) OnConnect(c *gev.Connection) {}
func (a *app) OnClose(c *gev.Connection)   {}
func (a *app) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	a.msgs = append(a.msgs, append([]byte(nil), msg...))
	return ws.MessageText, []byte("r")
}

func start() (*app, *vunix.Conn) {
	a := &app{}
	u := &ws.Upgrader{}
	s := hx.Start(websocket.NewHandlerWrap(u, a), gev.NumLoops(1), gev.CustomProtocol(websocket.New(u)))
	return a, wsx.Open(s)
}

// Ping: one pong with the same payload.
func Ping() {
	a, p := start()
	sizes := []int{0, 1, 2, 3, 7, 8, 9, 124, 125}
	pay := verif.Bytes("p", sizes[verif.Choose("len", len(sizes))])
	f := wsx.Client(9, pay)
	wire := f.Bytes()
	k := 1 + verif.Choose("twice", 2)
	if k == 2 {
		wire = append(wire, wire...)
	}
	cut := verif.Choose("cut", 12)
	if cut > len(wire) {
		cut = len(wire)
	}
	hx.Segments(p, wire, []int{cut, len(wire)})
	want := []byte{0x8a, byte(len(pay))}
	want = append(want, pay...)
	if k == 2 {
		want = append(want, want...)
	}
	verif.Assert(len(p.Tx) == len(want), "a ping is answered by one pong")
	verif.AssertEqBytes(p.Tx, want, "the answer to a ping")
	verif.Assert(len(a.msgs) == 0, "a ping is not passed to the application")
	verif.Assert(!p.TxShut && !vunix.Lookup(p.FD).Closed, "a ping leaves the connection open")
	verif.ObserveBytes("pong", p.Tx)
	verif.Reach("pong")
}

// utf8ok is RFC 3629.
func utf8ok(b []byte) bool {
	ite := verif.IteInt
	need, lo, hi := 0, 0x80, 0xbf // continuation bytes to come, bounds of the next
	bad := false
	for _, x := range b {
		c := int(x)
		first := need == 0
		follow := verif.And(c >= lo, c <= hi)
		lead := ite(c < 0x80, 0, ite(verif.And(c >= 0xc2, c <= 0xdf), 1, ite(verif.And(c >= 0xe0, c <= 0xef), 2,
			ite(verif.And(c >= 0xf0, c <= 0xf4), 3, 4))))
		bad = verif.Or(bad, verif.Or(verif.And(first, lead == 4), verif.And(!first, !follow)))
		lo = ite(verif.And(first, c == 0xe0), 0xa0, ite(verif.And(first, c == 0xf0), 0x90, 0x80))
		hi = ite(verif.And(first, c == 0xed), 0x9f, ite(verif.And(first, c == 0xf4), 0x8f, 0xbf))
		need = ite(first, lead, need-1)
	}
	return verif.And(!bad, need == 0)
}

const (
	valid = iota
	invalid
	either // codes RFC 6455 leaves open
)

// kind says whether an endpoint may send the status code (RFC 6455 section 7.4).
func kind(c int) int {
	switch {
	case c < 1000:
		return invalid
	case c == 1004 || c == 1005 || c == 1006 || c == 1015:
		return invalid
	case c <= 1011:
		return valid
	case c <= 1014:
		return either // registered later
	case c < 3000:
		return invalid
	case c < 5000:
		return valid
	}
	return either
}

// reply checks that p got exactly one close frame and returns its body.
func reply(p *vunix.Conn) ([]byte, bool) {
	t := p.Tx
	ok := len(t) >= 2 && t[0] == 0x88 && t[1] < 0x80 && len(t) == 2+int(t[1])
	verif.Assert(ok, "a close frame is answered by one unmasked close frame")
	if !ok {
		return nil, false
	}
	verif.Assert(len(t) <= 2+125, "the body of a close frame is at most 125 bytes long")
	return t[2:], true
}

// Close: every status code, any short reason, and the longest.
func Close() {
	a, p := start()
	k := verif.Choose("form", 4)
	var body []byte
	switch k {
	case 0: // empty
	case 1:
		body = verif.Bytes("half", 1)
	case 2:
		body = verif.Bytes("body", 2+verif.Choose("reason", verif.Tier(6, 11)))
	case 3:
		body = make([]byte, 124+verif.Choose("more", 2))
		copy(body, verif.Bytes("code", 2))
		for i := 2; i < len(body); i++ {
			body[i] = 'x'
		}
		copy(body[121:], verif.Bytes("tail", len(body)-121))
	}
	wire := wsx.Client(8, body).Bytes()
	cut := verif.Choose("cut", 2) * 7
	if cut > len(wire) {
		cut = len(wire)
	}
	hx.Segments(p, wire, []int{cut, len(wire)})
	verif.Assert(len(a.msgs) == 0, "a close frame is not passed to the application")
	got, ok := reply(p)
	if !ok {
		return
	}
	if len(body) == 0 {
		verif.Assert(len(got) == 0, "an empty close frame is answered by an empty one")
		verif.Reach("empty")
		return
	}
	verif.Assert(len(got) >= 2, "the answer to a close frame carries a status code")
	if len(got) < 2 {
		return
	}
	code := int(got[0])<<8 | int(got[1])
	if len(body) == 1 {
		verif.Assert(code == 1002, "half a status code is a protocol error")
		verif.Reach("half")
		return
	}
	c := int(body[0])<<8 | int(body[1])
	good := utf8ok(body[2:])
	switch kind(c) {
	case invalid:
		verif.Assert(code == 1002, "an invalid status code is a protocol error")
		verif.Reach("bad code")
	case valid:
		if good {
			verif.Assert(code == c, "a valid status code is echoed")
			verif.Reach("echo")
		} else {
			verif.Assert(code == 1002 || code == 1007, "an invalid reason is a protocol error")
			verif.Reach("bad reason")
		}
	case either:
		verif.Assert(code == c && good || code == 1002 || code == 1007, "an open status code is echoed or refused")
	}
	verif.Assert(utf8ok(got[2:]), "the reason sent back is UTF-8")
}

// Long: a close frame too long to be one; the answer keeps to the limit.
func Long() {
	a, p := start()
	sizes := []int{126, 127, 200}
	body := make([]byte, sizes[verif.Choose("size", len(sizes))])
	copy(body, verif.Bytes("code", 2))
	for i := 2; i < len(body); i++ {
		body[i] = 'x'
	}
	wire := wsx.Client(8, body).Bytes()
	hx.Segments(p, wire, []int{len(wire)})
	verif.Assert(len(a.msgs) == 0, "a close frame is not passed to the application")
	fs, rest := wsx.Parse(p.Tx)
	verif.Assert(len(rest) == 0, "only whole frames are sent")
	for _, f := range fs {
		verif.Assert(len(f.Payload) <= 125, "the body of a close frame is at most 125 bytes long")
	}
	verif.Reach("long")
}

// Mixed: control frames of every kind between data frames.
func Mixed() {
	a, p := start()
	n := verif.Tier(2, 3)
	var wire []byte
	var want [][]byte
	var msgs [][]byte
	open := false // an answer the specification leaves open
	for i := 0; i < n; i++ {
		pay := verif.Bytes("p", verif.Choose("len", 3))
		op := []byte{1, 2, 9, 10, 11, 15}[verif.Choose("kind", 6)]
		wire = append(wire, wsx.Client(op, pay).Bytes()...)
		switch op {
		case 1, 2:
			msgs = append(msgs, pay)
			want = append(want, []byte{0x81, 1, 'r'})
		case 9:
			want = append(want, append([]byte{0x8a, byte(len(pay))}, pay...))
		default:
			open = true
		}
	}
	wire = append(wire, wsx.Client(8, []byte{3, 232}).Bytes()...)
	want = append(want, []byte{0x88, 2, 3, 232})
	cut := verif.Choose("cut", len(wire)+1)
	hx.Segments(p, wire, []int{cut, len(wire)})
	verif.Assert(len(a.msgs) == len(msgs), "exactly the data frames are passed to the application")
	for i := range msgs {
		if i < len(a.msgs) {
			verif.AssertEqBytes(a.msgs[i], msgs[i], "a message")
		}
	}
	fs, rest := wsx.Parse(p.Tx)
	verif.Assert(len(rest) == 0, "only whole frames are sent")
	k := 0
	for _, f := range fs {
		b := f.Bytes()
		if k < len(want) && verif.EqBytes(b, want[k]) {
			k++
			continue
		}
		verif.Assert(open && f.Op != 10, "no frame but the answers due is sent")
	}
	verif.Assert(k == len(want), "every answer due is sent, in order")
	verif.Reach("mixed")
}

// Slow: the kernel takes the answers piece by piece; none is lost.
func Slow() {
	a, p := start()
	pay := verif.Bytes("p", verif.Choose("len", 3))
	var wire, want []byte
	k := verif.Choose("before", 3)
	switch k {
	case 1:
		wire = wsx.Client(9, pay).Bytes()
		want = append([]byte{0x8a, byte(len(pay))}, pay...)
	case 2:
		wire = wsx.Client(1, pay).Bytes()
		want = []byte{0x81, 1, 'r'}
	}
	switch verif.Choose("close", 3) {
	case 0:
		wire = append(wire, wsx.Client(8, nil).Bytes()...)
		want = append(want, 0x88, 0)
	case 1:
		wire = append(wire, wsx.Client(8, append([]byte{3, 232}, pay...)).Bytes()...)
		body := []byte{3, 232}
		if utf8ok(pay) {
			body = append(body, pay...)
		} else {
			body = nil // a protocol error
		}
		if body == nil {
			want = nil
			break
		}
		want = append(append(want, 0x88, byte(len(body))), body...)
	case 2:
		wire = append(wire, wsx.Client(8, pay[:len(pay)&1]).Bytes()...)
		if len(pay)&1 == 0 {
			want = append(want, 0x88, 0)
		} else {
			want = nil // a protocol error
		}
	}
	p.Window = verif.Int("window", 0, 12)
	hx.Segments(p, wire, []int{len(wire)})
	verif.WaitIdle()
	p.Window += verif.Int("more", 0, 12)
	verif.WaitIdle()
	p.Window = -1
	verif.WaitIdle()
	if want != nil {
		verif.Assert(len(p.Tx) == len(want), "the answers are sent once there is room, whole")
		verif.AssertEqBytes(p.Tx, want, "the answers sent")
		verif.Reach("answered")
	} else {
		fs, rest := wsx.Parse(p.Tx)
		verif.Assert(len(rest) == 0, "only whole frames are sent")
		last := len(fs) - 1
		ok := last >= 0 && fs[last].Op == 8 && len(fs[last].Payload) >= 2
		verif.Assert(ok && last == (k+1)/2, "the answer to the close frame is sent once there is room")
		verif.Reach("refused")
	}
	verif.Assert(len(a.msgs) == k/2, "exactly the data frames are passed to the application")
}
