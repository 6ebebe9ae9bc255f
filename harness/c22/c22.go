// Package c22: application messages through the WebSocket handler.
package c22

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"

	"github.com/Allenxuxu/gev/zz_harness/hx"
	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
	"vrt/vunix"
)

type app struct {
	msgs   [][]byte
	answer func(msg []byte) (ws.MessageType, []byte)
	closed int
}

func (a *app) OnConnect(c *gev.Connection) {}
func (a *app) OnClose(c *gev.Connection)   { a.closed++ }
func (a *app) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	a.msgs = append(a.msgs, append([]byte(nil), msg...))
	return a.answer(msg)
}

func start(a *app) *vunix.Conn {
	u := &ws.Upgrader{}
	s := hx.Start(websocket.NewHandlerWrap(u, a), gev.NumLoops(1), gev.CustomProtocol(websocket.New(u)))
	return wsx.Open(s)
}

func kindOf(k int) (ws.MessageType, byte) {
	if k == 0 {
		return ws.MessageText, 1
	}
	return ws.MessageBinary, 2
}

// Answer: any answer to a message of any size.
func Answer() {
	a := &app{}
	p := start(a)
	n := verif.Int("size", 0, 70000)
	msg := verif.Bytes("msg", n)
	f := wsx.Frame{Fin: true, Op: byte(1 + verif.Choose("op", 2)), Payload: msg}
	m := verif.Int("answer", 0, 70000)
	ans := verif.Bytes("ans", m)
	t, op := kindOf(verif.Choose("type", 2))
	a.answer = func([]byte) (ws.MessageType, []byte) { return t, ans }
	wire := f.Bytes()
	p.Feed(wire)
	verif.WaitIdle()
	verif.Assert(len(a.msgs) == 1, "a message is passed to the application once")
	if len(a.msgs) != 1 {
		return
	}
	verif.Assert(len(a.msgs[0]) == n, "size of a message")
	verif.AssertEqBytes(a.msgs[0], msg, "content of a message")
	if m == 0 {
		verif.Assert(len(p.Tx) == 0, "nothing is sent when the application returns nothing")
		verif.Reach("silent")
		return
	}
	want := wsx.Frame{Fin: true, Op: op, Payload: ans}.Bytes()
	verif.Assert(len(p.Tx) == len(want), "size of the answer")
	verif.AssertEqBytes(p.Tx, want, "the answer is one final unmasked frame of its type with exactly the bytes returned")
	verif.Reach("answered")
}

// Several: messages one behind the other, each answered in its own way, cut anywhere.
func Several() {
	a := &app{}
	p := start(a)
	n := verif.Tier(2, 3)
	var wire []byte
	var msgs, want [][]byte
	type ans struct {
		t ws.MessageType
		b []byte
	}
	var as []ans
	op0 := byte(1 + verif.Choose("op", 2))
	for i := 0; i < n; i++ {
		msg := verif.Bytes("msg", 2*verif.Choose("len", 2))
		msgs = append(msgs, msg)
		f := wsx.Client(op0, msg)
		wire = append(wire, f.Bytes()...)
		t, op := kindOf(verif.Choose("type", 2))
		switch verif.Choose("answer", 4) {
		case 0:
			as = append(as, ans{t, nil})
		case 1:
			as = append(as, ans{t, []byte{}})
		case 2:
			b := verif.Bytes("ans", 2)
			as = append(as, ans{t, b})
			want = append(want, wsx.Frame{Fin: true, Op: op, Payload: b}.Bytes())
		case 3: // the message itself
			as = append(as, ans{t, msg})
			if len(msg) > 0 {
				want = append(want, wsx.Frame{Fin: true, Op: op, Payload: msg}.Bytes())
			}
		}
	}
	a.answer = func(msg []byte) (ws.MessageType, []byte) {
		i := len(a.msgs) - 1
		if i >= n {
			return ws.MessageText, nil
		}
		if len(as[i].b) > 0 && len(msg) > 0 && &as[i].b[0] == &msgs[i][0] {
			return as[i].t, msg
		}
		return as[i].t, as[i].b
	}
	cut := verif.Choose("cut", len(wire)+1)
	hx.Segments(p, wire, []int{cut, len(wire)})
	verif.Assert(len(a.msgs) == n, "every message is passed to the application once")
	for i := range a.msgs {
		if i < n {
			verif.AssertEqBytes(a.msgs[i], msgs[i], "content of a message")
		}
	}
	var all []byte
	for _, w := range want {
		all = append(all, w...)
	}
	verif.AssertEqBytes(p.Tx, all, "exactly the answers are sent, in order")
	verif.Assert(a.closed == 0, "the connection stays open")
	verif.Reach("answered")
}

// Echo: a masked message of the sizes around each length form, sent back.
func Echo() {
	a := &app{}
	p := start(a)
	sizes := []int{1, 3, 4, 7, 8, 9, 13, 125, 126, 127, 300, 1000}
	msg := verif.Bytes("msg", sizes[verif.Choose("size", len(sizes))])
	t, op := kindOf(verif.Choose("type", 2))
	a.answer = func(m []byte) (ws.MessageType, []byte) { return t, m }
	wire := wsx.Client(byte(1+verif.Choose("op", 2)), msg).Bytes()
	want := wsx.Frame{Fin: true, Op: op, Payload: msg}.Bytes()
	two := verif.Choose("twice", 2) == 1
	if two {
		wire = append(wire, wire...)
		want = append(want, want...)
	}
	cut := verif.Choose("cut", verif.Tier(4, 10)) * 3
	if cut > len(wire) {
		cut = len(wire)
	}
	hx.Segments(p, wire, []int{cut, len(wire)})
	verif.AssertEqBytes(p.Tx, want, "a message sent back is unchanged")
	verif.Reach("echoed")
}
