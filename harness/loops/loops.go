// Package loops: connections of different loops served at the same time, with a
// scheduling point before every statement of gev and its plugins.
package loops

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"
	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
	"vrt/vunix"
)

// pairs takes messages of two bytes and builds them in the buffer of the loop.
type pairs struct{}

func (pairs) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.Length() < 3 {
		return nil, nil
	}
	b.Retrieve(1)
	verif.Yield()
	u := (*c.UserBuffer())[:2]
	_, _ = b.Read(u)
	verif.Yield()
	return nil, u
}

func (pairs) Packet(c *gev.Connection, data interface{}) []byte {
	verif.Yield()
	return data.([]byte)
}

type raw struct {
	got map[*gev.Connection][]byte
	all []*gev.Connection
}

func (h *raw) OnConnect(c *gev.Connection) { h.all = append(h.all, c) }
func (h *raw) OnClose(c *gev.Connection)   {}
func (h *raw) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	verif.Yield()
	h.got[c] = append(h.got[c], data...)
	return append([]byte(nil), data...)
}

// together lets two peers send at once.
func together(bound int, ps []*vunix.Conn, wires [][]byte) {
	verif.Steps = true
	verif.Explore(bound)
	for i := range ps {
		ps[i].Feed(wires[i])
	}
	hx.Idle()
	verif.StopExplore()
	hx.Idle()
}

// Raw: a protocol that uses the buffer of its loop.
func Raw() {
	h := &raw{got: map[*gev.Connection][]byte{}}
	s := hx.Start(h, gev.NumLoops(2), gev.CustomProtocol(pairs{}))
	var ps []*vunix.Conn
	for i := 0; i < 2; i++ {
		ps = append(ps, s.Accept())
	}
	if len(h.all) != 2 {
		verif.Assert(false, "two connections")
		return
	}
	wires, want := make([][]byte, 2), make([][]byte, 2)
	cut := []int{0, 4, 6}[verif.Choose("cut", 3)]
	for i := range ps {
		d := verif.Bytes("data", 4)
		want[i] = d
		wires[i] = []byte{0, d[0], d[1], 0, d[2], d[3]}
		if k := cut - 2*i; k > 0 { // what may already wait in the connection's own buffer
			ps[i].Feed(wires[i][:k])
			hx.Idle()
			wires[i] = wires[i][k:]
		}
	}
	together(verif.Tier(1, 2), ps, wires)
	for i, c := range h.all {
		verif.AssertEqBytes(h.got[c], want[i], "each connection delivers its own bytes")
		verif.AssertEqBytes(ps[i].Tx, want[i], "each connection gets its own answers")
	}
	verif.Reach("delivered")
}

type app struct{ msgs int }

func (a *app) OnConnect(c *gev.Connection) {}
func (a *app) OnClose(c *gev.Connection)   {}
func (a *app) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	verif.Yield()
	return ws.MessageBinary, msg
}

// Frames: WebSocket frames on two loops.
func Frames() {
	u := &ws.Upgrader{}
	s := hx.Start(websocket.NewHandlerWrap(u, &app{}), gev.NumLoops(2), gev.CustomProtocol(websocket.New(u)))
	var ps []*vunix.Conn
	wires, want := make([][]byte, 2), make([][]byte, 2)
	for i := range wires {
		ps = append(ps, wsx.Open(s))
		d := verif.Bytes("data", 3-i)
		wires[i] = wsx.Client(byte(1+i), d).Bytes()
		want[i] = wsx.Frame{Fin: true, Op: 2, Payload: d}.Bytes()
		if i == 1 { // a control frame behind it
			wires[i] = append(wires[i], wsx.Client(9, d).Bytes()...)
			want[i] = append(want[i], wsx.Frame{Fin: true, Op: 10, Payload: d}.Bytes()...)
		}
	}
	if cut := []int{0, 3, 1, 6}[verif.Choose("cut", verif.Tier(2, 4))]; cut > 0 {
		ps[0].Feed(wires[0][:cut])
		hx.Idle()
		wires[0] = wires[0][cut:]
	}
	together(1, ps, wires)
	for i := range ps {
		verif.AssertEqBytes(ps[i].Tx, want[i], "each connection gets the answers to its own frames")
	}
	verif.Reach("answered")
}

// Upgrades: WebSocket handshakes on two loops, with different keys.
func Upgrades() {
	u := &ws.Upgrader{Protocol: func(p []byte) bool { verif.Yield(); return string(p) == "b" || string(p) == "d" }}
	s := hx.Start(websocket.NewHandlerWrap(u, &app{}), gev.NumLoops(2), gev.CustomProtocol(websocket.New(u)))
	var ps []*vunix.Conn
	wires, want := make([][]byte, 2), make([][]byte, 2)
	for i := range wires {
		ps = append(ps, s.Accept())
		p, k := []string{"a, b", "c, d"}[i], []string{"dGhlIHNhbXBsZSBub25jZQ==", "AAAAAAAAAAAAAAAAAAAAAA=="}[i]
		wires[i] = []byte("GET /" + p[:1] + " HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + k + "\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: " + p + "\r\n\r\n")
		want[i] = []byte{p[3]}
	}
	together(1, ps, wires)
	for i := range ps {
		lines, body, ok := wsx.Head(ps[i].Tx)
		verif.Assert(ok && len(body) == 0, "each request is answered")
		seen := 0
		for _, l := range lines {
			switch l {
			case "Sec-WebSocket-Protocol: " + string(want[i]):
				seen |= 1
			case "Sec-WebSocket-Accept: " + []string{wsx.Accept, "ICX+Yqv66kxgM0FcWaLWlFLwTAI="}[i]:
				seen |= 2
			}
		}
		verif.Assert(seen == 3, "each answer belongs to its request")
	}
	verif.Reach("upgraded")
}

type pb struct{ h *raw }

func (h pb) OnConnect(c *gev.Connection) { h.h.OnConnect(c) }
func (h pb) OnClose(c *gev.Connection)   {}
func (h pb) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	t, _ := ctx.(string)
	verif.Yield()
	h.h.got[c] = append(append(h.h.got[c], t...), data...)
	verif.Yield()
	return protobuf.PackMessage(t, data)
}

// Proto: protobuf messages on two loops.
func Proto() {
	h := &raw{got: map[*gev.Connection][]byte{}}
	s := hx.Start(pb{h}, gev.NumLoops(2), gev.CustomProtocol(protobuf.New()))
	var ps []*vunix.Conn
	wires, want := make([][]byte, 2), make([][]byte, 2)
	for i := range wires {
		ps = append(ps, s.Accept())
		t, d := verif.Bytes("type", 1+i), verif.Bytes("data", 3-i)
		want[i] = append(append([]byte(nil), t...), d...)
		n := len(want[i]) + 2
		wires[i] = append([]byte{0, 0, 0, byte(n), 0, byte(len(t))}, want[i]...)
	}
	answers := [][]byte{wires[0], wires[1]}
	if cut := 3 * verif.Choose("cut", 3); cut > 0 {
		ps[0].Feed(wires[0][:cut])
		hx.Idle()
		wires[0] = wires[0][cut:]
	}
	together(verif.Tier(1, 2), ps, wires)
	for i, c := range h.all {
		verif.AssertEqBytes(h.got[c], want[i], "each connection delivers its own messages")
		verif.AssertEqBytes(ps[i].Tx, answers[i], "each connection gets its own answers")
	}
	verif.Reach("delivered")
}
