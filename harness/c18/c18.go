// Package c18: WebSocket frames under every segmentation.
package c18

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"

	"github.com/Allenxuxu/gev/zz_harness/hx"
	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
	"vrt/vunix"
)

type rec struct {
	head ws.Header
	data []byte
}

type handler struct {
	got    []rec
	closed int
}

func (h *handler) OnConnect(c *gev.Connection) {}
func (h *handler) OnClose(c *gev.Connection)   { h.closed++ }
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	if hd, ok := ctx.(*ws.Header); ok {
		h.got = append(h.got, rec{*hd, append([]byte(nil), data...)})
		return nil
	}
	return data
}

func start() (*handler, *hx.Srv) {
	h := &handler{}
	return h, hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(websocket.New(&ws.Upgrader{})))
}

// step feeds wire[at:to] and checks what has been delivered by then.
func (h *handler) step(p *vunix.Conn, fs []wsx.Frame, ends []int, wire []byte, at, to int) {
	if to > at {
		p.Feed(wire[at:to])
		verif.WaitIdle()
	}
	k := 0
	for k < len(ends) && ends[k] <= to {
		k++
	}
	verif.Assert(len(h.got) >= k, "a complete frame is delivered")
	verif.Assert(len(h.got) <= k, "an incomplete frame delivers nothing, a complete one is delivered once")
	for i := 0; i < k && i < len(h.got); i++ {
		g, f := h.got[i], fs[i]
		verif.Assert(byte(g.head.OpCode) == f.Op, "opcode of a frame")
		verif.Assert(g.head.Fin == f.Fin, "FIN of a frame")
		verif.Assert(g.head.Rsv == f.Rsv, "RSV of a frame")
		verif.Assert(g.head.Length == int64(len(f.Payload)), "length of a frame")
		verif.Assert(len(g.data) == len(f.Payload), "size of a payload")
		verif.AssertEqBytes(g.data, f.Payload, "payload of a frame")
	}
}

func (h *handler) run(p *vunix.Conn, fs []wsx.Frame, cuts func(n int) []int) {
	var wire []byte
	var ends []int
	for _, f := range fs {
		wire = append(wire, f.Bytes()...)
		ends = append(ends, len(wire))
	}
	at := 0
	for _, c := range cuts(len(wire)) {
		h.step(p, fs, ends, wire, at, c)
		at = c
	}
	verif.Assert(h.closed == 0, "the connection stays open")
	verif.Assert(len(p.Tx) == 0, "nothing is sent")
	verif.Observe("delivered", len(h.got))
	verif.Reach("delivered")
}

func anyFrame(masked bool, payload []byte) wsx.Frame {
	f := wsx.Frame{
		Fin: verif.Bool("fin"), Rsv: verif.Byte("rsv") & 7, Op: verif.Byte("opcode") & 15,
		Masked: masked, Payload: payload,
	}
	if masked {
		f.Mask = verif.Bytes("mask", 4)
	}
	return f
}

// Short: two small frames, every cut into three segments.
func Short() {
	h, s := start()
	p := wsx.Open(s)
	max := verif.Tier(4, 7)
	a := anyFrame(verif.Choose("masked", 2) == 1, verif.Bytes("p", verif.Choose("len", max)))
	b := anyFrame(verif.Choose("masked", 2) == 1, verif.Bytes("p", verif.Choose("len", max)))
	h.run(p, []wsx.Frame{a, b}, func(n int) []int { return hx.Cuts("cut", n, 2) })
}

// Bytewise: three small frames, one byte at a time.
func Bytewise() {
	h, s := start()
	p := wsx.Open(s)
	var fs []wsx.Frame
	for i := 0; i < 3; i++ {
		fs = append(fs, anyFrame(verif.Choose("masked", 2) == 1, verif.Bytes("p", verif.Choose("len", 4))))
	}
	h.run(p, fs, func(n int) []int {
		var cs []int
		for i := 1; i <= n; i++ {
			cs = append(cs, i)
		}
		return cs
	})
}

// Long: a frame with an extended length between two small ones, cut twice around
// its header and its end.
func Long() {
	h, s := start()
	p := wsx.Open(s)
	sizes := []int{126, 127, 300, 1000}
	n := sizes[verif.Choose("size", verif.Tier(3, len(sizes)))]
	pay := make([]byte, n)
	copy(pay, verif.Bytes("first", 3))
	copy(pay[n-3:], verif.Bytes("last", 3))
	fs := []wsx.Frame{
		anyFrame(true, verif.Bytes("p", verif.Choose("len", 2))),
		anyFrame(verif.Choose("masked", 2) == 1, pay),
		anyFrame(true, verif.Bytes("p", 1)),
	}
	h.run(p, fs, func(n int) []int {
		head := 7 + 14 + 2
		a := verif.Choose("cut", head)
		b := verif.Choose("cut2", head+11)
		if b >= head {
			b = n - (b - head)
		}
		if b < a {
			b = a
		}
		return []int{a, b, n}
	})
}

// Wide: an unmasked frame of any size, cut anywhere.
func Wide() {
	h, s := start()
	p := wsx.Open(s)
	n := verif.Int("size", 0, 140000)
	f := anyFrame(false, verif.Bytes("p", n))
	wire := f.Bytes()
	cut := verif.Int("cut", 0, 140010)
	verif.Assume(cut <= len(wire))
	if cut > 0 {
		p.Feed(wire[:cut])
		verif.WaitIdle()
	}
	if cut < len(wire) {
		verif.Assert(len(h.got) == 0, "an incomplete frame delivers nothing")
		p.Feed(wire[cut:])
		verif.WaitIdle()
	}
	h.step(p, []wsx.Frame{f}, []int{len(wire)}, wire, len(wire), len(wire))
	verif.Reach("delivered")
}

// Malformed: nothing that follows a header no client may send is taken for a frame.
func Malformed() {
	h, s := start()
	p := wsx.Open(s)
	a := anyFrame(true, verif.Bytes("p", verif.Choose("len", 2)))
	bad := wsx.Frame{Fin: true, Op: 2, Masked: verif.Choose("masked", 2) == 1, Mask: verif.Bytes("mask", 4), Payload: make([]byte, 65536)}.Header()
	bad[2] |= 0x80
	junk := verif.Bytes("junk", verif.Tier(8, 12))
	wire := append(append(a.Bytes(), bad...), junk...)
	cut := len(a.Bytes()) + verif.Choose("cut", len(bad)+1)
	p.Feed(wire[:cut])
	verif.WaitIdle()
	if cut < len(wire) && !vunix.Lookup(p.FD).Closed {
		p.Feed(wire[cut:])
		verif.WaitIdle()
	}
	verif.Assert(len(h.got) == 1, "only the frame ahead of the malformed header is delivered")
	verif.Reach("refused")
}

// Two: connections of one loop with frames in progress.
func Two() {
	h := &multi{got: map[*gev.Connection][]byte{}}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(websocket.New(&ws.Upgrader{})))
	var ps [3]*vunix.Conn
	var wire [3][]byte
	var want [3][]byte
	n := verif.Tier(2, 3)
	for i := 0; i < n; i++ {
		ps[i] = wsx.Open(s)
	}
	for i := 0; i < n; i++ {
		want[i] = verif.Bytes("p", 3)
		wire[i] = anyFrame(true, want[i]).Bytes()
	}
	var at [3]int
	for i := 0; i < n; i++ {
		at[i] = verif.Choose("cut", len(wire[i]))
		if at[i] > 0 {
			ps[i].Feed(wire[i][:at[i]])
		}
		if i == n-1 || verif.Choose("run", 2) == 1 {
			verif.WaitIdle()
		}
	}
	first := verif.Choose("first", n)
	for k := 0; k < n; k++ {
		i := (first + k) % n
		ps[i].Feed(wire[i][at[i]:])
		if verif.Choose("run", 2) == 1 {
			verif.WaitIdle()
		}
	}
	verif.WaitIdle()
	for i := 0; i < n; i++ {
		verif.Assert(len(h.order) == n, "every frame is delivered once")
		if i < len(h.order) {
			c := h.order[i]
			verif.AssertEqBytes(h.got[c], want[h.conn(c)], "payload of a frame")
		}
	}
	verif.Reach("delivered")
}

type multi struct {
	conns []*gev.Connection
	order []*gev.Connection
	got   map[*gev.Connection][]byte
}

func (h *multi) conn(c *gev.Connection) int {
	for i, x := range h.conns {
		if x == c {
			return i
		}
	}
	return 0
}

func (h *multi) OnConnect(c *gev.Connection) { h.conns = append(h.conns, c) }
func (h *multi) OnClose(c *gev.Connection)   {}
func (h *multi) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	if _, ok := ctx.(*ws.Header); ok {
		h.order = append(h.order, c)
		h.got[c] = append([]byte(nil), data...)
		return nil
	}
	return data
}

// Many: many frames in one segment, also behind one that was cut.
func Many() {
	h, s := start()
	p := wsx.Open(s)
	var fs []wsx.Frame
	var ends []int
	var wire []byte
	n := verif.Tier(1100, 3000)
	ops := []byte{1, 2, 0, 9, 10}
	for i := 0; i < n; i++ {
		f := wsx.Frame{Fin: true, Op: ops[i%len(ops)], Masked: i%3 != 0, Mask: []byte{1, 2, 3, byte(i)}, Payload: verif.Bytes("payload", i%9)}
		fs = append(fs, f)
		wire = append(wire, f.Bytes()...)
		ends = append(ends, len(wire))
	}
	cut := verif.Choose("cut", 12)
	h.step(p, fs, ends, wire, 0, cut)
	h.step(p, fs, ends, wire, cut, len(wire))
	verif.Assert(h.closed == 0, "the connection stays open")
	verif.Reach("delivered")
}
