// Package c27: the length-prefixed protocol of the example.
package c27

import (
	"github.com/Allenxuxu/gev"
	xprotocol "github.com/Allenxuxu/gev/example/protocol"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
)

// Direct: a message of any size at any place of the ring buffer.
func Direct() {
	p := &xprotocol.ExampleProtocol{}
	n := verif.Int("n", 1, 65536)
	m := verif.Bytes("m", n)
	w := p.Packet(nil, m)
	verif.Assert(len(w) == n+4, "size of a packed message")
	have := verif.Int("have", 1, 65540)
	verif.Assume(have <= n+4)
	b := ringbuffer.New(0)
	b.WithData(append([]byte(nil), w[:have]...))
	ctx, got := p.UnPacket(nil, b)
	verif.Assert(ctx == nil, "no context")
	if have < len(w) {
		verif.Assert(len(got) == 0, "an incomplete message is not delivered")
		verif.Assert(b.Length() == have, "an incomplete message stays in the buffer")
		b.WithData(append([]byte(nil), w...))
		_, got = p.UnPacket(nil, b)
		verif.Reach("completed")
	}
	verif.Assert(len(got) == n, "length of the message")
	if len(got) == n {
		verif.AssertEqBytes(got, m, "content of the message")
	}
	verif.Assert(b.Length() == 0, "the message is consumed")
	_, got = p.UnPacket(nil, b)
	verif.Assert(len(got) == 0, "nothing more")
	verif.Reach("unpacked")
}

// Wrapped: short messages, at every position of a small ring buffer.
func Wrapped() {
	p := &xprotocol.ExampleProtocol{}
	size := 12
	b := ringbuffer.New(size)
	off := verif.Choose("offset", size)
	_, _ = b.Write(make([]byte, off))
	b.Retrieve(off)
	if verif.Choose("keep", 2) == 1 {
		// stays wrapped: a byte before the message
		_, _ = b.Write([]byte{9})
		b.Retrieve(1)
	}
	var ms [][]byte
	var wire []byte
	for i := 0; i < 2; i++ {
		m := verif.Bytes("m", 1+verif.Choose("len", 4))
		ms = append(ms, m)
		wire = append(wire, p.Packet(nil, m)...)
	}
	cut := verif.Choose("cut", len(wire)+1)
	var got [][]byte
	for _, s := range [][]byte{wire[:cut], wire[cut:]} {
		_, _ = b.Write(s)
		for {
			_, g := p.UnPacket(nil, b)
			if len(g) == 0 {
				break
			}
			got = append(got, g)
		}
	}
	verif.Assert(len(got) == 2, "every message is delivered once")
	for i := range got {
		if i < 2 {
			verif.Assert(string(got[i]) == string(ms[i]), "messages are delivered in order, unchanged")
		}
	}
	verif.Reach("unpacked")
}

type handler struct{ got [][]byte }

func (h *handler) OnConnect(c *gev.Connection) {}
func (h *handler) OnClose(c *gev.Connection)   {}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	h.got = append(h.got, append([]byte(nil), data...))
	return data
}

// Stream: two messages through the server, every cut into segments, echoed.
func Stream() {
	h := &handler{}
	pr := &xprotocol.ExampleProtocol{}
	p := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(pr)).Accept()
	var ms [][]byte
	var wire []byte
	for i := 0; i < 2; i++ {
		m := verif.Bytes("m", 1+verif.Choose("len", verif.Tier(2, 3)))
		ms = append(ms, m)
		wire = append(wire, pr.Packet(nil, m)...)
	}
	hx.Segments(p, wire, hx.Cuts("cut", len(wire), 2))
	verif.Assert(len(h.got) == 2, "every message is delivered once")
	for i := range h.got {
		if i < 2 {
			verif.Assert(string(h.got[i]) == string(ms[i]), "messages are delivered in order, unchanged")
		}
	}
	verif.AssertEqBytes(p.Tx, wire, "the echo carries the same messages")
	verif.Reach("delivered")
}
