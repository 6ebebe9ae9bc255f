// Package c14: protobuf framing.
package c14

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
)

type msg struct {
	typ  string
	data []byte
}

type handler struct {
	got []msg
}

func (h *handler) OnConnect(c *gev.Connection) {}
func (h *handler) OnClose(c *gev.Connection)   {}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	t, ok := ctx.(string)
	verif.Assert(ok, "context is the message type")
	h.got = append(h.got, msg{t, append([]byte(nil), data...)})
	return nil
}

// Wire: the layout of one packed message, for all sizes up to the stated bound.
func Wire() {
	tn := verif.Int("typelen", 0, 65535)
	dn := verif.Int("datalen", 0, 70000)
	typ := verif.Bytes("type", tn)
	data := verif.Bytes("data", dn)
	b := protobuf.PackMessage(string(typ), data)
	verif.Assert(len(b) == 6+tn+dn, "packed length")
	if len(b) != 6+tn+dn {
		return
	}
	total := 2 + tn + dn
	verif.Assert(b[0] == byte(total>>24), "length byte 0")
	verif.Assert(b[1] == byte(total>>16), "length byte 1")
	verif.Assert(b[2] == byte(total>>8), "length byte 2")
	verif.Assert(b[3] == byte(total), "length byte 3")
	verif.Assert(b[4] == byte(tn>>8), "type length byte 0")
	verif.Assert(b[5] == byte(tn), "type length byte 1")
	verif.AssertEqBytes(b[6:6+tn], typ, "type on the wire")
	verif.AssertEqBytes(b[6+tn:], data, "payload on the wire")
	verif.Reach("packed")

	// and back, from a buffer that also holds the start of the next frame
	in := ringbuffer.New(0)
	wire := append(append([]byte(nil), b...), 0, 0, 0)
	in.WithData(wire)
	ctx, out := protobuf.New().UnPacket(nil, in)
	t, ok := ctx.(string)
	verif.Assert(ok, "complete message is delivered")
	if !ok {
		return
	}
	verif.AssertEqBytes([]byte(t), typ, "message type")
	verif.AssertEqBytes(out, data, "payload")
	verif.Assert(in.Length() == 3, "exactly one frame consumed")
	ctx, out = protobuf.New().UnPacket(nil, in)
	verif.Assert(ctx == nil && len(out) == 0, "nothing delivered from an incomplete frame")
	verif.Reach("unpacked")
}

// Stream: messages over a connection, cut anywhere.
func Stream() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(protobuf.New()))
	p := s.Accept()
	n := 1 + verif.Choose("messages", 2)
	var want []msg
	var wire []byte
	var ends []int
	for i := 0; i < n; i++ {
		t := string(verif.Bytes("type", verif.Choose("typelen", 3)))
		d := verif.Bytes("data", verif.Choose("datalen", 3))
		want = append(want, msg{t, d})
		wire = append(wire, protobuf.PackMessage(t, d)...)
		ends = append(ends, len(wire))
	}
	cuts := hx.Cuts("cut", len(wire), verif.Tier(2, 3))
	last := 0
	for _, c := range cuts {
		if c > last {
			p.Feed(wire[last:c])
			hx.Idle()
			last = c
		}
		// exactly the messages that are complete have been delivered
		k := 0
		for k < n && ends[k] <= last {
			k++
		}
		verif.Assert(len(h.got) == k, "messages delivered once complete, and not before")
		if len(h.got) != k {
			return
		}
	}
	for i := range want {
		verif.AssertEqBytes([]byte(h.got[i].typ), []byte(want[i].typ), "message type")
		verif.AssertEqBytes(h.got[i].data, want[i].data, "payload")
	}
	verif.Observe("got", len(h.got))
	verif.Reach("all delivered")
}

// Stable: a packed message stays as it is while others are packed and unpacked (they may
// still wait to be written).
func Stable() {
	a := verif.Bytes("a", verif.Int("alen", 0, 300))
	b := verif.Bytes("b", verif.Int("blen", 0, 300))
	t := string(verif.Bytes("type", verif.Choose("typelen", 3)))
	first := protobuf.PackMessage(t, a)
	n := len(first)
	keep := append([]byte(nil), first...)
	second := protobuf.PackMessage("zz", b)
	keep2 := append([]byte(nil), second...)
	if verif.Choose("unpack", 2) == 1 {
		in := ringbuffer.New(0)
		in.WithData(append([]byte(nil), keep...))
		_, _ = protobuf.New().UnPacket(nil, in)
		_, _ = protobuf.New().UnPacket(nil, in)
	}
	_ = protobuf.PackMessage("q", a)
	verif.Assert(len(first) == n, "a packed message keeps its length")
	verif.AssertEqBytes(first, keep, "a packed message does not change")
	verif.AssertEqBytes(second, keep2, "a packed message does not change")
	verif.Reach("stable")
}

// Many: many messages in one segment, also behind one that was cut.
func Many() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(protobuf.New()))
	p := s.Accept()
	var want []msg
	var wire []byte
	n := verif.Tier(1100, 3000)
	for i := 0; i < n; i++ {
		t, d := string(verif.Bytes("type", i%3)), verif.Bytes("data", i%7)
		want = append(want, msg{t, d})
		wire = append(wire, protobuf.PackMessage(t, d)...)
	}
	hx.Segments(p, wire, []int{verif.Choose("cut", 14), len(wire)})
	verif.Assert(len(h.got) == n, "every message of a burst is delivered")
	for i := range h.got {
		verif.AssertEqBytes([]byte(h.got[i].typ), []byte(want[i].typ), "message type")
		verif.AssertEqBytes(h.got[i].data, want[i].data, "payload")
	}
	verif.Reach("all delivered")
}
