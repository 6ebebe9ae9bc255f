// Package c15: arbitrary bytes through the protobuf plugin.
package c15

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
)

// frame is what a well-formed frame of the stream carries.
type frame struct {
	typ, data []byte
}

// spec splits a byte stream into frames by their length field; bad reports that a
// malformed frame (shorter than its own type name) was met, at which it stops.
func spec(b []byte) (fs []frame, rest int, bad bool) {
	for {
		if len(b) < 4 {
			return fs, len(b), false
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if n < 2 {
			return fs, len(b), true
		}
		if len(b) < 4+n {
			return fs, len(b), false
		}
		t := int(b[4])<<8 | int(b[5])
		if 2+t > n {
			return fs, len(b), true
		}
		fs = append(fs, frame{b[6 : 6+t], b[6+t : 4+n]})
		b = b[4+n:]
	}
}

// Direct: any buffer content up to the bound, wherever it lies in the ring buffer.
func Direct() {
	n := verif.Choose("n", verif.Tier(13, 17)+1)
	b := verif.Bytes("wire", n)
	in := ringbuffer.New(0)
	if at := verif.Choose("wrap", n); at > 0 {
		// the data wraps around the end of the buffer after at bytes
		in = ringbuffer.New(n)
		_, _ = in.Write(make([]byte, n-at))
		in.Retrieve(n - at)
		_, _ = in.Write(b)
	} else {
		in.WithData(append([]byte(nil), b...))
	}
	want, _, bad := spec(b)
	p := protobuf.New()
	k := 0
	for {
		before := in.Length()
		ctx, out := p.UnPacket(nil, in)
		if ctx == nil && len(out) == 0 {
			break
		}
		verif.Assert(in.Length() < before, "a delivered message consumes its frame")
		if in.Length() >= before {
			return
		}
		if k >= len(want) {
			verif.Assert(bad, "only complete well-formed frames are delivered")
			return
		}
		t, ok := ctx.(string)
		verif.Assert(ok, "context is the message type")
		if !ok {
			return
		}
		verif.AssertEqBytes([]byte(t), want[k].typ, "message type")
		verif.AssertEqBytes(out, want[k].data, "payload")
		k++
	}
	verif.Assert(k >= len(want), "complete frames ahead of any malformed one are delivered")
	verif.Observe("delivered", k)
	if bad {
		verif.Reach("malformed")
	}
	if k > 0 {
		verif.Reach("delivered")
	}
}

type handler struct {
	got    []frame
	closed int
}

func (h *handler) OnConnect(c *gev.Connection) {}
func (h *handler) OnClose(c *gev.Connection)   { h.closed++ }
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	t, _ := ctx.(string)
	h.got = append(h.got, frame{[]byte(t), append([]byte(nil), data...)})
	return nil
}

// Server: a peer sends any bytes in two segments; the server survives and keeps
// serving another connection.
func Server() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(protobuf.New()))
	p := s.Accept()
	n := verif.Choose("n", verif.Tier(12, 18)+1)
	b := verif.Bytes("wire", n)
	cut := verif.Choose("cut", n+1)
	want, _, bad := spec(b)
	hx.Segments(p, b, []int{cut, n})
	if !bad {
		verif.Assert(len(h.got) == len(want), "complete frames are delivered")
	}
	for i := 0; i < len(want) && i < len(h.got); i++ {
		verif.AssertEqBytes(h.got[i].typ, want[i].typ, "message type")
		verif.AssertEqBytes(h.got[i].data, want[i].data, "payload")
	}
	verif.Assert(len(h.got) >= len(want), "frames ahead of a malformed one are delivered")
	k := len(h.got)
	q := s.Accept()
	q.Feed([]byte{0, 0, 0, 4, 0, 1, 'x', 'y'})
	hx.Idle()
	verif.Assert(len(h.got) == k+1, "another connection is still served")
	verif.Observe("got", len(h.got))
	verif.Reach("served")
}
