// Package c16: WebSocket frame headers (RFC 6455 section 5.2) and frame building.
package c16

import (
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
	"github.com/Allenxuxu/ringbuffer"

	"vrt/verif"
)

func anyHeader() ws.Header {
	h := ws.Header{
		Fin:    verif.Bool("fin"),
		Rsv:    verif.Byte("rsv") & 7,
		OpCode: ws.OpCode(verif.Byte("opcode") & 15),
		Masked: verif.Bool("masked"),
		Length: int64(verif.Uint64("length")),
	}
	m := verif.Bytes("mask", 4)
	if h.Masked {
		copy(h.Mask[:], m)
	}
	return h
}

// spec is the RFC 6455 layout of h.
func spec(h ws.Header) []byte {
	var b []byte
	c := byte(0)
	if h.Fin {
		c |= 0x80
	}
	c |= h.Rsv << 4
	c |= byte(h.OpCode)
	b = append(b, c)
	m := byte(0)
	if h.Masked {
		m = 0x80
	}
	n := uint64(h.Length)
	switch {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127, byte(n>>56), byte(n>>48), byte(n>>40), byte(n>>32), byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	if h.Masked {
		b = append(b, h.Mask[0], h.Mask[1], h.Mask[2], h.Mask[3])
	}
	return b
}

func same(a, b ws.Header, what string) {
	verif.Assert(a.Fin == b.Fin, what+": FIN")
	verif.Assert(a.Rsv == b.Rsv, what+": RSV")
	verif.Assert(a.OpCode == b.OpCode, what+": opcode")
	verif.Assert(a.Masked == b.Masked, what+": mask bit")
	verif.Assert(a.Length == b.Length, what+": length")
	if b.Masked {
		for i := 0; i < 4; i++ {
			verif.Assert(a.Mask[i] == b.Mask[i], what+": masking key")
		}
	}
}

// Encode: every header is laid out as the RFC says, and decodes to itself.
func Encode() {
	h := anyHeader()
	verif.Assume(h.Length >= 0)
	bts, err := ws.WriteHeader(&h)
	verif.Assert(err == nil, "a header with a non-negative length is encoded")
	if err != nil {
		return
	}
	want := spec(h)
	verif.AssertEqBytes(bts, want, "encoded header")
	verif.ObserveBytes("hdr", bts)
	verif.Reach("encoded")

	in := ringbuffer.New(0)
	buf := make([]byte, len(want), len(want)+8)
	copy(buf, want)
	buf = append(buf, 1, 2, 3, 4, 5, 6)
	in.WithData(buf)
	g, err := ws.VirtualReadHeader(make([]byte, 0, ws.MaxHeaderSize), in)
	verif.Assert(err == nil, "an encoded header decodes")
	if err != nil {
		return
	}
	same(g, h, "decode of encode")
	verif.Assert(in.VirtualLength() == 6, "decoding consumes exactly the header")
	in.VirtualRevert()
	verif.Assert(in.Length() == len(want)+6, "virtual decoding consumes nothing for good")
	verif.Reach("decoded")
}

// Decode: any bytes at any place of a ring buffer, a header followed by some of its
// payload.
func Decode() {
	raw := verif.Bytes("header", ws.MaxHeaderSize)
	size := 2
	switch raw[1] & 0x7f {
	case 126:
		size = 4
	case 127:
		size = 10
	}
	want := ws.Header{
		Fin:    raw[0]&0x80 != 0,
		Rsv:    raw[0] >> 4 & 7,
		OpCode: ws.OpCode(raw[0] & 15),
		Masked: raw[1]&0x80 != 0,
	}
	n := uint64(raw[1] & 0x7f)
	if size > 2 {
		n = 0
		for _, c := range raw[2:size] {
			n = n<<8 | uint64(c)
		}
	}
	want.Length = int64(n)
	if want.Masked {
		copy(want.Mask[:], raw[size:size+4])
		size += 4
	}
	short := size == 4 && !want.Masked || size == 8 // 16-bit form
	minimal := true
	if short {
		minimal = n >= 126
	}
	if size >= 10 {
		minimal = n >= 65536
	}
	const more = 3
	room := 20
	at := verif.Choose("at", room+1) // where in the ring buffer
	in := ringbuffer.New(room)
	_, _ = in.Write(make([]byte, at))
	in.Retrieve(at)
	wire := append(append([]byte(nil), raw[:size]...), 1, 2, 3)
	_, _ = in.Write(wire)
	g, err := ws.VirtualReadHeader(make([]byte, 0, ws.MaxHeaderSize), in)
	if n>>63 != 0 || !minimal {
		// not a well-formed header: refusing it is right
		if err != nil {
			verif.Reach("refused")
			return
		}
		verif.Assert(n>>63 == 0, "a length with the highest bit set is refused")
	}
	verif.Assert(err == nil, "a well-formed header decodes")
	if err != nil {
		return
	}
	same(g, want, "decoded header")
	if n > 0 {
		verif.Assert(in.VirtualLength() == more, "decoding consumes exactly the header")
		in.VirtualRevert()
		verif.Assert(in.Length() == len(wire), "virtual decoding consumes nothing for good")
	}
	verif.Reach("decoded")
}

// payload has n bytes: the first and the last few are symbolic.
func payload(n int) []byte {
	if n <= 16 {
		return verif.Bytes("payload", n)
	}
	b := make([]byte, n)
	copy(b, verif.Bytes("head", 4))
	copy(b[n-4:], verif.Bytes("tail", 4))
	return b
}

func frame(h ws.Header, p []byte) []byte {
	h.Length = int64(len(p))
	return append(spec(h), p...)
}

// Frames: every way to build a frame gives a header for the payload and the payload.
func Frames() {
	n := verif.Int("size", 0, 70000)
	p := verif.Bytes("payload", n)
	orig := append([]byte(nil), p...)
	var got, want []byte
	var err error
	switch k := verif.Choose("kind", 9); k {
	case 0:
		got, err = ws.FrameToBytes(ws.NewTextFrame(p))
		want = frame(ws.Header{Fin: true, OpCode: ws.OpText}, p)
	case 1:
		got, err = ws.FrameToBytes(ws.NewBinaryFrame(p))
		want = frame(ws.Header{Fin: true, OpCode: ws.OpBinary}, p)
	case 2:
		got, err = ws.FrameToBytes(ws.NewPingFrame(p))
		want = frame(ws.Header{Fin: true, OpCode: ws.OpPing}, p)
	case 3:
		got, err = ws.FrameToBytes(ws.NewPongFrame(p))
		want = frame(ws.Header{Fin: true, OpCode: ws.OpPong}, p)
	case 4:
		got, err = ws.FrameToBytes(ws.NewCloseFrame(p))
		want = frame(ws.Header{Fin: true, OpCode: ws.OpClose}, p)
	case 5:
		got, err = util.PackData(ws.MessageText, p)
		want = frame(ws.Header{Fin: true, OpCode: ws.OpText}, p)
	case 6:
		got, err = util.PackData(ws.MessageBinary, p)
		want = frame(ws.Header{Fin: true, OpCode: ws.OpBinary}, p)
	case 7:
		fin := verif.Bool("fin")
		op := ws.OpCode(verif.Byte("opcode") & 15)
		got, err = ws.FrameToBytes(ws.NewFrame(op, fin, p))
		want = frame(ws.Header{Fin: fin, OpCode: op}, p)
	case 8:
		// a frame put together by hand, masked as a client sends it
		h := ws.Header{Fin: verif.Bool("fin"), Rsv: verif.Byte("rsv") & 7, OpCode: ws.OpCode(verif.Byte("opcode") & 15), Masked: true, Length: int64(n)}
		copy(h.Mask[:], verif.Bytes("mask", 4))
		got, err = ws.FrameToBytes(&ws.Frame{Header: h, Payload: p})
		want = frame(h, p)
	}
	verif.Assert(err == nil, "a frame is encoded")
	verif.Assert(len(got) == len(want), "length of a frame")
	verif.AssertEqBytes(got, want, "encoded frame")
	verif.AssertEqBytes(p, orig, "the payload is left alone")
	verif.Reach("framed")
}

// Close: close frames made by the server are well formed, whatever the reason.
func Close() {
	sizes := []int{0, 1, 4, 122, 123, 124, 125, 126, 200}
	n := sizes[verif.Choose("size", len(sizes))]
	reason := payload(n)
	code := ws.StatusNormalClosure
	var got []byte
	var err error
	if verif.Choose("api", 2) == 0 {
		got, err = util.PackCloseData(string(reason))
	} else {
		c := verif.Int("code", 0, 65535)
		code = ws.StatusCode(c)
		got, err = ws.FrameToBytes(ws.NewCloseFrame(ws.NewCloseFrameBody(code, string(reason))))
	}
	verif.Assert(err == nil, "a close frame is encoded")
	k := n
	if k > 123 {
		k = 123
	}
	verif.Assert(len(got) >= 4 && len(got) <= 2+125, "the body of a close frame is 2 to 125 bytes long")
	if len(got) < 4 {
		return
	}
	verif.Assert(got[0] == 0x88 && int(got[1]) == len(got)-2, "header of a close frame")
	verif.Assert(int(got[2])<<8|int(got[3]) == int(code), "status code of a close frame")
	verif.Assert(len(got) <= 4+k, "length of the reason of a close frame")
	if n <= 123 {
		verif.Assert(len(got) == 4+n, "a reason that fits is complete")
	}
	for i := 4; i < len(got) && i < 4+k; i++ {
		verif.Assert(got[i] == reason[i-4], "reason of a close frame")
	}
	verif.Reach("closing")
}

// Classify: what the helpers say about an opcode, the reserved bits of a header and a
// close status is what RFC 6455 says (sections 5.2, 5.5, 5.6, 7.4.1 and 7.4.2).
func Classify() {
	b := verif.Byte("first")
	in := ringbuffer.New(0)
	in.WithData([]byte{b, 0, 7})
	h, err := ws.VirtualReadHeader(make([]byte, 0, ws.MaxHeaderSize), in)
	verif.Assert(err == nil, "a header without payload decodes")
	if err != nil {
		return
	}
	verif.Assert(h.Rsv1() == (b&0x40 != 0), "first reserved bit")
	verif.Assert(h.Rsv2() == (b&0x20 != 0), "second reserved bit")
	verif.Assert(h.Rsv3() == (b&0x10 != 0), "third reserved bit")
	op := b & 15
	verif.Assert(h.OpCode.IsControl() == (op >= 8), "control opcodes")
	verif.Assert(h.OpCode.IsData() == (op < 8), "data opcodes")
	verif.Assert(h.OpCode.IsReserved() == (op >= 3 && op <= 7 || op >= 11), "reserved opcodes")
	c := verif.Int("code", 0, 65535)
	s := ws.StatusCode(c)
	verif.Assert(s.Empty() == (c == 0), "no status")
	verif.Assert(s.IsNotUsed() == (c <= 999), "statuses not used")
	verif.Assert(s.IsProtocolSpec() == (c >= 1000 && c <= 2999), "statuses of the protocol")
	verif.Assert(s.IsApplicationSpec() == (c >= 3000 && c <= 3999), "statuses of libraries and applications")
	verif.Assert(s.IsPrivateSpec() == (c >= 4000 && c <= 4999), "statuses for private use")
	verif.Assert(s.IsProtocolReserved() == (c == 1005 || c == 1006 || c == 1015), "statuses never sent")
	if c != 1004 && (c < 1012 || c > 1014) { // 1004 has no meaning yet; 1012 to 1014 were registered later
		verif.Assert(s.IsProtocolDefined() == (c >= 1000 && c <= 1011 || c == 1015), "statuses with a meaning")
	}
	lo, hi := verif.Int("lo", 0, 65535), verif.Int("hi", 0, 65535)
	verif.Assert(s.In(ws.StatusCodeRange{Min: ws.StatusCode(lo), Max: ws.StatusCode(hi)}) == (c >= lo && c <= hi), "in a range")
	verif.Reach("classified")
}
