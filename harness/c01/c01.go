// Package c01: the inbound byte stream of a connection.
package c01

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

// handler collects what the application sees and may answer.
type handler struct {
	got   []byte
	calls int
	c     *gev.Connection
	reply func(data []byte) interface{}
}

func (h *handler) OnConnect(c *gev.Connection) { h.c = c }
func (h *handler) OnClose(c *gev.Connection)   {}
func (h *handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	h.calls++
	h.got = append(h.got, data...)
	if h.reply != nil {
		return h.reply(data)
	}
	return nil
}

// Default: default protocol, small read buffer, every segmentation; each event
// delivers everything that was read, and replies do not disturb it.
func Default() {
	eventloop.DefaultPacketSize = 1 + verif.Choose("packet", 5)
	h := &handler{}
	rep := verif.Choose("reply", 3)
	var replied []byte
	h.reply = func(data []byte) interface{} {
		if rep == 0 {
			return nil
		}
		r := make([]byte, 0, 8)
		for i := 0; i < rep; i++ {
			r = append(r, data...)
		}
		replied = append(replied, r...)
		return r
	}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	n := verif.Choose("n", verif.Tier(7, 10)) + 1
	b := verif.Bytes("stream", n)
	last := 0
	for _, c := range hx.Cuts("cut", n, 2) {
		if c > last {
			p.Feed(b[last:c])
			hx.Idle()
			last = c
			verif.AssertEqBytes(h.got, b[:last], "delivered so far")
		}
	}
	verif.AssertEqBytes(p.Tx, replied, "replies")
	verif.Observe("calls", h.calls)
	verif.ObserveBytes("got", h.got)
	verif.Reach("delivered")
}

// Wide: one burst of any length up to three full read buffers of the real size.
func Wide() {
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1))
	p := s.Accept()
	n := verif.Int("n", 1, 3*65536)
	b := verif.Bytes("stream", n)
	p.Feed(b)
	hx.Idle()
	verif.AssertEqBytes(h.got, b, "delivered")
	verif.Reach("delivered")
}

// proto consumes any number of bytes at each call and checks what it is shown.
type proto struct {
	stream *[]byte // received by the server so far
	taken  int
	limit  int
	drain  bool
	style  int
}

func (q *proto) Packet(c *gev.Connection, data interface{}) []byte { return data.([]byte) }

func (q *proto) UnPacket(c *gev.Connection, buf *ringbuffer.RingBuffer) (interface{}, []byte) {
	avail := (*q.stream)[q.taken:]
	first, end := buf.PeekAll()
	seen := append(append([]byte(nil), first...), end...)
	verif.AssertEqBytes(seen, avail, "bytes offered to the protocol")
	verif.Assert(buf.Length() == len(avail), "length offered to the protocol")
	if len(seen) != len(avail) || len(avail) == 0 {
		return nil, nil
	}
	k := 0
	if q.drain {
		k = len(avail)
	} else if q.limit > 0 {
		k = verif.Choose("take", len(avail)+1)
		q.limit--
	}
	if k == 0 {
		return nil, nil
	}
	out := make([]byte, k)
	switch q.style {
	case 0:
		_, _ = buf.Read(out)
	case 1:
		f, e := buf.Peek(k)
		copy(out, f)
		copy(out[len(f):], e)
		buf.Retrieve(k)
	case 2:
		_, _ = buf.VirtualRead(out)
		buf.VirtualFlush()
	}
	q.taken += k
	return nil, out
}

// Custom: a protocol that takes an arbitrary number of bytes whenever it is asked,
// with each way of consuming; what it leaves is offered again, followed by what came.
func Custom() {
	eventloop.DefaultPacketSize = 2 + verif.Choose("packet", 2)*4
	var recv []byte
	q := &proto{stream: &recv, limit: 3, style: verif.Choose("style", 3)}
	h := &handler{}
	rep := verif.Bool("reply")
	h.reply = func(data []byte) interface{} {
		if rep {
			return []byte{0xaa, 0xbb, 0xcc}
		}
		return nil
	}
	// the protocol must be shown what the kernel has handed over so far
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(q))
	p := s.Accept()
	n := verif.Choose("n", verif.Tier(5, 6)) + 1
	b := verif.Bytes("stream", n)
	vunix.OnRead = func(fd int, data []byte) {
		if fd == p.FD {
			recv = append(recv, data...)
		}
	}
	last := 0
	for _, c := range hx.Cuts("cut", n, 2) {
		if c > last {
			p.Feed(b[last:c])
			hx.Idle()
			last = c
			verif.Assert(h.c.ReadBufferLength() == int64(last-q.taken), "ReadBufferLength")
		}
	}
	verif.AssertEqBytes(h.got, b[:q.taken], "delivered")
	// one more byte flushes what the protocol left
	q.drain = true
	p.Feed([]byte{0x77})
	hx.Idle()
	verif.AssertEqBytes(h.got, append(append([]byte(nil), b...), 0x77), "delivered after the last byte")
	verif.Assert(h.c.ReadBufferLength() == 0 && h.c.WriteBufferLength() == 0, "nothing is left")
	verif.ObserveBytes("got", h.got)
	verif.Reach("delivered")
}

// Two connections on one loop never see each other's bytes.
func Two() {
	eventloop.DefaultPacketSize = 4
	type rec struct{ got []byte }
	m := map[*gev.Connection]*rec{}
	var order []*gev.Connection
	h := &funcs{
		connect: func(c *gev.Connection) { m[c] = &rec{}; order = append(order, c) },
		message: func(c *gev.Connection, ctx interface{}, data []byte) interface{} {
			m[c].got = append(m[c].got, data...)
			return nil
		},
	}
	var rx [2][]byte
	q := &lenProto{}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(q))
	p := [2]*vunix.Conn{s.Accept(), s.Accept()}
	steps := verif.Tier(4, 5)
	for i := 0; i < steps; i++ {
		k := verif.Choose("who", 2)
		d := verif.Bytes("data", verif.Choose("len", 2)+1)
		rx[k] = append(rx[k], d...)
		p[k].Feed(d)
		if verif.Choose("run", 2) == 1 {
			hx.Idle()
		}
	}
	hx.Idle()
	for k := 0; k < 2; k++ {
		whole := len(rx[k]) / 3 * 3
		verif.AssertEqBytes(m[order[k]].got, rx[k][:whole], "bytes of one connection")
	}
	verif.Reach("both")
}

// lenProto delivers units of three bytes.
type lenProto struct{}

func (q *lenProto) Packet(c *gev.Connection, data interface{}) []byte { return data.([]byte) }
func (q *lenProto) UnPacket(c *gev.Connection, buf *ringbuffer.RingBuffer) (interface{}, []byte) {
	if buf.Length() < 3 {
		return nil, nil
	}
	out := make([]byte, 3)
	_, _ = buf.Read(out)
	return nil, out
}

type funcs struct {
	connect func(c *gev.Connection)
	message func(c *gev.Connection, ctx interface{}, data []byte) interface{}
	close   func(c *gev.Connection)
}

func (f *funcs) OnConnect(c *gev.Connection) {
	if f.connect != nil {
		f.connect(c)
	}
}
func (f *funcs) OnClose(c *gev.Connection) {
	if f.close != nil {
		f.close(c)
	}
}
func (f *funcs) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	return f.message(c, ctx, data)
}

// skipper takes one byte off the front of each message at once, another as soon
// as one follows it, and leaves the rest to the default protocol when there is
// enough of it.
type skipper struct {
	gev.DefaultProtocol
	min     int
	skipped int
	cut     []byte
	size    int // of the user's buffer
}

func (q *skipper) UnPacket(c *gev.Connection, buf *ringbuffer.RingBuffer) (interface{}, []byte) {
	for q.skipped < 2 && buf.Length() > q.skipped {
		f, _ := buf.PeekAll()
		q.cut = append(q.cut, f[0])
		buf.Retrieve(1)
		q.skipped++
	}
	if q.skipped < 2 || buf.Length() < q.min {
		return nil, nil
	}
	if q.size > 0 {
		*c.UserBuffer() = make([]byte, q.size)
		q.size = 0
	}
	q.skipped = 0
	return q.DefaultProtocol.UnPacket(c, buf)
}

// Held: the default protocol used by another one, on a buffer that wraps around.
func Held() {
	eventloop.DefaultPacketSize = 1 + verif.Choose("packet", 4)
	q := &skipper{min: 2 + verif.Choose("min", 2), size: verif.Choose("size", 4)}
	h := &handler{}
	var order []byte
	h.reply = func(data []byte) interface{} {
		order = append(append(order, q.cut...), data...)
		q.cut = nil
		verif.Assert(len(data) >= q.min, "the default protocol delivers all there is")
		return nil
	}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(q))
	p := s.Accept()
	n := verif.Choose("n", verif.Tier(8, 9)) + 1
	b := verif.Bytes("stream", n)
	last := 0
	for _, c := range hx.Cuts("cut", n, verif.Tier(2, 3)) {
		if c > last {
			p.Feed(b[last:c])
			hx.Idle()
			last = c
			rest := c - len(order) - len(q.cut)
			verif.Assert(rest < q.min+1 && h.c.ReadBufferLength() == int64(rest), "what is not delivered is kept")
			verif.AssertEqBytes(append(append([]byte(nil), order...), q.cut...), b[:c-rest], "delivered so far")
		}
	}
	verif.Reach("delivered")
}

// waiter takes n bytes whenever there are that many.
type waiter struct{ n int }

func (q *waiter) Packet(c *gev.Connection, data interface{}) []byte { return data.([]byte) }
func (q *waiter) UnPacket(c *gev.Connection, buf *ringbuffer.RingBuffer) (interface{}, []byte) {
	if buf.Length() < q.n {
		return nil, nil
	}
	out := make([]byte, q.n)
	_, _ = buf.Read(out)
	return nil, out
}

// Large: messages larger than a read buffer, in bursts cut anywhere.
func Large() {
	q := &waiter{n: verif.Int("message", 1, 150000)}
	h := &handler{}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(q))
	p := s.Accept()
	b := verif.Bytes("stream", 2*q.n)
	cut := verif.Int("cut", 1, 300000)
	verif.Assume(cut < 2*q.n)
	p.Feed(b[:cut])
	hx.Idle()
	whole := verif.IteInt(cut >= q.n, q.n, 0)
	verif.Assert(len(h.got) == whole, "delivered so far")
	verif.Assert(h.c.ReadBufferLength() == int64(cut-whole), "what is not delivered is kept")
	p.Feed(b[cut:])
	hx.Idle()
	verif.AssertEqBytes(h.got, b, "delivered")
	verif.Assert(h.c.ReadBufferLength() == 0, "nothing is kept")
	verif.Reach("delivered")
}

// pairs takes two bytes at a time.
type pairs struct{}

func (pairs) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.Length() < 2 {
		return nil, nil
	}
	x := make([]byte, 2)
	_, _ = b.Read(x)
	return nil, x
}

func (pairs) Packet(c *gev.Connection, data interface{}) []byte { return data.([]byte) }

// Many: a burst of many messages is delivered, and each answered, without a further
// event, also behind a message that was cut.
func Many() {
	h := &handler{}
	var replied []byte
	h.reply = func(data []byte) interface{} {
		r := []byte{data[1], data[0], 0x55}
		replied = append(replied, r...)
		return r
	}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(pairs{}))
	p := s.Accept()
	n := verif.Tier(3000, 12000)
	if verif.Choose("odd", 2) == 1 {
		n++
	}
	b := verif.Bytes("stream", 600)
	for i := len(b); i < n; i++ { // all of it symbolic would be too much
		b = append(b, byte(i*7+i>>8))
	}
	cut := verif.Choose("cut", 4)
	hx.Segments(p, b, []int{cut, n})
	verif.Assert(len(h.got) == n&^1 && len(p.Tx) == len(replied), "every complete message of a burst is delivered and answered")
	if len(h.got) != n&^1 || len(p.Tx) != len(replied) {
		return
	}
	ok := true
	for i, x := range h.got {
		ok = verif.And(ok, x == b[i])
	}
	verif.Assert(ok, "every complete message of a burst")
	ok = true
	for i, x := range p.Tx {
		ok = verif.And(ok, x == replied[i])
	}
	verif.Assert(ok, "every answer")
	verif.Assert(h.calls == n/2, "one call for each message")
	verif.Assert(h.c.ReadBufferLength() == int64(n&1), "ReadBufferLength")
	verif.Reach("delivered")
}
