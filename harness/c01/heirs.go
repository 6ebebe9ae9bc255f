package c01

import (
	"errors"

	"golang.org/x/sys/unix"

	"github.com/Allenxuxu/gev"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

// Heirs: a connection ends, in any way and with anything left in its buffers; the two
// accepted after it neither see its bytes nor each other's.
func Heirs() {
	type rec struct{ got []byte }
	m := map[*gev.Connection]*rec{}
	var order []*gev.Connection
	h := &funcs{
		connect: func(c *gev.Connection) { m[c] = &rec{}; order = append(order, c) },
		message: func(c *gev.Connection, ctx interface{}, data []byte) interface{} {
			m[c].got = append(m[c].got, data...)
			return nil
		},
	}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(&lenProto{}))
	a := s.Accept()
	failOp := ""
	vunix.Fail = func(op string, fd int) error {
		if fd == a.FD && op == failOp {
			failOp = ""
			return errors.New("input/output error")
		}
		return nil
	}
	if n := verif.Choose("input left", 3); n > 0 {
		a.Feed(verif.Bytes("rest", n))
		hx.Idle()
	}
	if verif.Choose("output left", 2) == 1 {
		a.Window = 1
		_ = order[0].Send(verif.Bytes("out", 3))
		hx.Idle()
	}
	switch verif.Choose("end", 7) {
	case 0:
		a.RxEOF = true
		a.Window = -1
	case 1:
		a.RxErr = unix.ECONNRESET
	case 2:
		a.Hung, a.RxEOF = true, true
		a.Window = -1
	case 3:
		_ = order[0].Close()
	case 4: // the next write fails: while flushing, or of a Send
		failOp = "write"
		_ = order[0].Send([]byte{1})
		a.Window = -1
	case 5: // a read fails
		a.Window = -1
		hx.Idle()
		failOp = "read"
		a.Feed([]byte{1})
	case 6:
		_ = order[0].Close()
		_ = order[0].Send([]byte{1})
		_ = order[0].Close()
		a.RxErr = unix.ECONNRESET
	}
	hx.Idle()
	verif.Assert(!hx.IsOpen(a), "the first connection has ended")
	p := [2]*vunix.Conn{s.Accept(), s.Accept()}
	verif.Assert(len(order) == 3, "OnConnect for each")
	if len(order) != 3 {
		return
	}
	var rx, tx [2][]byte
	for i := 0; i < 4; i++ {
		k := i & 1
		if i < 2 {
			p[k].Window = 1
		}
		switch verif.Choose("what", 3) {
		case 0:
			d := verif.Bytes("data", 2)
			rx[k] = append(rx[k], d...)
			p[k].Feed(d)
		case 1:
			d := verif.Bytes("send", 3)
			tx[k] = append(tx[k], d...)
			verif.Assert(order[k+1].Send(d) == nil, "Send on an open connection")
		case 2:
			d := verif.Bytes("data", 4)
			rx[k] = append(rx[k], d...)
			p[k].Feed(d)
			hx.Idle()
			e := verif.Bytes("send", 2)
			tx[k] = append(tx[k], e...)
			verif.Assert(order[k+1].Send(e) == nil, "Send on an open connection")
		}
		hx.Idle()
		verif.Assert(len(p[k].Tx) <= len(tx[k]), "no more bytes written than were sent")
	}
	p[0].Window, p[1].Window = -1, -1
	hx.Idle()
	for k := 0; k < 2; k++ {
		verif.AssertEqBytes(m[order[k+1]].got, rx[k][:len(rx[k])/3*3], "bytes of one connection")
		verif.AssertEqBytes(p[k].Tx, tx[k], "output of one connection")
		verif.Assert(order[k+1].ReadBufferLength() == int64(len(rx[k])%3), "ReadBufferLength")
		verif.Assert(order[k+1].WriteBufferLength() == 0, "WriteBufferLength")
	}
	verif.Reach("apart")
}
