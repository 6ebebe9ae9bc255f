package c02

import (
	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
)

// thrifty delivers one byte at a time and packs into a buffer of its own, which it uses
// again for the next packet (or hands on what it gets).
type thrifty struct {
	copies  bool
	scratch []byte
}

func (t *thrifty) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.Length() == 0 {
		return nil, nil
	}
	var x [1]byte
	_, _ = b.Read(x[:])
	return nil, x[:]
}

func (t *thrifty) Packet(c *gev.Connection, data interface{}) []byte {
	d := data.([]byte)
	if !t.copies {
		return d
	}
	t.scratch = append(append(t.scratch[:0], d...), 0xaa)
	return t.scratch
}

// Scratch: answers built in a buffer that is used again for the next one, by the
// protocol or by the application.
func Scratch() {
	pr := &thrifty{copies: verif.Choose("who", 2) == 0, scratch: make([]byte, 0, 8)}
	own := make([]byte, 0, 8)
	var expected, fed []byte
	h := &handler{}
	h.reply = func(data []byte) []byte {
		d := verif.Bytes("reply", verif.Choose("len", 3))
		own = append(own[:0], d...)
		expected = append(expected, d...)
		if pr.copies {
			expected = append(expected, 0xaa)
		} else if len(d) == 0 {
			return nil
		}
		return own
	}
	s := hx.Start(h, gev.NumLoops(1), gev.CustomProtocol(pr))
	p := s.Accept()
	p.Window = verif.Choose("window", 4) - 1
	for i := 0; i < 2; i++ {
		d := verif.Bytes("input", 1+verif.Choose("burst", verif.Tier(2, 3)))
		fed = append(fed, d...)
		p.Feed(d)
		hx.Idle()
		idle(h, p, expected, fed, false)
		if p.Window >= 0 {
			p.Window += verif.Choose("open", 3)
			hx.Idle()
			idle(h, p, expected, fed, false)
		}
	}
	p.Window = -1
	hx.Idle()
	verif.AssertEqBytes(p.Tx, expected, "every answer arrives as it was returned")
	verif.AssertEqBytes(h.got, fed, "all input is processed")
	verif.Reach("answered")
}
