// Package c17: WebSocket masking (RFC 6455 section 5.3).
package c17

import (
	"github.com/Allenxuxu/gev/plugins/websocket/ws"

	"vrt/verif"
)

const guard = 9

// Mask: byte i is combined with mask byte (offset+i) mod 4, nothing else changes,
// and masking twice restores the payload.
func Mask() {
	n := verif.Choose("len", verif.Tier(40, 140)+1)
	off := verif.Int("offset", 0, 1<<40)
	pre := 3
	data := verif.Bytes("data", pre+n+guard)
	orig := append([]byte(nil), data...)
	mb := verif.Bytes("mask", 4)
	var mask [4]byte
	copy(mask[:], mb)
	p := data[pre : pre+n]
	ws.Cipher(p, mask, off)
	want := make([]byte, n)
	for i := range want {
		want[i] = orig[pre+i] ^ mb[(off+i)&3]
	}
	verif.AssertEqBytes(p, want, "masked bytes")
	verif.AssertEqBytes(data[:pre], orig[:pre], "bytes before the payload")
	verif.AssertEqBytes(data[pre+n:], orig[pre+n:], "bytes after the payload")
	verif.ObserveBytes("masked", p)
	verif.Reach("masked")
	ws.Cipher(p, mask, off)
	verif.AssertEqBytes(data, orig, "masking twice")
	verif.Reach("restored")
}
