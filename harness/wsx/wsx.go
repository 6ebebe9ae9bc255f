// Package wsx is the client side of the WebSocket harnesses: an independent reading
// of RFC 6455.
package wsx

import (
	"bytes"

	"github.com/Allenxuxu/gev/zz_harness/hx"

	"vrt/verif"
	"vrt/vunix"
)

// Request is a valid upgrade request (the example of RFC 6455 section 1.2).
const Request = "GET /chat HTTP/1.1\r\nHost: server.example.com\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"

// Accept is the accept key of Request.
const Accept = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="

// Frame is a WebSocket frame.
type Frame struct {
	Fin     bool
	Rsv     byte
	Op      byte
	Masked  bool
	Mask    []byte
	Payload []byte
}

// Header is the RFC 6455 header of f.
func (f Frame) Header() []byte {
	c := f.Rsv<<4 | f.Op | byte(verif.IteInt(f.Fin, 0x80, 0))
	m := byte(0)
	if f.Masked {
		m = 0x80
	}
	b := []byte{c}
	n := len(f.Payload)
	switch {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	if f.Masked {
		b = append(b, f.Mask...)
	}
	return b
}

// Bytes is f on the wire.
func (f Frame) Bytes() []byte {
	b := f.Header()
	if !f.Masked {
		return append(b, f.Payload...)
	}
	p := make([]byte, len(f.Payload))
	for i := range p {
		p[i] = f.Payload[i] ^ f.Mask[i&3]
	}
	return append(b, p...)
}

// Client is a frame as a client sends it: masked, final.
func Client(op byte, payload []byte) Frame {
	return Frame{Fin: true, Op: op, Masked: true, Mask: verif.Bytes("mask", 4), Payload: payload}
}

// Head splits an HTTP response into its status line and header lines.
func Head(b []byte) (lines []string, body []byte, ok bool) {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return nil, nil, false
	}
	for _, l := range bytes.Split(b[:i], []byte("\r\n")) {
		lines = append(lines, string(l))
	}
	return lines, b[i+4:], true
}

// Upgraded reports whether b is exactly one response that accepts Request.
func Upgraded(b []byte) bool {
	lines, body, ok := Head(b)
	if !ok || len(body) != 0 {
		return false
	}
	if lines[0] != "HTTP/1.1 101 Switching Protocols" {
		return false
	}
	seen := 0
	for _, l := range lines[1:] {
		switch l {
		case "Upgrade: websocket":
			seen |= 1
		case "Connection: Upgrade":
			seen |= 2
		case "Sec-WebSocket-Accept: " + Accept:
			seen |= 4
		}
	}
	return seen == 7
}

// Open connects a peer and upgrades its connection.
func Open(s *hx.Srv) *vunix.Conn {
	p := s.Accept()
	p.Feed([]byte(Request))
	verif.WaitIdle()
	verif.Assert(Upgraded(p.Tx), "a valid upgrade request is accepted")
	p.Tx = nil
	return p
}

// Parse reads the frames in b; rest is what follows the last complete one.
func Parse(b []byte) (fs []Frame, rest []byte) {
	for len(b) >= 2 {
		f := Frame{Fin: b[0]&0x80 != 0, Rsv: b[0] >> 4 & 7, Op: b[0] & 15, Masked: b[1]&0x80 != 0}
		n, k := int(b[1]&0x7f), 2
		switch n {
		case 126:
			if len(b) < 4 {
				return fs, b
			}
			n, k = int(b[2])<<8|int(b[3]), 4
		case 127:
			if len(b) < 10 {
				return fs, b
			}
			n, k = int(b[6])<<24|int(b[7])<<16|int(b[8])<<8|int(b[9]), 10
		}
		if f.Masked {
			if len(b) < k+4 {
				return fs, b
			}
			f.Mask = b[k : k+4]
			k += 4
		}
		if len(b) < k+n {
			return fs, b
		}
		f.Payload = b[k : k+n]
		fs = append(fs, f)
		b = b[k+n:]
	}
	return fs, b
}
