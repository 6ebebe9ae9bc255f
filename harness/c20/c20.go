// Package c20: the WebSocket opening handshake (RFC 6455 section 4.2).
package c20

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"

	"github.com/Allenxuxu/gev/zz_harness/hx"
	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
)

const guid = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"

// acceptOf is the accept key RFC 6455 derives from key.
func acceptOf(key []byte) []byte {
	d := sha1.Sum(append(append([]byte(nil), key...), guid...))
	b := make([]byte, 28)
	base64.StdEncoding.Encode(b, d[:])
	return b
}

func between(c, lo, hi byte) bool { return verif.And(c >= lo, c <= hi) }

func lower(b []byte) string {
	var s []byte
	for _, c := range b {
		s = append(s, byte(verif.IteInt(between(c, 'A', 'Z'), int(c)+'a'-'A', int(c))))
	}
	return string(s)
}

func trim(b []byte) []byte {
	for len(b) > 0 && (b[0] == ' ' || b[0] == '\t') {
		b = b[1:]
	}
	for len(b) > 0 && (b[len(b)-1] == ' ' || b[len(b)-1] == '\t') {
		b = b[:len(b)-1]
	}
	return b
}

func token(b []byte) bool {
	ok := len(b) > 0
	for _, c := range b {
		t := verif.Or(between(c, '0', '9'), verif.Or(between(c, 'a', 'z'), between(c, 'A', 'Z')))
		for _, o := range []byte("!#$%&'*+-.^_`|~") {
			t = verif.Or(t, c == o)
		}
		ok = verif.And(ok, t)
	}
	return ok
}

// judge says whether a complete request is a valid upgrade request; odd ones are
// left open by the specifications or by the property.
func judge(b []byte) (ok, odd bool, key []byte) {
	var lines [][]byte
	at := 0
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '\r' && b[i+1] == '\n' {
			lines = append(lines, b[at:i])
			at = i + 2
			i++
		} else {
			odd = verif.Or(odd, verif.And(b[i] != '\t', !between(b[i], 0x20, 0x7e)))
		}
	}
	for len(lines) > 0 && len(lines[len(lines)-1]) == 0 {
		lines = lines[:len(lines)-1]
	}
	if len(lines) == 0 {
		return false, odd, nil
	}
	// request line
	l := lines[0]
	var parts [][]byte
	at = 0
	for i := range l {
		if l[i] == ' ' {
			parts = append(parts, l[at:i])
			at = i + 1
		}
	}
	parts = append(parts, l[at:])
	if len(parts) != 3 || string(parts[0]) != "GET" {
		return false, odd, nil
	}
	if len(parts[1]) == 0 {
		odd = true
	} else {
		odd = verif.Or(odd, parts[1][0] != '/')
	}
	v := parts[2]
	if len(v) < 8 || string(v[:7]) != "HTTP/1." {
		return false, odd, nil
	}
	minor := 0
	for _, c := range v[7:] {
		if c < '0' || c > '9' {
			return false, odd, nil
		}
		minor = minor*10 + int(c-'0')
	}
	if minor < 1 {
		return false, odd, nil
	}
	if len(v) > 8 {
		odd = true // HTTP/1.10: more digits than RFC 7230 knows
	}
	seen := map[string]bool{}
	ok = true
	for _, l := range lines[1:] {
		colon := -1
		for i := range l {
			if l[i] == ':' {
				colon = i
				break
			}
		}
		if colon < 0 {
			return false, odd, nil
		}
		odd = verif.Or(odd, !token(l[:colon]))
		name, val := lower(l[:colon]), trim(l[colon+1:])
		switch name {
		case "host", "upgrade", "connection", "sec-websocket-version", "sec-websocket-key":
			if seen[name] {
				odd = true
			}
			seen[name] = true
		}
		switch name {
		case "host":
			if len(val) == 0 {
				odd = true
			}
		case "upgrade":
			if lower(val) != "websocket" {
				for _, c := range val {
					odd = verif.Or(odd, c == ',')
				}
				ok = false
			}
		case "connection":
			has := false
			at := 0
			for i := 0; i <= len(val); i++ {
				if i == len(val) || val[i] == ',' {
					t := trim(val[at:i])
					odd = verif.Or(odd, !token(t))
					has = verif.Or(has, lower(t) == "upgrade")
					at = i + 1
				}
			}
			ok = ok && has
		case "sec-websocket-version":
			ok = ok && string(val) == "13"
		case "sec-websocket-key":
			ok = ok && len(val) == 24
			key = val
		}
	}
	return ok && len(seen) == 5, odd, key
}

// response checks what Upgrade returned against the verdict.
func response(out []byte, err error, ok, odd bool, key []byte) {
	lines, _, whole := wsx.Head(out)
	verif.Assert(whole, "a complete request is answered by an HTTP response")
	if !whole {
		return
	}
	verif.Assert(verif.Or(odd, verif.Or(ok, err != nil)), "an invalid upgrade request is refused")
	verif.Assert(verif.Or(odd, verif.Or(!ok, err == nil)), "a valid upgrade request is accepted")
	if err != nil {
		verif.Assert(len(lines[0]) > 12 && lines[0][:9] == "HTTP/1.1 " && (lines[0][9] == '4' || lines[0][9] == '5'), "a refusal is answered with an error status")
		verif.Reach("refused")
		return
	}
	verif.Assert(lines[0] == "HTTP/1.1 101 Switching Protocols", "status line of an accepted upgrade")
	if key != nil && len(key) == 24 {
		n := 0
		want := acceptOf(key)
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "Sec-WebSocket-Accept: ") {
				verif.AssertEqBytes([]byte(l[22:]), want, "accept key")
				n++
			}
		}
		verif.Assert(n == 1, "an accepted upgrade carries one accept key")
		verif.Assert(has(lines, "Upgrade: websocket") && has(lines, "Connection: Upgrade"), "headers of an accepted upgrade")
	}
	verif.Reach("accepted")
}

func has(lines []string, s string) bool {
	for _, l := range lines {
		if l == s {
			return true
		}
	}
	return false
}

func upgrade(u *ws.Upgrader, req []byte) ([]byte, ws.Handshake, error) {
	in := ringbuffer.New(0)
	b := append([]byte(nil), req...)
	in.WithData(b)
	out, hs, err := u.Upgrade(nil, in)
	for i := range b { // the next read reuses the packet buffer
		b[i] = '#'
	}
	return out, hs, err
}

func decide(req []byte) {
	ok, odd, key := judge(req)
	out, _, err := upgrade(&ws.Upgrader{}, req)
	response(out, err, ok, odd, key)
}

var headers = [5]string{
	"Host: h",
	"Upgrade: websocket",
	"Connection: Upgrade",
	"Sec-WebSocket-Version: 13",
	"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==",
}

func request(first string, lines ...string) []byte {
	b := []byte(first + "\r\n")
	for _, l := range lines {
		b = append(b, l...)
		b = append(b, '\r', '\n')
	}
	return append(b, '\r', '\n')
}

const get = "GET / HTTP/1.1"

// Byte: a valid request with any one byte replaced by any other.
func Byte() {
	lines := append([]string(nil), headers[:]...)
	if verif.Choose("list", 2) == 1 {
		lines[2] = "Connection: keep-alive, Upgrade"
		lines = append(lines, "Origin: x")
	}
	req := request(get, lines...)
	at := verif.Choose("at", len(req)-4)
	req[at] = verif.Byte("byte")
	// the end of the request stays where it is
	verif.Assume(string(req[at:at+4]) != "\r\n\r\n" && !(at > 0 && string(req[at-1:at+3]) == "\r\n\r\n") && !(at > 1 && string(req[at-2:at+2]) == "\r\n\r\n") && !(at > 2 && string(req[at-3:at+1]) == "\r\n\r\n"))
	decide(req)
}

// Order: the headers in any order, any one missing or none, another one anywhere.
func Order() {
	var left []string
	drop := verif.Choose("drop", 6)
	for i, h := range headers {
		if i != drop {
			left = append(left, h)
		}
	}
	extra := []string{"", "Origin: http://example.com", "X: ", "Cookie: a=b; c: d", "Sec-WebSocket-Extensions: foo"}[verif.Choose("extra", verif.Tier(3, 5))]
	var lines []string
	for len(left) > 0 {
		i := verif.Choose("next", len(left))
		lines = append(lines, left[i])
		left = append(append([]string(nil), left[:i]...), left[i+1:]...)
	}
	if extra != "" {
		i := verif.Choose("place", len(lines)+1)
		lines = append(lines[:i:i], append([]string{extra}, lines[i:]...)...)
	}
	ok := drop == 5
	req := request(get, lines...)
	out, _, err := upgrade(&ws.Upgrader{}, req)
	response(out, err, ok, false, []byte(headers[4][19:]))
}

// flip gives up to k letters of b from at any letter case.
func flip(b []byte, at, k int) {
	for i := at; i < len(b) && k > 0; i++ {
		if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
			b[i] = b[i]&^0x20 | verif.Byte("case")&0x20
			k--
		}
	}
}

// Case: header names and values in any letter case (some letters at a time), all of
// them upper or lower, surrounded by blanks.
func Case() {
	var lines []string
	which := verif.Choose("header", 5)
	for i, h := range headers {
		if i != which {
			lines = append(lines, h)
			continue
		}
		colon := strings.IndexByte(h, ':')
		name, val := []byte(h[:colon]), []byte(h[colon+2:])
		before, after := " ", ""
		switch mode := verif.Choose("mode", 5); mode {
		case 0:
			for i, c := range name {
				if c >= 'A' && c <= 'Z' {
					name[i] = c + 32
				}
			}
		case 1:
			for i, c := range name {
				if c >= 'a' && c <= 'z' {
					name[i] = c - 32
				}
			}
		case 2:
			flip(name, verif.Choose("at", len(name)), verif.Tier(5, 7))
		case 3:
			if which == 1 || which == 2 {
				flip(val, 0, len(val))
			}
		case 4:
			blank := []string{"", " ", "  ", "\t", " \t "}
			before = blank[verif.Choose("before", 5)]
			after = blank[verif.Choose("after", 5)]
		}
		lines = append(lines, string(name)+":"+before+string(val)+after)
	}
	out, _, err := upgrade(&ws.Upgrader{}, request(get, lines...))
	response(out, err, true, false, []byte(headers[4][19:]))
}

func printable(b []byte) {
	for _, c := range b {
		verif.Assume(verif.And(c > 0x20, c < 0x7f))
	}
}

// Values: any short value of each part of the request.
func Values() {
	lines := append([]string(nil), headers[:]...)
	first := get
	switch verif.Choose("part", 7) {
	case 0:
		b := verif.Bytes("method", 2+verif.Choose("len", 3))
		printable(b)
		first = string(b) + " / HTTP/1.1"
	case 1:
		b := verif.Bytes("version", verif.Tier(3, 4))
		printable(b)
		first = "GET / HTTP/" + string(b)
	case 2:
		b := verif.Bytes("protocol", 4)
		printable(b)
		first = "GET / " + string(b) + "/1.1"
	case 3:
		b := verif.Bytes("wsversion", verif.Choose("len", 4))
		printable(b)
		lines[3] = "Sec-WebSocket-Version: " + string(b)
	case 4:
		b := verif.Bytes("key", 22+verif.Choose("len", 5))
		printable(b)
		lines[4] = "Sec-WebSocket-Key: " + string(b)
	case 5:
		toks := []string{"Upgrade", "upgrade", "UPGRADE", "keep-alive", "Upgrad", "Upgrades", "close"}
		seps := []string{",", ", ", " ,", " , "}
		s := toks[verif.Choose("token", len(toks))]
		n := verif.Choose("more", verif.Tier(2, 3))
		for i := 0; i < n; i++ {
			s += seps[verif.Choose("sep", len(seps))] + toks[verif.Choose("token", len(toks))]
		}
		lines[2] = "Connection: " + s
	case 6:
		s := []byte("websocket")
		s = s[:8+verif.Choose("len", 2)]
		s[verif.Choose("at", len(s))] = verif.Byte("letter")
		printable(s)
		lines[1] = "Upgrade: " + string(s)
	}
	decide(request(first, lines...))
}

// Versions: request lines with versions of several digits.
func Versions() {
	b := []byte("HTTP/1.")
	n := 1 + verif.Choose("digits", 22)
	d := verif.Bytes("digit", n)
	for i := 1; i < n; i++ {
		verif.Assume(verif.And(d[i] >= '0', d[i] <= '9'))
	}
	b = append(b, d...)
	req := request("GET / "+string(b), headers[:]...)
	out, _, err := upgrade(&ws.Upgrader{}, req)
	digit := d[0] >= '0' && d[0] <= '9'
	zero := true
	for _, c := range d {
		zero = verif.And(zero, c == '0')
	}
	sp := d[0] <= 0x20 || d[0] >= 0x7f
	response(out, err, digit && !zero, n > 1 && digit || sp, nil)
}

var errNo = errors.New("no")

func verdict(name string) error {
	switch verif.Choose(name, 3) {
	case 1:
		return errNo
	case 2:
		return ws.RejectConnectionError(ws.RejectionStatus(403), ws.RejectionReason("denied"), ws.RejectionHeader(ws.HandshakeHeaderString("X-Why: because\r\n")))
	}
	return nil
}

// Callbacks: every callback may refuse; what it gets and what is sent back.
func Callbacks() {
	var first error // the refusal that comes first
	note := func(e error) error {
		verif.Assert(first == nil, "nothing is asked after a refusal")
		if e != nil {
			first = e
		}
		return e
	}
	var u ws.Upgrader
	calls := 0
	u.Header = ws.HandshakeHeaderString("X-Server: gev\r\n")
	if verif.Choose("onrequest", 2) == 1 {
		u.OnRequest = func(c *gev.Connection, uri []byte) error {
			verif.Assert(string(uri) == "/chat?x=1", "the URI given to OnRequest")
			calls++
			return note(verdict("request"))
		}
	}
	if verif.Choose("onhost", 2) == 1 {
		u.OnHost = func(c *gev.Connection, host []byte) error {
			verif.Assert(string(host) == "h", "the host given to OnHost")
			calls++
			return note(verdict("host"))
		}
	}
	var seen []string
	if verif.Choose("onheader", 2) == 1 {
		u.OnHeader = func(c *gev.Connection, k, v []byte) error {
			seen = append(seen, string(k)+"="+string(v))
			return note(verdict("header"))
		}
	}
	if verif.Choose("onbefore", 2) == 1 {
		u.OnBeforeUpgrade = func(c *gev.Connection) (ws.HandshakeHeader, error) {
			calls++
			if e := note(verdict("before")); e != nil {
				return nil, e
			}
			return ws.HandshakeHeaderString("X-Before: yes\r\n"), nil
		}
	}
	lines := append([]string{"X-First: 1"}, headers[:]...)
	lines = append(lines, "x-second: 2")
	out, _, err := upgrade(&u, request("GET /chat?x=1 HTTP/1.1", lines...))
	if u.OnHeader != nil && first == nil {
		verif.Assert(len(seen) == 2 && seen[0] == "X-First=1" && seen[1] == "X-Second=2", "the headers given to OnHeader")
	}
	head, body, whole := wsx.Head(out)
	verif.Assert(whole, "a complete request is answered")
	if !whole {
		return
	}
	verif.Assert(has(head, "X-Server: gev"), "the upgrader's header is sent with any answer")
	if first == nil {
		verif.Assert(err == nil && head[0] == "HTTP/1.1 101 Switching Protocols", "a request nobody refuses is accepted")
		verif.Assert(has(head, "X-Before: yes") == (u.OnBeforeUpgrade != nil), "the header of OnBeforeUpgrade is sent")
		verif.Reach("accepted")
		return
	}
	verif.Assert(err == first, "a refusal is returned")
	verif.Assert(string(body) == first.Error(), "a refusal is the body of the answer")
	if first == errNo {
		verif.Assert(strings.HasPrefix(head[0], "HTTP/1.1 500 "), "a refusal without a status is an internal error")
	} else {
		verif.Assert(strings.HasPrefix(head[0], "HTTP/1.1 403 "), "a refusal has the status chosen")
		verif.Assert(has(head, "X-Why: because"), "a refusal has the header chosen")
	}
	verif.Reach("refused")
}

// Headers: every form a header of the user can be given in.
func Headers() {
	val := verif.Bytes("value", 2)
	for _, c := range val {
		verif.Assume(verif.And(c > ' ', c < 0x7f))
	}
	text := "X-A: " + string(val) + "\r\nX-B: 1\r\nX-B: 2\r\n"
	var h ws.HandshakeHeader
	switch verif.Choose("form", 4) {
	case 0:
		h = ws.HandshakeHeaderString(text)
	case 1:
		h = ws.HandshakeHeaderBytes(text)
	case 2:
		h = ws.HandshakeHeaderFunc(func(w io.Writer) (int64, error) {
			n, err := w.Write([]byte(text))
			return int64(n), err
		})
	case 3:
		h = ws.HandshakeHeaderHTTP(http.Header{"X-B": {"1", "2"}, "X-A": {string(val)}})
	}
	var bb bytes.Buffer
	n, err := h.WriteTo(&bb)
	verif.Assert(err == nil && bb.String() == text && int(n) == len(text), "a header is written as it is, and its size is told")
	var u ws.Upgrader
	where := verif.Choose("where", 3)
	code, why := 403, "denied"
	if where == 2 {
		code = []int{400, 403, 404, 426, 428, 500, 503, 599}[verif.Choose("code", 8)]
		why = []string{"denied", "na\u00efve \u4e0d", ""}[verif.Choose("why", 3)]
	}
	switch where {
	case 0:
		u.Header = h
	case 1:
		u.OnBeforeUpgrade = func(*gev.Connection) (ws.HandshakeHeader, error) { return h, nil }
	case 2:
		u.OnHost = func(*gev.Connection, []byte) error {
			return ws.RejectConnectionError(ws.RejectionStatus(code), ws.RejectionReason(why), ws.RejectionHeader(h))
		}
	}
	out, _, err := upgrade(&u, request("GET / HTTP/1.1", headers[:]...))
	head, body, whole := wsx.Head(out)
	verif.Assert(whole && (err == nil) == (where != 2), "a complete request is answered")
	if !whole {
		return
	}
	status := "HTTP/1.1 101 "
	if where == 2 {
		status = "HTTP/1.1 " + strconv.Itoa(code) + " "
		verif.Assert(string(body) == why, "a refusal is the body of the answer")
		verif.Assert(has(head, "Content-Length: "+strconv.Itoa(len(why))), "the length of the body is told in bytes")
	}
	verif.Assert(strings.HasPrefix(head[0], status), "the answer to the request")
	verif.Assert(has(head, "X-A: "+string(val)) && has(head, "X-B: 1") && has(head, "X-B: 2"), "the user's header is in the answer")
	verif.Reach("sent")
}

// Protocols: the sub-protocol selected is the one sent.
func Protocols() {
	names := []string{"a", "bb", "c"}
	n := 1 + verif.Choose("n", 3)
	var list []string
	for i := 0; i < n; i++ {
		list = append(list, names[verif.Choose("name", 3)])
	}
	var likes [3]bool
	for i := range likes {
		likes[i] = verif.Bool("likes")
	}
	like := func(s string) bool {
		for i, n := range names {
			if n == s {
				return likes[i]
			}
		}
		return false
	}
	lines := append([]string(nil), headers[:]...)
	if split := verif.Choose("split", n); split == 0 {
		sep := []string{", ", " ,\t"}[verif.Choose("blank", 2)]
		lines = append(lines, "Sec-WebSocket-Protocol: "+strings.Join(list, sep))
	} else {
		lines = append(lines, "Sec-WebSocket-Protocol: "+strings.Join(list[:split], ", "))
		lines = append(lines, "Sec-WebSocket-Protocol: "+strings.Join(list[split:], ","))
	}
	want := ""
	for _, s := range list {
		if want == "" && like(s) {
			want = s
		}
	}
	var u ws.Upgrader
	switch verif.Choose("how", 3) {
	case 0:
		want = ""
	case 1:
		u.Protocol = func(b []byte) bool { return like(string(b)) }
	case 2:
		want = ""
		u.ProtocolCustom = func(c *gev.Connection, b []byte) (string, bool) {
			want = "custom"
			return "custom", true
		}
	}
	out, hs, err := upgrade(&u, request(get, lines...))
	head, _, whole := wsx.Head(out)
	verif.Assert(whole && err == nil, "a valid upgrade request is accepted")
	if !whole {
		return
	}
	verif.Assert(hs.Protocol == want, "the sub-protocol reported")
	k := 0
	for _, l := range head {
		if strings.HasPrefix(l, "Sec-WebSocket-Protocol:") {
			verif.Assert(l == "Sec-WebSocket-Protocol: "+want, "the sub-protocol sent")
			k++
		}
	}
	if want == "" {
		verif.Assert(k == 0, "no sub-protocol is sent when none is selected")
		verif.Reach("none")
	} else {
		verif.Assert(k == 1, "the sub-protocol selected is sent")
		verif.Reach("selected")
	}
}

type app struct{ msgs int }

func (a *app) OnConnect(c *gev.Connection) {}
func (a *app) OnClose(c *gev.Connection)   {}
func (a *app) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	a.msgs++
	return ws.MessageText, msg
}

// Server: an accepted connection talks WebSocket, a refused one does not.
func Server() {
	a := &app{}
	u := &ws.Upgrader{}
	s := hx.Start(websocket.NewHandlerWrap(u, a), gev.NumLoops(1), gev.CustomProtocol(websocket.New(u)))
	p := s.Accept()
	first := get
	lines := append([]string(nil), headers[:]...)
	ok := false
	switch verif.Choose("fault", 12) {
	case 0:
		ok = true
	case 1:
		first = "POST / HTTP/1.1"
	case 2:
		first = "GET / HTTP/1.0"
	case 3:
		first = "GET / HTTP/2.0"
	case 4:
		first = "GET /"
	case 5:
		lines[1] = "Upgrade: h2c"
	case 6:
		lines[2] = "Connection: close"
	case 7:
		lines[3] = "Sec-WebSocket-Version: 8"
	case 8:
		lines[4] = "Sec-WebSocket-Key: short"
	case 9:
		lines[verif.Choose("missing", 5)] = "X: y"
	case 10:
		lines[1] = "no colon"
	case 11:
		first = ""
	}
	p.Feed(request(first, lines...))
	verif.WaitIdle()
	head, _, whole := wsx.Head(p.Tx)
	verif.Assert(whole, "a complete request is answered")
	if !whole {
		return
	}
	verif.Assert((head[0] == "HTTP/1.1 101 Switching Protocols") == ok, "exactly a valid upgrade request is accepted")
	if p.TxShut || !hx.IsOpen(p) {
		verif.Assert(!ok, "an accepted connection stays open")
		verif.Reach("refused")
		return
	}
	n := len(p.Tx)
	p.Feed(wsx.Client(1, verif.Bytes("p", 2)).Bytes())
	verif.WaitIdle()
	if ok {
		verif.Assert(a.msgs == 1, "an upgraded connection delivers messages")
		verif.Assert(len(p.Tx) == n+4, "and answers them")
		verif.Reach("accepted")
	} else {
		verif.Assert(a.msgs == 0, "a refused connection is not upgraded")
		verif.Reach("refused")
	}
}

// Many: a request with many other header lines, or with a long one, in one piece or cut.
func Many() {
	a := &app{}
	u := &ws.Upgrader{}
	s := hx.Start(websocket.NewHandlerWrap(u, a), gev.NumLoops(1), gev.CustomProtocol(websocket.New(u)))
	p := s.Accept()
	var other []string
	switch verif.Choose("other", 3) {
	case 0:
		for i := 0; i < verif.Tier(100, 300); i++ {
			other = append(other, "X-"+strconv.Itoa(i)+": "+strings.Repeat("v", i%40))
		}
	case 1:
		other = append(other, "Cookie: "+strings.Repeat("c", verif.Tier(9000, 70000)))
	case 2:
		v := bytes.Repeat([]byte("w"), 600)
		copy(v[280:], verif.Bytes("value", 24))
		for i := range v[:304] {
			v[i] = byte(verif.IteInt(between(v[i], 0x21, 0x7e), int(v[i]), 'x'))
		}
		other = append(other, "X: "+string(v))
	}
	lines := append([]string(nil), headers[:]...)
	drop := verif.Choose("drop", 6)
	if drop < 5 {
		lines[drop] = "Y: z"
	}
	switch verif.Choose("place", 3) {
	case 0:
		lines = append(lines, other...)
	case 1:
		lines = append(other, lines...)
	case 2:
		lines = append(lines[:2:2], append(other, lines[2:]...)...)
	}
	req := request(get, lines...)
	hx.Segments(p, req, []int{verif.Choose("cut", 4) * (len(req) - 1) / 3, len(req)})
	head, _, whole := wsx.Head(p.Tx)
	verif.Assert(whole, "a complete request is answered")
	if !whole {
		return
	}
	verif.Assert((head[0] == "HTTP/1.1 101 Switching Protocols") == (drop == 5), "exactly a valid upgrade request is accepted")
	if drop < 5 {
		verif.Reach("refused")
		return
	}
	p.Feed(wsx.Client(1, verif.Bytes("p", 2)).Bytes())
	verif.WaitIdle()
	verif.Assert(a.msgs == 1, "an upgraded connection delivers messages")
	verif.Reach("accepted")
}
