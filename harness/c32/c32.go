// Package c32: negotiation of WebSocket extensions (RFC 6455 section 9.1).
package c32

import (
	"bytes"
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/gobwas/httphead"

	"github.com/Allenxuxu/gev/zz_harness/wsx"

	"vrt/verif"
)

var base = []string{
	"GET /chat HTTP/1.1",
	"Host: h",
	"Upgrade: websocket",
	"Connection: Upgrade",
	"Sec-WebSocket-Version: 13",
	"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==",
}

func upgrade(u *ws.Upgrader, lines []string) ([]byte, ws.Handshake, error) {
	in := ringbuffer.New(0)
	b := []byte(strings.Join(lines, "\r\n") + "\r\n\r\n")
	in.WithData(b)
	out, hs, err := u.Upgrade(nil, in)
	for i := range b { // the next read reuses the packet buffer
		b[i] = '#'
	}
	return out, hs, err
}

// ext is one extension offered.
type ext struct {
	name string
	par  int
}

var pars = []string{"", ";k", ";k=v", ";k=1;l", `;k="x y"`}

func (e ext) String() string { return e.name + pars[e.par] }

func show(o httphead.Option) string {
	s := string(o.Name)
	o.Parameters.ForEach(func(k, v []byte) bool {
		s += ";" + string(k)
		switch {
		case bytes.IndexByte(v, ' ') >= 0:
			s += `="` + string(v) + `"`
		case len(v) > 0:
			s += "=" + string(v)
		}
		return true
	})
	return s
}

const key = "Sec-WebSocket-Extensions"

// Offers: lists of extensions with parameters, in one or two headers; those that the
// callback accepts come back, in the order of the offer.
func Offers() {
	names := []string{"aa", "b", "x-c"}
	n := 1 + verif.Choose("n", 3)
	if verif.Choose("order", 2) == 1 {
		names[0], names[n-1] = names[n-1], names[0]
	}
	var list []ext
	var likes []bool
	for i := 0; i < n; i++ {
		e := ext{names[i], 0}
		if i < verif.Tier(2, 3) {
			e.par = verif.Choose("par", len(pars))
		}
		list = append(list, e)
		likes = append(likes, verif.Bool("likes"))
	}
	sep := []string{",", ", ", " ,\t"}[verif.Choose("sep", 3)]
	split := verif.Choose("split", n)
	var text, want []string
	for i, e := range list {
		text = append(text, e.String())
		if likes[i] {
			want = append(want, e.String())
		}
	}
	lines := append([]string(nil), base...)
	if split > 0 {
		lines = append(lines, key+": "+strings.Join(text[:split], sep))
		lines = append(lines, "X-Other: 1")
	}
	lines = append(lines, key+": "+strings.Join(text[split:], sep))
	var u ws.Upgrader
	u.Extension = func(o httphead.Option) bool {
		s := show(o)
		for i, t := range text {
			if t == s {
				return likes[i]
			}
		}
		verif.Assert(false, "the callback is asked about an extension that was offered")
		return false
	}
	judge(&u, lines, want)
}

// Again: one extension offered several times, with different parameters; the first
// offer of it that the callback accepts comes back.
func Again() {
	n := 2 + verif.Choose("n", verif.Tier(2, 3))
	var text, want []string
	var likes []bool
	got := map[string]bool{}
	for i := 0; i < n; i++ {
		e := ext{[]string{"a", "b"}[verif.Choose("name", 2)], i}
		text = append(text, e.String())
		likes = append(likes, verif.Bool("likes"))
		if likes[i] && !got[e.name] {
			got[e.name] = true
			want = append(want, e.String())
		}
	}
	split := verif.Choose("split", n)
	lines := append([]string(nil), base...)
	if split > 0 {
		lines = append(lines, key+": "+strings.Join(text[:split], ","))
	}
	lines = append(lines, key+": "+strings.Join(text[split:], ", "))
	var u ws.Upgrader
	u.Extension = func(o httphead.Option) bool {
		s := show(o)
		for i, t := range text {
			if t == s {
				return likes[i]
			}
		}
		verif.Assert(false, "the callback is asked about an extension that was offered")
		return false
	}
	judge(&u, lines, want)
	verif.Reach("again")
}

// Off: without a callback the header is ignored.
func Off() {
	var u ws.Upgrader
	judge(&u, append(append([]string(nil), base...), key+": a;b=c"), nil)
}

func judge(u *ws.Upgrader, lines, want []string) {
	out, hs, err := upgrade(u, lines)
	head, rest, whole := wsx.Head(out)
	verif.Assert(whole && err == nil, "a valid upgrade request is accepted")
	if !whole || err != nil {
		return
	}
	verif.Assert(len(rest) == 0, "nothing behind the response")
	verif.Assert(strings.HasPrefix(head[0], "HTTP/1.1 101"), "switching protocols")
	verif.Assert(len(hs.Extensions) == len(want), "the number of extensions reported")
	if len(hs.Extensions) == len(want) {
		for i, o := range hs.Extensions {
			verif.Assert(show(o) == want[i], "the extensions reported")
		}
	}
	k := 0
	for _, l := range head {
		if strings.HasPrefix(l, key+":") {
			verif.Assert(l == key+": "+strings.Join(want, ","), "the extensions sent")
			k++
		}
	}
	if len(want) == 0 {
		verif.Assert(k == 0, "no extension is sent when none is accepted")
		verif.Reach("none")
	} else {
		verif.Assert(k == 1, "the extensions accepted are sent")
		verif.Reach("accepted")
	}
}

// Malformed: a list that is no list of extensions is refused.
func Malformed() {
	v := []string{"", ",", "=", "a;=b", "a=b", "a;b=\"c", "(a", "a;b=(", "\\"}[verif.Choose("value", 9)]
	var u ws.Upgrader
	u.Extension = func(o httphead.Option) bool { return true }
	lines := append([]string(nil), base...)
	if verif.Choose("first", 2) == 1 {
		lines = append(lines, key+": good")
	}
	lines = append(lines, key+": "+v)
	out, _, err := upgrade(&u, lines)
	head, _, whole := wsx.Head(out)
	verif.Assert(whole && err != nil, "a malformed extension list is refused")
	verif.Assert(whole && strings.HasPrefix(head[0], "HTTP/1.1 400"), "refused as a bad request")
	verif.Reach("refused")
}

// Custom: the custom callback gets each header's value and what was selected before,
// and its verdict counts.
func Custom() {
	heads := []string{"a;b=c", " d "}[:1+verif.Choose("n", 2)]
	lines := append([]string(nil), base...)
	for _, h := range heads {
		lines = append(lines, key+":"+h)
	}
	fail := verif.Choose("fail", 3) - 1
	k := 0
	var u ws.Upgrader
	if verif.Choose("both", 2) == 1 {
		u.Extension = func(o httphead.Option) bool {
			verif.Assert(false, "ExtensionCustom is used instead of Extension")
			return false
		}
	}
	u.ExtensionCustom = func(c *gev.Connection, v []byte, sel []httphead.Option) ([]httphead.Option, bool) {
		verif.Assert(k < len(heads) && string(v) == strings.Trim(heads[k], " "), "the value of the header")
		verif.Assert(len(sel) == k, "what was selected before")
		k++
		return append(sel, httphead.Option{Name: []byte{byte('o' + k)}}), k-1 != fail
	}
	if fail >= 0 && fail < len(heads) {
		out, _, err := upgrade(&u, lines)
		head, _, whole := wsx.Head(out)
		verif.Assert(whole && err != nil, "refused when the callback says so")
		verif.Assert(whole && strings.HasPrefix(head[0], "HTTP/1.1 400"), "refused as a bad request")
		verif.Assert(k == fail+1, "no callback after a refusal")
		verif.Reach("refused")
		return
	}
	want := []string{"p", "q"}[:len(heads)]
	judge(&u, lines, want)
}
