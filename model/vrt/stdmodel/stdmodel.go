// Package stdmodel gives Go bodies to standard-library routines that are written in
// assembly (the engine redirects calls here; native runs use the real ones).
package stdmodel

import (
	"io"

	"vrt/verif"
)

func IndexByte(b []byte, c byte) int {
	for i := range b {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(b string, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(b string, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := range b {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(b string, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func Index(b, sep []byte) int {
	n := len(sep)
	for i := 0; i+n <= len(b); i++ {
		if string(b[i:i+n]) == string(sep) {
			return i
		}
	}
	return -1
}

func IndexString(b, sep string) int {
	n := len(sep)
	for i := 0; i+n <= len(b); i++ {
		if b[i:i+n] == sep {
			return i
		}
	}
	return -1
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if j, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range j.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

func dec(b []byte, x byte) []byte {
	if x >= 100 {
		b = append(b, '0'+x/100)
	}
	if x >= 10 {
		b = append(b, '0'+x/10%10)
	}
	return append(b, '0'+x%10)
}

// IPString is (net.IP).String.
func IPString(ip []byte) string {
	if len(ip) == 0 {
		return "<nil>"
	}
	if len(ip) != 4 && len(ip) != 16 {
		return "?"
	}
	v4 := ip
	if len(ip) == 16 {
		v4 = nil
		m := ip[10] == 0xff && ip[11] == 0xff
		for i := 0; i < 10 && m; i++ {
			m = ip[i] == 0
		}
		if m {
			v4 = ip[12:]
		}
	}
	var b []byte
	if v4 != nil {
		for i := 0; i < 4; i++ {
			if i > 0 {
				b = append(b, '.')
			}
			b = dec(b, v4[i])
		}
		return string(b)
	}
	var w [8]int
	for i := range w {
		w[i] = int(ip[2*i])<<8 | int(ip[2*i+1])
	}
	zs, ze := -1, -1
	for i := 0; i < 8; i++ {
		j := i
		for j < 8 && w[j] == 0 {
			j++
		}
		if j > i+1 && j-i > ze-zs {
			zs, ze = i, j
		}
	}
	const hex = "0123456789abcdef"
	for i := 0; i < 8; i++ {
		if i == zs {
			b = append(b, ':', ':')
			i = ze
			if i >= 8 {
				break
			}
		} else if i > 0 {
			b = append(b, ':')
		}
		x := w[i]
		if x >= 0x1000 {
			b = append(b, hex[x>>12])
		}
		if x >= 0x100 {
			b = append(b, hex[x>>8&15])
		}
		if x >= 0x10 {
			b = append(b, hex[x>>4&15])
		}
		b = append(b, hex[x&15])
	}
	return string(b)
}

// utf8Step is one step of the RFC 3629 automaton: 0 between characters, 1..3 that
// many continuation bytes to come, 4..7 after E0, ED, F0, F4, 8 invalid.
func utf8Step(s int, c byte) int {
	in := func(lo, hi byte) bool { return verif.And(c >= lo, c <= hi) }
	ite := verif.IteInt
	start := ite(c < 0x80, 0, ite(in(0xc2, 0xdf), 1, ite(c == 0xe0, 4, ite(c == 0xed, 5, ite(in(0xe1, 0xef), 2,
		ite(c == 0xf0, 6, ite(c == 0xf4, 7, ite(in(0xf1, 0xf3), 3, 8))))))))
	cont := in(0x80, 0xbf)
	return ite(s == 0, start, ite(s == 1, ite(cont, 0, 8), ite(s == 2, ite(cont, 1, 8), ite(s == 3, ite(cont, 2, 8),
		ite(s == 4, ite(in(0xa0, 0xbf), 1, 8), ite(s == 5, ite(in(0x80, 0x9f), 1, 8),
			ite(s == 6, ite(in(0x90, 0xbf), 2, 8), ite(s == 7, ite(in(0x80, 0x8f), 2, 8), 8))))))))
}

// Utf8Valid is utf8.Valid without a branch per byte.
func Utf8Valid(b []byte) bool {
	s := 0
	for i := range b {
		s = utf8Step(s, b[i])
	}
	return s == 0
}

func Utf8ValidString(b string) bool {
	s := 0
	for i := 0; i < len(b); i++ {
		s = utf8Step(s, b[i])
	}
	return s == 0
}

func high(b []byte) bool {
	r := false
	for _, c := range b {
		r = verif.Or(r, c >= 0x80)
	}
	return r
}

func fold(c byte) int {
	return verif.IteInt(verif.And(c >= 'A', c <= 'Z'), int(c)+32, int(c))
}

// EqualFold is bytes.EqualFold where at least one side is ASCII. The only other
// characters that fold to ASCII are the Kelvin sign and the long s.
func EqualFold(s, t []byte) bool {
	if high(t) {
		if high(s) {
			verif.Fatal("EqualFold of two strings that are not ASCII")
		}
		s, t = t, s
	}
	if len(s) == len(t) {
		// an s that is not ASCII has fewer characters than t
		r := true
		for i := range s {
			r = verif.And(r, fold(s[i]) == fold(t[i]))
		}
		return r
	}
	if len(s) < len(t) || !high(s) {
		return false
	}
	for len(s) > 0 {
		if len(t) == 0 {
			return false
		}
		c, n := fold(s[0]), 1
		if len(s) >= 3 && s[0] == 0xe2 && s[1] == 0x84 && s[2] == 0xaa {
			c, n = 'k', 3
		} else if len(s) >= 2 && s[0] == 0xc5 && s[1] == 0xbf {
			c, n = 's', 2
		} else if s[0] >= 0x80 {
			return false
		}
		if c != fold(t[0]) {
			return false
		}
		s, t = s[n:], t[1:]
	}
	return len(t) == 0
}

func EqualFoldString(s, t string) bool { return EqualFold([]byte(s), []byte(t)) }

// HeaderWrite is net/http.Header.Write.
func HeaderWrite(h map[string][]string, w io.Writer) error {
	var keys []string
	for k := range h {
		i := len(keys)
		keys = append(keys, k)
		for i > 0 && keys[i-1] > k {
			keys[i] = keys[i-1]
			i--
		}
		keys[i] = k
	}
	for _, k := range keys {
		if !token(k) {
			continue
		}
		for _, v := range h[k] {
			b := []byte(v)
			for i := range b {
				if b[i] == '\n' || b[i] == '\r' {
					b[i] = ' '
				}
			}
			for len(b) > 0 && (b[0] == ' ' || b[0] == '\t') {
				b = b[1:]
			}
			for n := len(b); n > 0 && (b[n-1] == ' ' || b[n-1] == '\t'); n = len(b) {
				b = b[:n-1]
			}
			for _, s := range [...]string{k, ": ", string(b), "\r\n"} {
				if _, err := io.WriteString(w, s); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func token(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || c >= 0x7f {
			return false
		}
		switch c {
		case '(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}':
			return false
		}
	}
	return len(s) > 0
}
