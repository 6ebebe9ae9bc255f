// Package vchan stands for channels.
package vchan

import "vrt/verif"

type Chan[T any] struct {
	buf     []T
	cap     int
	closed  bool
	waiting int // receivers blocked
	taken   int
}

func Make[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

func Send[T any](c *Chan[T], v T) {
	verif.Yield()
	if c == nil {
		verif.Block(func() bool { return false })
	}
	if c.closed {
		panic("send on closed channel")
	}
	room := c.cap
	if room == 0 {
		room = 1
	}
	if len(c.buf) >= room {
		verif.Block(func() bool { return len(c.buf) < room || c.closed })
	}
	if c.closed {
		panic("send on closed channel")
	}
	c.buf = append(c.buf, v)
	if c.cap == 0 {
		t := c.taken
		verif.Block(func() bool { return c.taken != t })
	}
}

func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

func Recv2[T any](c *Chan[T]) (T, bool) {
	verif.Yield()
	if c == nil {
		verif.Block(func() bool { return false })
	}
	if len(c.buf) == 0 && !c.closed {
		c.waiting++
		verif.Block(func() bool { return len(c.buf) > 0 || c.closed })
		c.waiting--
	}
	var z T
	if len(c.buf) == 0 {
		return z, false
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	c.taken++
	return v, true
}

func Close[T any](c *Chan[T]) {
	verif.Yield()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

func (c *Chan[T]) Len() int { return len(c.buf) }

// Len is len(c); what an unbuffered send has put down is not in a buffer.
func Len[T any](c *Chan[T]) int {
	if c == nil || c.cap == 0 {
		return 0
	}
	return len(c.buf)
}

func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// Case is a clause of a select statement: whether it can proceed.
type Case func() bool

func RecvCase[T any](c *Chan[T]) Case {
	return func() bool { return c != nil && (len(c.buf) > 0 || c.closed) }
}

func SendCase[T any](c *Chan[T]) Case {
	return func() bool {
		if c == nil {
			return false
		}
		if c.closed {
			return true
		}
		if c.cap > 0 {
			return len(c.buf) < c.cap
		}
		return c.waiting > len(c.buf)
	}
}

// Select picks a clause (-1: the default clause).
func Select(def bool, cs ...Case) int {
	verif.Yield()
	for {
		for i, c := range cs {
			if c() {
				return i
			}
		}
		if def {
			return -1
		}
		verif.Block(func() bool {
			for _, c := range cs {
				if c() {
					return true
				}
			}
			return false
		})
	}
}
