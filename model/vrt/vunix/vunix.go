// Package vunix models the part of the Linux kernel that gev uses: stream sockets,
// epoll (level triggered) and eventfd. Unless Reuse is set descriptor numbers are not
// reused, so that every operation on a closed descriptor is visible as such.
package vunix

import (
	"syscall"

	"golang.org/x/sys/unix"

	"vrt/verif"
)

type kind int

const (
	kConn kind = iota
	kListener
	kEpoll
	kEvent
	kOther
)

const (
	EAGAIN     = unix.EAGAIN
	EINVAL     = unix.EINVAL
	EBADF      = unix.EBADF
	ENOENT     = unix.ENOENT
	EEXIST     = unix.EEXIST
	EPIPE      = unix.EPIPE
	ECONNRESET = unix.ECONNRESET
)

// FD is an open (or once open) descriptor.
type FD struct {
	N       int
	kind    kind
	Closed  bool
	Closes  int
	NonBlk  bool
	Conn    *Conn
	Lst     *Listener
	ep      *epoll
	counter int // eventfd
	Dup     *FD // listener duplicated by File(): same open file description
}

// Conn is the server's end of a stream; the harness plays the peer.
type Conn struct {
	FD      int
	Rx      []byte          // received by the kernel, not yet read
	RxEOF   bool            // peer shut down its sending side
	RxErr   error           // pending socket error (reset)
	Tx      []byte          // accepted from the server, in order
	TxShut  bool            // server shut down its sending side
	Hung    bool            // both directions down: EPOLLHUP
	Window  int             // how many more bytes the kernel accepts (<0: unlimited)
	WriteN  func(n int) int // chooses how many of n bytes (all within the window) a write takes
	Written int             // total bytes accepted
	Reads   int
	Writes  int
	// AfterShut counts writes attempted after the server's own shutdown
	AfterShut int
}

// Listener queues peers for accept.
type Listener struct {
	Pending   []*Conn
	Addrs     []unix.Sockaddr
	AcceptErr error // next accept fails with this
	Closed    bool
}

type item struct {
	fd     int
	events uint32
	data   int32
	pad    int32
}

type epoll struct {
	items []*item
	seen  int // progress at the last wait
	spins int // waits in a row that returned at once although nothing had happened
}

var (
	table  []*FD
	nextFD = 5
	// Fail lets a harness inject a failure of a named call.
	Fail func(op string, fd int) error
	// BadUse is called for every operation on a descriptor that is not open.
	BadUse func(op string, fd int)
	// OnRead sees the data each successful read of a connection returns.
	OnRead func(fd int, data []byte)
	// EvOrder picks the index at which the ready list starts (level-triggered epoll
	// gives no order guarantee); nil keeps registration order.
	EvOrder func(n int) int
	// Waits counts EpollWait calls that blocked.
	Waits int
	// MaxSpins is how often a wait may return at once without any progress in between.
	MaxSpins = 12
	// Reuse gives a closed descriptor's number to the next one opened, as the kernel does.
	// Without it every operation on a closed descriptor is seen as such.
	Reuse bool
	// Past holds the closed descriptors whose numbers were reused.
	Past []*FD
	// progress counts the calls that changed the state of the kernel.
	progress int
)

func newFD(k kind) *FD {
	if Reuse {
		for i, o := range table {
			if o.Closed {
				f := &FD{N: o.N, kind: k}
				Past = append(Past, o)
				table[i] = f
				return f
			}
		}
	}
	f := &FD{N: nextFD, kind: k}
	nextFD++
	table = append(table, f)
	return f
}

// Table lists every descriptor ever opened.
func Table() []*FD { return table }

// Open lists the descriptors still open.
func Open() []int {
	var r []int
	for _, f := range table {
		if !f.Closed {
			r = append(r, f.N)
		}
	}
	return r
}

// Lookup finds a descriptor, open or closed.
func Lookup(fd int) *FD {
	if fd < 5 || fd >= nextFD {
		return nil
	}
	return table[fd-5]
}

func get(op string, fd int) *FD {
	f := Lookup(fd)
	if f == nil || f.Closed {
		if BadUse != nil {
			BadUse(op, fd)
		} else {
			verif.Assert(false, op+" on a descriptor that is not open")
		}
		return nil
	}
	return f
}

func fail(op string, fd int) error {
	if Fail != nil {
		return Fail(op, fd)
	}
	return nil
}

// NewConn makes a connected socket, unread data empty, window unlimited.
func NewConn() *Conn {
	f := newFD(kConn)
	c := &Conn{FD: f.N, Window: -1, Tx: make([]byte, 0, 1<<16), Rx: make([]byte, 0, 1<<16)}
	f.Conn = c
	f.NonBlk = true
	return c
}

// NewListener makes a listening descriptor.
func NewListener(l *Listener) int {
	f := newFD(kListener)
	f.Lst = l
	return f.N
}

// DupListener duplicates a listening descriptor.
func DupListener(fd int) int {
	o := Lookup(fd)
	f := newFD(kListener)
	f.Lst = o.Lst
	f.Dup = o
	return f.N
}

// NewPeer is a connection waiting to be accepted.
func NewPeer() *Conn {
	return &Conn{FD: -1, Window: -1, Tx: make([]byte, 0, 1<<16), Rx: make([]byte, 0, 1<<16)}
}

// Feed makes the peer send b.
func (c *Conn) Feed(b []byte) { c.Rx = append(c.Rx, b...) }

func Read(fd int, p []byte) (int, error) {
	verif.Yield()
	f := get("read", fd)
	if f == nil {
		return -1, EBADF
	}
	if err := fail("read", fd); err != nil {
		return -1, err
	}
	switch f.kind {
	case kEvent:
		if len(p) < 8 {
			return -1, EINVAL
		}
		if f.counter == 0 {
			if f.NonBlk {
				return -1, EAGAIN
			}
			verif.Block(func() bool { return f.counter > 0 || f.Closed })
			if f.Closed {
				return -1, EBADF
			}
		}
		v := uint64(f.counter)
		f.counter = 0
		progress++
		for i := 0; i < 8; i++ {
			p[i] = byte(v >> (8 * uint(i)))
		}
		return 8, nil
	case kConn:
		c := f.Conn
		c.Reads++
		if len(c.Rx) > 0 {
			n := copy(p, c.Rx)
			c.Rx = c.Rx[n:]
			progress++
			if OnRead != nil {
				OnRead(fd, p[:n])
			}
			return n, nil
		}
		if c.RxErr != nil {
			return -1, c.RxErr
		}
		if c.RxEOF {
			return 0, nil
		}
		return -1, EAGAIN
	}
	return -1, EINVAL
}

func Write(fd int, p []byte) (int, error) {
	verif.Yield()
	f := get("write", fd)
	if f == nil {
		return -1, EBADF
	}
	if err := fail("write", fd); err != nil {
		return -1, err
	}
	switch f.kind {
	case kEvent:
		if len(p) < 8 {
			return -1, EINVAL
		}
		v := 0
		for i := 7; i >= 0; i-- {
			v = v<<8 | int(p[i])
		}
		f.counter += v
		progress++
		return 8, nil
	case kConn:
		c := f.Conn
		c.Writes++
		if c.TxShut {
			c.AfterShut++
			return -1, EPIPE
		}
		if c.RxErr != nil {
			return -1, c.RxErr
		}
		if len(p) == 0 {
			return 0, nil
		}
		n := len(p)
		if c.Window >= 0 {
			if c.Window == 0 {
				return -1, EAGAIN
			}
			if n > c.Window {
				n = c.Window
			}
		}
		if c.WriteN != nil {
			n = c.WriteN(n)
			if n == 0 {
				return -1, EAGAIN
			}
		}
		if c.Window >= 0 {
			c.Window -= n
		}
		progress++
		c.Tx = append(c.Tx, p[:n]...)
		c.Written += n
		return n, nil
	}
	return -1, EINVAL
}

func Close(fd int) error {
	verif.Yield()
	f := Lookup(fd)
	if f != nil {
		f.Closes++
	}
	if f == nil || f.Closed {
		if BadUse != nil {
			BadUse("close", fd)
		} else {
			verif.Assert(false, "close of a descriptor that is not open")
		}
		return EBADF
	}
	f.Closed = true
	progress++
	// a closed descriptor leaves every epoll set
	for _, e := range table {
		if e.kind == kEpoll && !e.Closed {
			e.ep.remove(fd)
		}
	}
	return nil
}

func (e *epoll) remove(fd int) bool {
	for i, it := range e.items {
		if it.fd == fd {
			n := make([]*item, 0, len(e.items))
			n = append(n, e.items[:i]...)
			n = append(n, e.items[i+1:]...)
			e.items = n
			return true
		}
	}
	return false
}

func SetNonblock(fd int, nb bool) error {
	f := get("setnonblock", fd)
	if f == nil {
		return EBADF
	}
	if err := fail("setnonblock", fd); err != nil {
		return err
	}
	f.NonBlk = nb
	return nil
}

func Shutdown(fd, how int) error {
	verif.Yield()
	f := get("shutdown", fd)
	if f == nil {
		return EBADF
	}
	if err := fail("shutdown", fd); err != nil {
		return err
	}
	if f.kind != kConn {
		return EINVAL
	}
	if how == unix.SHUT_WR || how == unix.SHUT_RDWR {
		f.Conn.TxShut = true
	}
	return nil
}

func accept(fd int) (int, unix.Sockaddr, error) {
	verif.Yield()
	f := get("accept", fd)
	if f == nil {
		return -1, nil, EBADF
	}
	if f.kind != kListener {
		return -1, nil, EINVAL
	}
	if err := fail("accept", fd); err != nil {
		return -1, nil, err
	}
	l := f.Lst
	if l.AcceptErr != nil {
		err := l.AcceptErr
		l.AcceptErr = nil
		return -1, nil, err
	}
	if len(l.Pending) == 0 {
		return -1, nil, EAGAIN
	}
	progress++
	c := l.Pending[0]
	l.Pending = l.Pending[1:]
	n := newFD(kConn)
	n.Conn = c
	c.FD = n.N
	var sa unix.Sockaddr = &unix.SockaddrInet4{Port: 40000 + n.N, Addr: [4]byte{127, 0, 0, 1}}
	if len(l.Addrs) > 0 {
		sa = l.Addrs[0]
		l.Addrs = l.Addrs[1:]
	}
	return n.N, sa, nil
}

func Accept(fd int) (int, unix.Sockaddr, error) { return accept(fd) }

func Accept4(fd, flags int) (int, unix.Sockaddr, error) {
	n, sa, err := accept(fd)
	if err == nil && flags&unix.SOCK_NONBLOCK != 0 {
		Lookup(n).NonBlk = true
	}
	return n, sa, err
}

func EpollCreate1(flag int) (int, error) {
	if err := fail("epoll_create", -1); err != nil {
		return -1, err
	}
	f := newFD(kEpoll)
	f.ep = &epoll{}
	return f.N, nil
}

func EpollCreate(size int) (int, error) { return EpollCreate1(0) }

func Eventfd(initval uint, flags int) (int, error) {
	if err := fail("eventfd", -1); err != nil {
		return -1, err
	}
	f := newFD(kEvent)
	f.counter = int(initval)
	f.NonBlk = flags&unix.EFD_NONBLOCK != 0
	return f.N, nil
}

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if trap == unix.SYS_EVENTFD2 {
		fd, e := Eventfd(uint(a1), int(a2))
		if e != nil {
			if en, ok := e.(syscall.Errno); ok {
				return 0, 0, en
			}
			return 0, 0, unix.EMFILE
		}
		return uintptr(fd), 0, 0
	}
	if trap == unix.SYS_EVENTFD {
		fd, e := Eventfd(uint(a1), 0)
		if e != nil {
			return 0, 0, unix.EMFILE
		}
		return uintptr(fd), 0, 0
	}
	verif.Fatal("system call outside the model")
	return 0, 0, unix.ENOSYS
}

func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return Syscall(trap, a1, a2, a3)
}

func EpollCtl(epfd, op, fd int, ev *unix.EpollEvent) error {
	verif.Yield()
	e := get("epoll_ctl", epfd)
	if e == nil {
		return EBADF
	}
	f := get("epoll_ctl target", fd)
	if f == nil {
		return EBADF
	}
	name := "epoll_add"
	if op == unix.EPOLL_CTL_MOD {
		name = "epoll_mod"
	} else if op == unix.EPOLL_CTL_DEL {
		name = "epoll_del"
	}
	if err := fail(name, fd); err != nil {
		return err
	}
	if e.kind != kEpoll {
		return EINVAL
	}
	progress++
	var it *item
	for _, x := range e.ep.items {
		if x.fd == fd {
			it = x
		}
	}
	switch op {
	case unix.EPOLL_CTL_ADD:
		if it != nil {
			return EEXIST
		}
		e.ep.items = append(e.ep.items, &item{fd: fd, events: ev.Events, data: ev.Fd, pad: ev.Pad})
	case unix.EPOLL_CTL_MOD:
		if it == nil {
			return ENOENT
		}
		it.events, it.data, it.pad = ev.Events, ev.Fd, ev.Pad
	case unix.EPOLL_CTL_DEL:
		if it == nil {
			return ENOENT
		}
		e.ep.remove(fd)
	}
	return nil
}

// Interest reports the events fd is registered for in any epoll set.
func Interest(fd int) (uint32, bool) {
	for _, e := range table {
		if e.kind == kEpoll && !e.Closed {
			for _, it := range e.ep.items {
				if it.fd == fd {
					return it.events, true
				}
			}
		}
	}
	return 0, false
}

// Registrations counts the epoll sets that hold fd.
func Registrations(fd int) int {
	n := 0
	for _, e := range table {
		if e.kind == kEpoll && !e.Closed {
			for _, it := range e.ep.items {
				if it.fd == fd {
					n++
				}
			}
		}
	}
	return n
}

// Raw events override (poller tests): when set, readiness of a descriptor is this.
var RawEvents = map[int]uint32{}

func (f *FD) poll() uint32 {
	if len(RawEvents) > 0 {
		if ev, ok := RawEvents[f.N]; ok {
			return ev
		}
	}
	var ev uint32
	switch f.kind {
	case kEvent:
		if f.counter > 0 {
			ev |= unix.EPOLLIN
		}
		ev |= unix.EPOLLOUT
	case kListener:
		if len(f.Lst.Pending) > 0 || f.Lst.AcceptErr != nil {
			ev |= unix.EPOLLIN
		}
	case kConn:
		c := f.Conn
		if len(c.Rx) > 0 || c.RxEOF || c.RxErr != nil {
			ev |= unix.EPOLLIN
		}
		if c.RxEOF {
			ev |= unix.EPOLLRDHUP
		}
		if c.Window != 0 || c.TxShut || c.RxErr != nil {
			ev |= unix.EPOLLOUT
		}
		if c.RxErr != nil {
			ev |= unix.EPOLLERR | unix.EPOLLHUP
		}
		if c.Hung || (c.RxEOF && c.TxShut) {
			ev |= unix.EPOLLHUP
		}
	}
	return ev
}

func (it *item) ready() uint32 {
	f := Lookup(it.fd)
	if f.Closed {
		return 0
	}
	return f.poll() & (it.events | unix.EPOLLERR | unix.EPOLLHUP)
}

func EpollWait(epfd int, events []unix.EpollEvent, msec int) (int, error) {
	verif.Yield()
	e := get("epoll_wait", epfd)
	if e == nil {
		// a loop spinning on a closed descriptor never ends
		verif.Exit()
	}
	if err := fail("epoll_wait", epfd); err != nil {
		return -1, err
	}
	if len(events) == 0 {
		return -1, EINVAL
	}
	blocked := false
	if msec != 0 {
		Waits++
		verif.Block(func() bool {
			if e.Closed {
				return false // closing an epoll descriptor does not wake its waiter
			}
			for _, it := range e.ep.items {
				if it.ready() != 0 {
					return true
				}
			}
			blocked = true
			return false
		})
	}
	n := 0
	var rdy []unix.EpollEvent
	for _, it := range e.ep.items {
		if r := it.ready(); r != 0 {
			rdy = append(rdy, unix.EpollEvent{Events: r, Fd: it.data, Pad: it.pad})
		}
	}
	st := 0
	if EvOrder != nil && len(rdy) > 1 {
		st = EvOrder(len(rdy))
	}
	for i := range rdy {
		if n == len(events) {
			break
		}
		events[n] = rdy[(st+i)%len(rdy)]
		n++
	}
	if blocked || e.ep.seen != progress {
		e.ep.spins = 0
	} else if e.ep.spins++; e.ep.spins > MaxSpins {
		verif.Assert(false, "busy loop: a descriptor stays ready and nothing is done about it")
		verif.Exit()
	}
	e.ep.seen = progress
	return n, nil
}

func SetsockoptInt(fd, level, opt, value int) error {
	if get("setsockopt", fd) == nil {
		return EBADF
	}
	return nil
}
