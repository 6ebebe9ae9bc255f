package vunix

import (
	"golang.org/x/sys/unix"
)

// The calls below are not used by the code as it stands; a rewrite of it might.

func Recvfrom(fd int, p []byte, flags int) (int, unix.Sockaddr, error) {
	n, err := Read(fd, p)
	return n, nil, err
}

func Sendto(fd int, p []byte, flags int, to unix.Sockaddr) error {
	_, err := Write(fd, p)
	return err
}

func SendmsgN(fd int, p, oob []byte, to unix.Sockaddr, flags int) (int, error) {
	return Write(fd, p)
}

func Writev(fd int, iovs [][]byte) (int, error) {
	var all []byte
	for _, b := range iovs {
		all = append(all, b...)
	}
	return Write(fd, all)
}

func Readv(fd int, iovs [][]byte) (int, error) {
	n := 0
	for _, b := range iovs {
		n += len(b)
	}
	buf := make([]byte, n)
	n, err := Read(fd, buf)
	if n <= 0 {
		return n, err
	}
	k := buf[:n]
	for _, b := range iovs {
		m := copy(b, k)
		k = k[m:]
	}
	return n, err
}

func GetsockoptInt(fd, level, opt int) (int, error) {
	f := get("getsockopt", fd)
	if f == nil {
		return -1, EBADF
	}
	if f.kind == kConn && level == unix.SOL_SOCKET && opt == unix.SO_ERROR && f.Conn.RxErr != nil {
		if e, ok := f.Conn.RxErr.(unix.Errno); ok {
			return int(e), nil
		}
	}
	return 0, nil
}

func SetsockoptLinger(fd, level, opt int, l *unix.Linger) error {
	if get("setsockopt", fd) == nil {
		return EBADF
	}
	return nil
}

func CloseOnExec(fd int) {}

func EpollPwait(epfd int, events []unix.EpollEvent, msec int, mask *unix.Sigset_t) (int, error) {
	return EpollWait(epfd, events, msec)
}
