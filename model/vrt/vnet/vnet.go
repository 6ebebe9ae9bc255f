// Package vnet stands for the listening side of package net.
package vnet

import (
	"errors"
	"net"

	"vrt/verif"
	"vrt/vos"
	"vrt/vunix"
)

// Ls are the listeners made so far.
var Ls []*TCPListener

// Fail injects failures: "listen", "file".
var Fail func(op string) error

// NotTCP makes Listen return a listener that is not a TCP listener.
var NotTCP bool

type TCPListener struct {
	L     *vunix.Listener
	FD    int
	DupFD int
	Net   string
	Addr_ string
	Reuse bool
}

type otherListener struct{ *TCPListener }

func listen(network, addr string, reuse bool) (net.Listener, error) {
	if Fail != nil {
		if err := Fail("listen"); err != nil {
			return nil, err
		}
	}
	l := &vunix.Listener{}
	t := &TCPListener{L: l, FD: vunix.NewListener(l), DupFD: -1, Net: network, Addr_: addr, Reuse: reuse}
	Ls = append(Ls, t)
	if NotTCP {
		return &otherListener{t}, nil
	}
	return t, nil
}

func Listen(network, addr string) (net.Listener, error)          { return listen(network, addr, false) }
func ReuseportListen(network, addr string) (net.Listener, error) { return listen(network, addr, true) }

func (t *TCPListener) File() (*vos.File, error) {
	if Fail != nil {
		if err := Fail("file"); err != nil {
			return nil, err
		}
	}
	t.DupFD = vunix.DupListener(t.FD)
	return &vos.File{FD: t.DupFD}, nil
}

func (t *TCPListener) Close() error {
	if f := vunix.Lookup(t.FD); f.Closed {
		return net.ErrClosed
	}
	return vunix.Close(t.FD)
}

func (t *TCPListener) Accept() (net.Conn, error) {
	verif.Fatal("blocking Accept outside the model")
	return nil, errors.New("accept")
}

func (t *TCPListener) Addr() net.Addr { return addr{t.Net, t.Addr_} }

type addr struct{ n, s string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.s }
