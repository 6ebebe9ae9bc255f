package vos

import (
	"vrt/verif"
	"vrt/vunix"
)

// Env is the environment the program sees.
var Env = map[string]string{}

func Getenv(k string) string {
	if v, ok := Env[k]; ok {
		return v
	}
	return verif.Restarted(k)
}

func LookupEnv(k string) (string, bool) {
	v := Getenv(k)
	return v, v != ""
}

// Start makes k=v part of the environment in which the program starts. To be called
// before anything else: compiled natively, it starts the program afresh.
func Start(k, v string) {
	Env[k] = v
	verif.Restart(k, v)
}

// OnExit receives the status of os.Exit; it must not return.
var OnExit func(code int)

func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	verif.Exit()
}

// File is a duplicate descriptor as returned by (*net.TCPListener).File.
type File struct {
	FD     int
	closed bool
}

func NewFile(fd int) *File { return &File{FD: fd} }

func (f *File) Fd() uintptr { return uintptr(f.FD) }

func (f *File) Close() error {
	if f == nil || f.closed {
		return vunix.EINVAL
	}
	f.closed = true
	return vunix.Close(f.FD)
}
