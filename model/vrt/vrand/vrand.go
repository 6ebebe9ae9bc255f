// Package vrand stands for math/rand: any value.
package vrand

import "vrt/verif"

func Uint32() uint32       { return uint32(verif.Uint64("rand")) }
func Uint64() uint64       { return verif.Uint64("rand") }
func Int63() int64         { return int64(verif.Uint64("rand") >> 1) }
func Int31() int32         { return int32(verif.Uint64("rand") >> 33) }
func Int() int             { return int(verif.Uint64("rand") >> 1) }
func Intn(n int) int       { return verif.Int("rand", 0, n-1) }
func Int31n(n int32) int32 { return int32(verif.Int("rand", 0, int(n)-1)) }
func Int63n(n int64) int64 { return int64(verif.Int("rand", 0, int(n)-1)) }
func Seed(int64)           {}
func Read(p []byte) (int, error) {
	b := verif.Bytes("randbytes", len(p))
	copy(p, b)
	return len(p), nil
}
