package vruntime

import "vrt/verif"

// CPUs is what NumCPU reports.
var CPUs = 2

func Gosched()                { verif.Gosched() }
func NumCPU() int             { return CPUs }
func GOMAXPROCS(n int) int    { return CPUs }
func NumGoroutine() int       { return 1 }
func KeepAlive(x interface{}) {}
func GC()                     {}
