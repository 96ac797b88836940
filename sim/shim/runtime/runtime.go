// Package runtime replaces the scheduling entry points of the standard package in the simulated build.
package runtime

import (
	"runtime"

	"verifsim/simrt"
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
)

func Gosched()                                { simrt.Yield() }
func GC()                                     {}
func NumGoroutine() int                       { return 1 }
func NumCPU() int                             { return 1 }
func GOMAXPROCS(int) int                      { return 1 }
func KeepAlive(any)                           {}
func SetFinalizer(any, any)                   {}
func ReadMemStats(m *MemStats)                { *m = MemStats{} }
func Stack(b []byte, all bool) int            { return 0 }
func Version() string                         { return runtime.Version() }
func Caller(int) (uintptr, string, int, bool) { return 0, "", 0, false }
