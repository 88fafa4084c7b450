// Package sruntime stands in for package runtime under the simulator.
package sruntime

import (
	"runtime"

	"verifrt/simrt"
)

type (
	// Error is runtime.Error.
	Error = runtime.Error
	// MemStats is runtime.MemStats.
	MemStats = runtime.MemStats
	// Frame is runtime.Frame.
	Frame = runtime.Frame
	// Func is runtime.Func.
	Func = runtime.Func
)

// Constants of the platform.
const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

func Gosched()               { simrt.Gosched() }
func NumCPU() int            { return simrt.CPUs }
func GOMAXPROCS(int) int     { return simrt.CPUs }
func NumGoroutine() int      { return simrt.NumTasks() }
func GC()                    {}
func KeepAlive(x any)        { runtime.KeepAlive(x) }
func Goexit()                { runtime.Goexit() }
func Version() string        { return runtime.Version() }
func LockOSThread()          {}
func UnlockOSThread()        {}
func ReadMemStats(*MemStats) {}

func Caller(skip int) (uintptr, string, int, bool) { return 0, "", 0, false }
