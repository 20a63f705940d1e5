// Code generated from the API of package runtime: everything that is passed through unchanged.

package vruntime

import "runtime"

const (
	Compiler = runtime.Compiler
	GOARCH   = runtime.GOARCH
	GOOS     = runtime.GOOS
)

type (
	BlockProfileRecord = runtime.BlockProfileRecord
	Error              = runtime.Error
	Frame              = runtime.Frame
	Frames             = runtime.Frames
	Func               = runtime.Func
	MemProfileRecord   = runtime.MemProfileRecord
	MemStats           = runtime.MemStats
	PanicNilError      = runtime.PanicNilError
	Pinner             = runtime.Pinner
	StackRecord        = runtime.StackRecord
	TypeAssertionError = runtime.TypeAssertionError
)

var (
	MemProfileRate          = runtime.MemProfileRate
	BlockProfile            = runtime.BlockProfile
	Breakpoint              = runtime.Breakpoint
	CPUProfile              = runtime.CPUProfile
	Caller                  = runtime.Caller
	Callers                 = runtime.Callers
	CallersFrames           = runtime.CallersFrames
	FuncForPC               = runtime.FuncForPC
	GC                      = runtime.GC
	GOROOT                  = runtime.GOROOT
	Goexit                  = runtime.Goexit
	GoroutineProfile        = runtime.GoroutineProfile
	KeepAlive               = runtime.KeepAlive
	LockOSThread            = runtime.LockOSThread
	MemProfile              = runtime.MemProfile
	MutexProfile            = runtime.MutexProfile
	NumCgoCall              = runtime.NumCgoCall
	ReadMemStats            = runtime.ReadMemStats
	ReadTrace               = runtime.ReadTrace
	SetBlockProfileRate     = runtime.SetBlockProfileRate
	SetCPUProfileRate       = runtime.SetCPUProfileRate
	SetCgoTraceback         = runtime.SetCgoTraceback
	SetFinalizer            = runtime.SetFinalizer
	SetMutexProfileFraction = runtime.SetMutexProfileFraction
	Stack                   = runtime.Stack
	StartTrace              = runtime.StartTrace
	StopTrace               = runtime.StopTrace
	ThreadCreateProfile     = runtime.ThreadCreateProfile
	UnlockOSThread          = runtime.UnlockOSThread
	Version                 = runtime.Version
)
