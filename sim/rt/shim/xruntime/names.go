// Code generated from the names of the standard package; DO NOT EDIT.

package runtime

import std "runtime"

type (
	BlockProfileRecord = std.BlockProfileRecord
	Cleanup            = std.Cleanup
	Error              = std.Error
	Frame              = std.Frame
	Frames             = std.Frames
	Func               = std.Func
	MemProfileRecord   = std.MemProfileRecord
	MemStats           = std.MemStats
	PanicNilError      = std.PanicNilError
	Pinner             = std.Pinner
	StackRecord        = std.StackRecord
	TypeAssertionError = std.TypeAssertionError
)

const (
	Compiler = std.Compiler
	GOARCH   = std.GOARCH
	GOOS     = std.GOOS
)

var (
	MemProfileRate          = std.MemProfileRate
	BlockProfile            = std.BlockProfile
	Breakpoint              = std.Breakpoint
	CPUProfile              = std.CPUProfile
	Caller                  = std.Caller
	Callers                 = std.Callers
	GOROOT                  = std.GOROOT
	Goexit                  = std.Goexit
	GoroutineProfile        = std.GoroutineProfile
	KeepAlive               = std.KeepAlive
	LockOSThread            = std.LockOSThread
	MemProfile              = std.MemProfile
	MutexProfile            = std.MutexProfile
	NumCgoCall              = std.NumCgoCall
	ReadTrace               = std.ReadTrace
	SetBlockProfileRate     = std.SetBlockProfileRate
	SetCPUProfileRate       = std.SetCPUProfileRate
	SetCgoTraceback         = std.SetCgoTraceback
	SetDefaultGOMAXPROCS    = std.SetDefaultGOMAXPROCS
	SetMutexProfileFraction = std.SetMutexProfileFraction
	Stack                   = std.Stack
	StartTrace              = std.StartTrace
	StopTrace               = std.StopTrace
	ThreadCreateProfile     = std.ThreadCreateProfile
	UnlockOSThread          = std.UnlockOSThread
	Version                 = std.Version
	CallersFrames           = std.CallersFrames
	FuncForPC               = std.FuncForPC
)
