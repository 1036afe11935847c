// Code generated from the names of the standard package; DO NOT EDIT.

package os

import std "os"

type (
	DirEntry     = std.DirEntry
	File         = std.File
	FileInfo     = std.FileInfo
	FileMode     = std.FileMode
	LinkError    = std.LinkError
	PathError    = std.PathError
	ProcAttr     = std.ProcAttr
	Process      = std.Process
	ProcessState = std.ProcessState
	Root         = std.Root
	Signal       = std.Signal
	SyscallError = std.SyscallError
)

const (
	DevNull           = std.DevNull
	ModeAppend        = std.ModeAppend
	ModeCharDevice    = std.ModeCharDevice
	ModeDevice        = std.ModeDevice
	ModeDir           = std.ModeDir
	ModeExclusive     = std.ModeExclusive
	ModeIrregular     = std.ModeIrregular
	ModeNamedPipe     = std.ModeNamedPipe
	ModePerm          = std.ModePerm
	ModeSetgid        = std.ModeSetgid
	ModeSetuid        = std.ModeSetuid
	ModeSocket        = std.ModeSocket
	ModeSticky        = std.ModeSticky
	ModeSymlink       = std.ModeSymlink
	ModeTemporary     = std.ModeTemporary
	ModeType          = std.ModeType
	O_APPEND          = std.O_APPEND
	O_CREATE          = std.O_CREATE
	O_EXCL            = std.O_EXCL
	O_RDONLY          = std.O_RDONLY
	O_RDWR            = std.O_RDWR
	O_SYNC            = std.O_SYNC
	O_TRUNC           = std.O_TRUNC
	O_WRONLY          = std.O_WRONLY
	PathListSeparator = std.PathListSeparator
	PathSeparator     = std.PathSeparator
	SEEK_CUR          = std.SEEK_CUR
	SEEK_END          = std.SEEK_END
	SEEK_SET          = std.SEEK_SET
)

var (
	Args                = std.Args
	ErrClosed           = std.ErrClosed
	ErrDeadlineExceeded = std.ErrDeadlineExceeded
	ErrExist            = std.ErrExist
	ErrInvalid          = std.ErrInvalid
	ErrNoDeadline       = std.ErrNoDeadline
	ErrNoHandle         = std.ErrNoHandle
	ErrNotExist         = std.ErrNotExist
	ErrPermission       = std.ErrPermission
	ErrProcessDone      = std.ErrProcessDone
	Interrupt           = std.Interrupt
	Kill                = std.Kill
	Stderr              = std.Stderr
	Stdin               = std.Stdin
	Stdout              = std.Stdout
	Chdir               = std.Chdir
	Chmod               = std.Chmod
	Chown               = std.Chown
	Chtimes             = std.Chtimes
	CopyFS              = std.CopyFS
	DirFS               = std.DirFS
	Executable          = std.Executable
	Exit                = std.Exit
	Expand              = std.Expand
	Getegid             = std.Getegid
	Geteuid             = std.Geteuid
	Getgid              = std.Getgid
	Getgroups           = std.Getgroups
	Getpagesize         = std.Getpagesize
	Getuid              = std.Getuid
	Getwd               = std.Getwd
	IsExist             = std.IsExist
	IsNotExist          = std.IsNotExist
	IsPathSeparator     = std.IsPathSeparator
	IsPermission        = std.IsPermission
	IsTimeout           = std.IsTimeout
	Lchown              = std.Lchown
	Link                = std.Link
	Mkdir               = std.Mkdir
	MkdirAll            = std.MkdirAll
	MkdirTemp           = std.MkdirTemp
	NewSyscallError     = std.NewSyscallError
	Pipe                = std.Pipe
	ReadFile            = std.ReadFile
	Readlink            = std.Readlink
	Remove              = std.Remove
	RemoveAll           = std.RemoveAll
	Rename              = std.Rename
	SameFile            = std.SameFile
	Symlink             = std.Symlink
	TempDir             = std.TempDir
	Truncate            = std.Truncate
	UserCacheDir        = std.UserCacheDir
	UserConfigDir       = std.UserConfigDir
	UserHomeDir         = std.UserHomeDir
	WriteFile           = std.WriteFile
	ReadDir             = std.ReadDir
	Create              = std.Create
	CreateTemp          = std.CreateTemp
	NewFile             = std.NewFile
	Open                = std.Open
	OpenFile            = std.OpenFile
	OpenInRoot          = std.OpenInRoot
	Lstat               = std.Lstat
	Stat                = std.Stat
	FindProcess         = std.FindProcess
	StartProcess        = std.StartProcess
	OpenRoot            = std.OpenRoot
)
