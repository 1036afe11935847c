// Package os is the simulated counterpart of the standard package, for the generators.
package os

import (
	"io/fs"
	"os"
	"time"

	"github.com/fredbi/go-typeset/zsim/gshim/gworld"
)

type (
	File         = gworld.File
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY          = gworld.RDONLY
	O_WRONLY          = gworld.WRONLY
	O_RDWR            = gworld.RDWR
	O_APPEND          = gworld.APPEND
	O_CREATE          = gworld.CREATE
	O_EXCL            = gworld.EXCL
	O_SYNC            = gworld.SYNC
	O_TRUNC           = gworld.TRUNC
	ModePerm          = fs.ModePerm
	ModeDir           = fs.ModeDir
	ModeSymlink       = fs.ModeSymlink
	ModeType          = fs.ModeType
	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	Args                = []string{"generator"}
	Stdin               = gworld.Std("stdin")
	Stdout              = gworld.Std("stdout")
	Stderr              = gworld.Std("stderr")
	ErrNotExist         = fs.ErrNotExist
	ErrExist            = fs.ErrExist
	ErrClosed           = fs.ErrClosed
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	Interrupt           = os.Interrupt
	Kill                = os.Kill
)

func Exit(code int)                        { gworld.Exit(code) }
func Open(name string) (*File, error)      { return gworld.OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error)    { return gworld.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func ReadFile(name string) ([]byte, error) { return gworld.ReadFile(name) }
func OpenFile(name string, flags int, mode FileMode) (*File, error) {
	return gworld.OpenFile(name, flags, mode)
}
func WriteFile(name string, data []byte, mode FileMode) error {
	return gworld.WriteFile(name, data, mode)
}
func ReadDir(name string) ([]DirEntry, error)       { return gworld.ReadDir(name) }
func Stat(name string) (FileInfo, error)            { return gworld.Stat(name) }
func Lstat(name string) (FileInfo, error)           { return gworld.Lstat(name) }
func Readlink(name string) (string, error)          { return gworld.Readlink(name) }
func Remove(name string) error                      { return gworld.Remove(name) }
func RemoveAll(name string) error                   { return gworld.RemoveAll(name) }
func Rename(from, to string) error                  { return gworld.Rename(from, to) }
func Mkdir(name string, _ FileMode) error           { return gworld.Mkdir(name, false) }
func MkdirAll(name string, _ FileMode) error        { return gworld.Mkdir(name, true) }
func MkdirTemp(dir, pattern string) (string, error) { return gworld.TempDir(dir, pattern) }
func CreateTemp(dir, pattern string) (*File, error) { return gworld.Temp(dir, pattern) }
func TempDir() string                               { return "/tmp" }
func Chmod(name string, _ FileMode) error           { _, err := gworld.Stat(name); return err }
func Chtimes(name string, _, m time.Time) error     { return gworld.Chtimes(name, m) }
func Truncate(name string, n int64) error {
	f, err := gworld.OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	if err := f.Truncate(n); err != nil {
		return err
	}
	return f.Close()
}
func DirFS(dir string) fs.FS          { return gworld.FS{Root: dir} }
func Getwd() (string, error)          { return "/", nil }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Getpid() int                     { return 42 }
func Hostname() (string, error)       { return "simulated", nil }
func IsNotExist(err error) bool       { return os.IsNotExist(err) }
func IsExist(err error) bool          { return os.IsExist(err) }
func IsPermission(err error) bool     { return os.IsPermission(err) }
func SameFile(a, b FileInfo) bool     { return a == b }

func IsTimeout(err error) bool                      { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return c == '/' }
func Environ() []string                             { return nil }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func Expand(s string, f func(string) string) string { return os.Expand(s, f) }
func Setenv(string, string) error                   { return nil }
func Unsetenv(string) error                         { return nil }
func Getuid() int                                   { return 1000 }
func Getgid() int                                   { return 1000 }
func Geteuid() int                                  { return 1000 }
func Getegid() int                                  { return 1000 }
func Getppid() int                                  { return 41 }
func Getpagesize() int                              { return 4096 }
func Executable() (string, error)                   { return "/generator", nil }
func UserHomeDir() (string, error)                  { return "/tmp", nil }
func UserCacheDir() (string, error)                 { return "/tmp", nil }
func UserConfigDir() (string, error)                { return "/tmp", nil }
func NewSyscallError(c string, err error) error     { return os.NewSyscallError(c, err) }
