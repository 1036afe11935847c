package simrt

import (
	"io"
	"io/fs"
	"os"
	"syscall"
)

// faultErrors are what real sinks, disks and networks fail with.
var faultErrors = []error{
	nil, // the plain simulated error
	io.ErrShortWrite,
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrNoProgress,
	syscall.EINTR,
	syscall.EAGAIN,
	syscall.EPIPE,
	syscall.ENOSPC,
	syscall.EIO,
	os.ErrDeadlineExceeded,
	fs.ErrPermission,
	fs.ErrNotExist,
	fs.ErrClosed,
	&fs.PathError{Op: "i/o", Path: "device", Err: syscall.ENXIO},
	syscall.ECONNRESET,
}

// ErrKinds is the number of kinds of errors.
const ErrKinds = 16

// ErrOf is the error of some kind.
//
//go:norace
func ErrOf(kind int, plain error) error {
	if kind <= 0 || kind >= len(faultErrors) {
		return plain
	}
	return faultErrors[kind]
}
