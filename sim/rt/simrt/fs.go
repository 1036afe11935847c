package simrt

import (
	"embed"
	"io/fs"
)

// EmbedFS stands for embed.FS: the simulator may take over the storage.
type EmbedFS struct {
	Name string
	Real embed.FS
}

// Storage is what EmbedFS needs.
type Storage interface {
	fs.ReadDirFS
	fs.ReadFileFS
}

// Disk replaces the embedded files when it is not nil. It is set before a run starts.
var Disk Storage

// WrapEmbed is called by generated code.
func WrapEmbed(name string, real embed.FS) EmbedFS {
	e := EmbedFS{Name: name, Real: real}
	Embedded = append(Embedded, e)
	return e
}

// Embedded lists the embedded file systems of the tree under test.
var Embedded []EmbedFS

// Open a file.
func (e EmbedFS) Open(name string) (fs.File, error) {
	if Disk != nil {
		return Disk.Open(name)
	}
	return e.Real.Open(name)
}

// ReadDir lists a directory.
func (e EmbedFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if Disk != nil {
		return Disk.ReadDir(name)
	}
	return e.Real.ReadDir(name)
}

// ReadFile reads a file.
func (e EmbedFS) ReadFile(name string) ([]byte, error) {
	if Disk != nil {
		return Disk.ReadFile(name)
	}
	return e.Real.ReadFile(name)
}
