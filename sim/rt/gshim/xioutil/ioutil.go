// Package ioutil is the simulated counterpart of the standard package, for the generators.
package ioutil

import (
	"io"
	"io/fs"

	"github.com/fredbi/go-typeset/zsim/gshim/gworld"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return gworld.ReadFile(name) }
func WriteFile(name string, data []byte, mode fs.FileMode) error {
	return gworld.WriteFile(name, data, mode)
}
func TempFile(dir, pattern string) (*gworld.File, error) { return gworld.Temp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)        { return gworld.TempDir(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := gworld.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}
