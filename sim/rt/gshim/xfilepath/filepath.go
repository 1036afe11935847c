// Package filepath is the simulated counterpart of the standard package, for the generators.
package filepath

import (
	"io/fs"
	"path"
	"path/filepath"

	"github.com/fredbi/go-typeset/zsim/gshim/gworld"
)

type WalkFunc = filepath.WalkFunc

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
	ErrBadPattern = filepath.ErrBadPattern
)

func Base(p string) string                     { return filepath.Base(p) }
func Dir(p string) string                      { return filepath.Dir(p) }
func Ext(p string) string                      { return filepath.Ext(p) }
func Clean(p string) string                    { return filepath.Clean(p) }
func Join(p ...string) string                  { return filepath.Join(p...) }
func Split(p string) (string, string)          { return filepath.Split(p) }
func Rel(a, b string) (string, error)          { return filepath.Rel(a, b) }
func Abs(p string) (string, error)             { return path.Join("/", p), nil }
func IsAbs(p string) bool                      { return filepath.IsAbs(p) }
func Match(pattern, name string) (bool, error) { return filepath.Match(pattern, name) }
func ToSlash(p string) string                  { return p }
func FromSlash(p string) string                { return p }
func VolumeName(string) string                 { return "" }
func EvalSymlinks(p string) (string, error)    { return gworld.EvalSymlinks(p) }

// Glob lists matching files; like the original, it ignores errors of the disk.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, last := filepath.Split(pattern)
	l, _ := gworld.ReadDir(path.Join(".", dir))
	var out []string
	for _, e := range l {
		if ok, _ := filepath.Match(last, e.Name()); ok {
			out = append(out, dir+e.Name())
		}
	}
	return out, nil
}

// WalkDir walks a tree.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := gworld.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := gworld.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk walks a tree.
func Walk(root string, fn WalkFunc) error {
	i, err := gworld.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, i fs.FileInfo, fn WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	l, err := gworld.ReadDir(p)
	err1 := fn(p, i, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range l {
		ei, _ := e.Info()
		if err := walk(filepath.Join(p, e.Name()), ei, fn); err != nil {
			if !ei.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}
