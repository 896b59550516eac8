// Package filepath is path/filepath on the modelled file system.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"sort"

	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/env/os"
)

// as in the modelled package
const (
	Separator     = real.Separator
	ListSeparator = real.ListSeparator
)

// WalkFunc as in the modelled package
type WalkFunc = real.WalkFunc

// as in the modelled package
var (
	ErrBadPattern = real.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

// functions without effects
func Join(elem ...string) string                         { return real.Join(elem...) }
func Clean(path string) string                           { return real.Clean(path) }
func Base(path string) string                            { return real.Base(path) }
func Dir(path string) string                             { return real.Dir(path) }
func Ext(path string) string                             { return real.Ext(path) }
func Split(path string) (string, string)                 { return real.Split(path) }
func SplitList(path string) []string                     { return real.SplitList(path) }
func IsAbs(path string) bool                             { return real.IsAbs(path) }
func IsLocal(path string) bool                           { return real.IsLocal(path) }
func Rel(base, target string) (string, error)            { return real.Rel(base, target) }
func Match(pattern, name string) (matched bool, e error) { return real.Match(pattern, name) }
func ToSlash(path string) string                         { return path }
func FromSlash(path string) string                       { return path }
func VolumeName(path string) string                      { return "" }

// Abs as in the modelled package
func Abs(path string) (string, error) {
	if real.IsAbs(path) {
		return real.Clean(path), nil
	}
	return real.Join("/", path), nil
}

// EvalSymlinks as in the modelled package
func EvalSymlinks(path string) (string, error) {
	if _, err := os.Stat(path); err != nil {
		return "", err
	}
	return real.Clean(path), nil
}

// Glob as in the modelled package
func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	core.Ensure()
	var out []string
	pattern = real.Clean(pattern)
	for name := range core.Files {
		if ok, _ := real.Match(pattern, name); ok {
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return out, nil
}

// WalkDir as in the modelled package
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(path string, info fs.FileInfo, err error) error {
		if info == nil {
			return fn(path, nil, err)
		}
		return fn(path, fs.FileInfoToDirEntry(info), err)
	})
}

// Walk as in the modelled package
func Walk(root string, fn WalkFunc) error {
	info, err := os.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn WalkFunc) error {
	if err := fn(path, info, nil); err != nil {
		if info.IsDir() && err == SkipDir {
			return nil
		}
		return err
	}
	if !info.IsDir() {
		return nil
	}
	var names []string
	for name := range core.Files {
		if name != real.Clean(path) && real.Dir(name) == real.Clean(path) {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for _, name := range names {
		info, err := os.Stat(name)
		if err != nil {
			if err := fn(name, nil, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(name, info, fn); err != nil {
			if err == SkipDir && !info.IsDir() {
				return nil
			}
			return err
		}
	}
	return nil
}
