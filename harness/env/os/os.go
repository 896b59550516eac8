// Package os models the operating system calls of the code under test.
package os

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/steve-care-software/rodkina/verifh/env/core"
)

// aliases and constants of the modelled package
type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

// flags
const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator = '/'
)

// errors of the modelled package
var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrClosed     = fs.ErrClosed
	ErrPermission = fs.ErrPermission
	ErrInvalid    = fs.ErrInvalid

	errIsDir    = errors.New("is a directory")
	errNotDir   = errors.New("not a directory")
	errNotEmpty = errors.New("directory not empty")
	errBadMode  = errors.New("bad file descriptor")
)

// LinkError of Rename
type LinkError struct {
	Op  string
	Old string
	New string
	Err error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }

// Unwrap returns the cause
func (e *LinkError) Unwrap() error { return e.Err }

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

// File is an open file
type File struct {
	ino    *core.Inode
	name   string
	pos    int64
	flag   int
	closed bool
}

type info struct {
	name string
	size int64
	dir  bool
	ino  *core.Inode
}

// SameFile as in the modelled package
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.ino == y.ino
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) ModTime() time.Time { return time.Unix(0, 0) }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return nil }
func (i *info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}

func find(path string) (*core.Inode, string) {
	core.Ensure()
	p := filepath.Clean(path)
	return core.Files[p], p
}

func parentOK(p string) error {
	d := filepath.Dir(p)
	ino, ok := core.Files[d]
	if !ok {
		return ErrNotExist
	}
	if !ino.Dir {
		return errNotDir
	}
	return nil
}

// IsNotExist as in the modelled package
func IsNotExist(err error) bool { return errors.Is(err, ErrNotExist) }

// IsExist as in the modelled package
func IsExist(err error) bool { return errors.Is(err, ErrExist) }

// Stat as in the modelled package
func Stat(name string) (FileInfo, error) {
	if core.Step("stat", name, false) {
		return nil, perr("stat", name, core.ErrFault)
	}
	ino, p := find(name)
	if ino == nil {
		return nil, perr("stat", name, ErrNotExist)
	}
	return &info{filepath.Base(p), int64(len(ino.Data)), ino.Dir, ino}, nil
}

// Lstat as in the modelled package
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// Mkdir as in the modelled package
func Mkdir(name string, perm FileMode) error {
	if core.Step("mkdir", name, true) {
		return perr("mkdir", name, core.ErrFault)
	}
	ino, p := find(name)
	if ino != nil {
		return perr("mkdir", name, ErrExist)
	}
	if err := parentOK(p); err != nil {
		return perr("mkdir", name, err)
	}
	core.Files[p] = &core.Inode{Dir: true}
	return nil
}

// MkdirAll as in the modelled package
func MkdirAll(path string, perm FileMode) error {
	if core.Step("mkdir", path, true) {
		return perr("mkdir", path, core.ErrFault)
	}
	_, p := find(path)
	parts := strings.Split(p, "/")
	cur := ""
	for i, s := range parts {
		if i == 0 {
			cur = s
			if s == "" {
				cur = "/"
				continue
			}
		} else {
			cur = filepath.Join(cur, s)
		}
		ino, ok := core.Files[cur]
		if ok && !ino.Dir {
			return perr("mkdir", cur, errNotDir)
		}
		if !ok {
			core.Files[cur] = &core.Inode{Dir: true}
		}
	}
	return nil
}

// Create as in the modelled package
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// Open as in the modelled package
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// OpenFile as in the modelled package
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	mutates := flag&(O_CREATE|O_TRUNC) != 0
	if core.Step("open", name, mutates) {
		return nil, perr("open", name, core.ErrFault)
	}
	ino, p := find(name)
	if ino == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		if err := parentOK(p); err != nil {
			return nil, perr("open", name, err)
		}
		ino = &core.Inode{}
		core.Files[p] = ino
	} else {
		if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
			return nil, perr("open", name, ErrExist)
		}
		if ino.Dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", name, errIsDir)
		}
		if flag&O_TRUNC != 0 {
			ino.Data = nil
		}
	}
	core.Open++
	return &File{ino: ino, name: name, flag: flag}, nil
}

// CreateTemp as in the modelled package
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(unused(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

// unused is a name that is not used
func unused(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	for i := 0; ; i++ {
		name := filepath.Join(dir, prefix+strconv.Itoa(704418+i)+suffix)
		if ino, _ := find(name); ino == nil {
			return name
		}
	}
}

// MkdirTemp as in the modelled package
func MkdirTemp(dir, pattern string) (string, error) {
	name := unused(dir, pattern)
	return name, Mkdir(name, 0700)
}

// TempDir as in the modelled package
func TempDir() string { return "/" }

// Getwd as in the modelled package
func Getwd() (string, error) { return "/", nil }

// Link as in the modelled package
func Link(oldname, newname string) error {
	if core.Step("link", oldname, true) {
		return &LinkError{"link", oldname, newname, core.ErrFault}
	}
	ino, _ := find(oldname)
	if ino == nil {
		return &LinkError{"link", oldname, newname, ErrNotExist}
	}
	dst, q := find(newname)
	if dst != nil || ino.Dir {
		return &LinkError{"link", oldname, newname, ErrExist}
	}
	if err := parentOK(q); err != nil {
		return &LinkError{"link", oldname, newname, err}
	}
	core.Files[q] = ino
	return nil
}

// Chmod as in the modelled package
func Chmod(name string, mode FileMode) error {
	if core.Step("chmod", name, true) {
		return perr("chmod", name, core.ErrFault)
	}
	if ino, _ := find(name); ino == nil {
		return perr("chmod", name, ErrNotExist)
	}
	return nil
}

// Chtimes as in the modelled package
func Chtimes(name string, atime, mtime time.Time) error { return Chmod(name, 0) }

// IsPermission as in the modelled package
func IsPermission(err error) bool { return errors.Is(err, ErrPermission) }

// Remove as in the modelled package
func Remove(name string) error {
	if core.Step("remove", name, true) {
		return perr("remove", name, core.ErrFault)
	}
	ino, p := find(name)
	if ino == nil {
		return perr("remove", name, ErrNotExist)
	}
	if ino.Dir {
		for k := range core.Files {
			if strings.HasPrefix(k, p+"/") {
				return perr("remove", name, errNotEmpty)
			}
		}
	}
	delete(core.Files, p)
	return nil
}

// RemoveAll as in the modelled package
func RemoveAll(path string) error {
	if core.Step("remove", path, true) {
		return perr("remove", path, core.ErrFault)
	}
	_, p := find(path)
	var names []string
	for k := range core.Files {
		if k == p || strings.HasPrefix(k, p+"/") {
			names = append(names, k)
		}
	}
	for _, k := range names {
		delete(core.Files, k)
	}
	return nil
}

// Rename as in the modelled package: atomic replacement
func Rename(oldpath, newpath string) error {
	if core.Step("rename", oldpath, true) {
		return &LinkError{"rename", oldpath, newpath, core.ErrFault}
	}
	ino, p := find(oldpath)
	if ino == nil {
		return &LinkError{"rename", oldpath, newpath, ErrNotExist}
	}
	dst, q := find(newpath)
	if dst != nil && dst.Dir {
		return &LinkError{"rename", oldpath, newpath, ErrExist}
	}
	if err := parentOK(q); err != nil {
		return &LinkError{"rename", oldpath, newpath, err}
	}
	delete(core.Files, p)
	core.Files[q] = ino
	return nil
}

// Truncate as in the modelled package
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

// ReadFile as in the modelled package
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if core.Step("read", name, false) {
		return nil, perr("read", name, core.ErrFault)
	}
	return append([]byte{}, f.ino.Data...), nil
}

// WriteFile as in the modelled package
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type entry struct{ info }

func (e *entry) Type() fs.FileMode          { return e.Mode() & fs.ModeDir }
func (e *entry) Info() (fs.FileInfo, error) { return &e.info, nil }

// ReadDir as in the modelled package
func ReadDir(name string) ([]DirEntry, error) {
	ino, p := find(name)
	if ino == nil {
		return nil, perr("open", name, ErrNotExist)
	}
	var names []string
	for k := range core.Files {
		if k != p && filepath.Dir(k) == p {
			names = append(names, k)
		}
	}
	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })
	var out []DirEntry
	for _, k := range names {
		f := core.Files[k]
		out = append(out, &entry{info{filepath.Base(k), int64(len(f.Data)), f.Dir, f}})
	}
	return out, nil
}

// Getpid as in the modelled package
func Getpid() int { return 4242 }

// Getenv as in the modelled package
func Getenv(string) string { return "" }

// LookupEnv as in the modelled package
func LookupEnv(string) (string, bool) { return "", false }

// ReadDir as in the modelled package
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.ok("readdir"); err != nil {
		return nil, err
	}
	list, err := ReadDir(f.name)
	if n > 0 && len(list) > n {
		list = list[:n]
	}
	return list, err
}

// Readdir as in the modelled package
func (f *File) Readdir(n int) ([]FileInfo, error) {
	list, err := f.ReadDir(n)
	out := []FileInfo{}
	for _, one := range list {
		i, _ := one.Info()
		out = append(out, i)
	}
	return out, err
}

// Readdirnames as in the modelled package
func (f *File) Readdirnames(n int) ([]string, error) {
	list, err := f.ReadDir(n)
	out := []string{}
	for _, one := range list {
		out = append(out, one.Name())
	}
	return out, err
}

// Name as in the modelled package
func (f *File) Name() string { return f.name }

// Fd as in the modelled package
func (f *File) Fd() uintptr { return 3 }

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

// Close as in the modelled package
func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	fail := core.Step("close", f.name, false)
	f.closed = true
	core.Open--
	if fail {
		return perr("close", f.name, core.ErrFault)
	}
	return nil
}

// Stat as in the modelled package
func (f *File) Stat() (FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	if core.Step("stat", f.name, false) {
		return nil, perr("stat", f.name, core.ErrFault)
	}
	return &info{filepath.Base(f.name), int64(len(f.ino.Data)), f.ino.Dir, f.ino}, nil
}

// Sync as in the modelled package
func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	if core.Step("sync", f.name, false) {
		return perr("sync", f.name, core.ErrFault)
	}
	return nil
}

// Chmod as in the modelled package
func (f *File) Chmod(mode FileMode) error { return f.ok("chmod") }

// Seek as in the modelled package
func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	if core.Step("seek", f.name, false) {
		return 0, perr("seek", f.name, core.ErrFault)
	}
	switch whence {
	case 1:
		offset += f.pos
	case 2:
		offset += int64(len(f.ino.Data))
	}
	if offset < 0 {
		return 0, perr("seek", f.name, ErrInvalid)
	}
	f.pos = offset
	return offset, nil
}

// Truncate as in the modelled package
func (f *File) Truncate(size int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	if core.Step("truncate", f.name, true) {
		return perr("truncate", f.name, core.ErrFault)
	}
	for int64(len(f.ino.Data)) < size {
		f.ino.Data = append(f.ino.Data, 0)
	}
	f.ino.Data = f.ino.Data[:size:size]
	return nil
}

// Read as in the modelled package
func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if core.Step("read", f.name, false) {
		return 0, perr("read", f.name, core.ErrFault)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, errBadMode)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

// ReadAt as in the modelled package
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	if core.Step("read", f.name, false) {
		return 0, perr("read", f.name, core.ErrFault)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, errBadMode)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte, off int64) {
	for int64(len(f.ino.Data)) < off {
		f.ino.Data = append(f.ino.Data, 0)
	}
	n := copy(f.ino.Data[off:], b)
	f.ino.Data = append(f.ino.Data, b[n:]...)
}

func partial(b []byte) []byte {
	switch core.Partial {
	case 1:
		return b[:len(b)/2]
	case 2:
		if len(b) > 0 {
			return b[:len(b)-1]
		}
	case 3:
		return b
	}
	return b[:0]
}

func (f *File) writeAt(b []byte, off int64) (n int, err error) {
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, errBadMode)
	}
	if core.CrashOn && core.Armed && !core.CrashHit {
		// a crash may happen in the middle of a write
		defer func() {
			if core.CrashHit {
				f.put(partial(b), off)
			}
		}()
	}
	if core.Step("write", f.name, true) {
		p := partial(b)
		f.put(p, off)
		return len(p), perr("write", f.name, core.ErrFault)
	}
	f.put(b, off)
	return len(b), nil
}

// Write as in the modelled package
func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	off := f.pos
	if f.flag&O_APPEND != 0 {
		off = int64(len(f.ino.Data))
	}
	n, err := f.writeAt(b, off)
	f.pos = off + int64(n)
	return n, err
}

// WriteString as in the modelled package
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt as in the modelled package
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	return f.writeAt(b, off)
}
