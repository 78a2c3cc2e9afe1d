// Package os is the simulated file system seen by the repository's code.
package os

import (
	"io"
	realos "os"
	"path"
	"time"

	"verif.local/sim/rt"
)

var (
	Args   = realos.Args
	Stdin  = realos.Stdin
	Stdout = realos.Stdout
	Stderr = realos.Stderr
)

// SimArgs are the arguments of the calling simulated process.
func SimArgs() []string {
	if t := rt.Cur(); t != nil && t.Proc != nil {
		return t.Proc.Args
	}
	return Args
}

type File struct{ f *rt.File }

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	if err == io.EOF {
		return err
	}
	return &realos.PathError{Op: op, Path: p, Err: err}
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f, err := rt.OpenFile(name, flag)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{f}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.f.Closed() {
		return &realos.PathError{Op: op, Path: f.f.Name(), Err: ErrClosed}
	}
	return nil
}
func (f *File) Name() string { return f.f.Name() }
func (f *File) Fd() uintptr {
	if f == nil || f.f.Closed() {
		return ^uintptr(0)
	}
	return uintptr(f.f.Fd())
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	n, err := f.f.Read(b)
	return n, perr("read", f.Name(), err)
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	n, err := f.f.Write(b)
	return n, perr("write", f.Name(), err)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	n, err := f.f.ReadAt(b, off)
	return n, perr("read", f.Name(), err)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	n, err := f.f.WriteAt(b, off)
	return n, perr("write", f.Name(), err)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	n, err := f.f.Seek(off, whence)
	return n, perr("seek", f.Name(), err)
}
func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	return perr("sync", f.Name(), f.f.Sync())
}
func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	return perr("truncate", f.Name(), f.f.Truncate(n))
}
func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	return perr("close", f.Name(), f.f.Close())
}
func (f *File) Stat() (FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	return mkinfo(f.f.Inode()), nil
}
func (f *File) Chmod(FileMode) error { return nil }
func (f *File) Sim() *rt.File        { return f.f }

type info struct {
	i    *rt.Inode
	size int64
}

func mkinfo(i *rt.Inode) info { return info{i, i.Size()} }


type dirEntry struct{ info }

func (d dirEntry) Type() FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (FileInfo, error) { return d.info, nil }

func ReadDir(name string) ([]DirEntry, error) {
	ins, err := rt.ReadDir(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	var out []DirEntry
	for _, i := range ins {
		out = append(out, dirEntry{mkinfo(i)})
	}
	return out, nil
}
func RemoveAll(name string) error {
	if ins, err := rt.ReadDir(name); err == nil {
		for _, i := range ins {
			if err := RemoveAll(i.Path); err != nil {
				return err
			}
		}
	}
	if err := rt.Remove(name); err != nil && err != realos.ErrNotExist && !realos.IsNotExist(err) {
		return perr("unlinkat", name, err)
	}
	return nil
}

func (x info) Name() string       { return path.Base(x.i.Path) }
func (x info) Size() int64        { return x.size }
func (x info) IsDir() bool        { return x.i.Dir }
func (x info) ModTime() time.Time { return x.i.MTime }
func (x info) Sys() any           { return nil }
func (x info) Mode() FileMode {
	if x.i.Dir {
		return ModeDir | 0755
	}
	return FileMode(x.i.Mode)
}

func Stat(name string) (FileInfo, error) {
	i, err := rt.Stat(name)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return mkinfo(i), nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func Remove(name string) error            { return perr("remove", name, rt.Remove(name)) }
func Rename(a, b string) error {
	if err := rt.Rename(a, b); err != nil {
		return &realos.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(b)
	return err
}
func Mkdir(name string, perm FileMode) error    { rt.TheFS().MkdirAll(rt.Abs(name)); return nil }
func MkdirAll(name string, perm FileMode) error { rt.TheFS().MkdirAll(rt.Abs(name)); return nil }
func Getwd() (string, error)                    { return rt.Abs("."), nil }
func Exit(code int)                             { rt.Exit(code) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.i == y.i
}

type FileInfo = realos.FileInfo
type FileMode = realos.FileMode
type PathError = realos.PathError
type LinkError = realos.LinkError
type SyscallError = realos.SyscallError
type Signal = realos.Signal
type DirEntry = realos.DirEntry

const (
	O_RDONLY = realos.O_RDONLY
	O_WRONLY = realos.O_WRONLY
	O_RDWR   = realos.O_RDWR
	O_APPEND = realos.O_APPEND
	O_CREATE = realos.O_CREATE
	O_EXCL   = realos.O_EXCL
	O_SYNC   = realos.O_SYNC
	O_TRUNC  = realos.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModeDir  = realos.ModeDir
	ModePerm = realos.ModePerm
	DevNull  = realos.DevNull

	PathSeparator = realos.PathSeparator
)

var (
	ErrInvalid    = realos.ErrInvalid
	ErrPermission = realos.ErrPermission
	ErrExist      = realos.ErrExist
	ErrNotExist   = realos.ErrNotExist
	ErrClosed     = realos.ErrClosed
	Interrupt     = realos.Interrupt
	Kill          = realos.Kill

	IsExist      = realos.IsExist
	IsNotExist   = realos.IsNotExist
	IsPermission = realos.IsPermission
	Getenv       = realos.Getenv
	LookupEnv    = realos.LookupEnv
	Getpid       = func() int { return 4242 }
	Hostname     = func() (string, error) { return "sim", nil }
	TempDir      = func() string { return "/tmp" }
)
