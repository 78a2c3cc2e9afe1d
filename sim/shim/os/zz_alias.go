// Code generated from the real package's exported names.

package os

import zz "os"

const (
	ModeAppend = zz.ModeAppend
	ModeCharDevice = zz.ModeCharDevice
	ModeDevice = zz.ModeDevice
	ModeExclusive = zz.ModeExclusive
	ModeIrregular = zz.ModeIrregular
	ModeNamedPipe = zz.ModeNamedPipe
	ModeSetgid = zz.ModeSetgid
	ModeSetuid = zz.ModeSetuid
	ModeSocket = zz.ModeSocket
	ModeSticky = zz.ModeSticky
	ModeSymlink = zz.ModeSymlink
	ModeTemporary = zz.ModeTemporary
	ModeType = zz.ModeType
	PathListSeparator = zz.PathListSeparator
)

var (
	ErrDeadlineExceeded = zz.ErrDeadlineExceeded
	ErrNoDeadline = zz.ErrNoDeadline
	ErrNoHandle = zz.ErrNoHandle
	ErrProcessDone = zz.ErrProcessDone
	Environ = zz.Environ
	Executable = zz.Executable
	Expand = zz.Expand
	ExpandEnv = zz.ExpandEnv
	Getegid = zz.Getegid
	Geteuid = zz.Geteuid
	Getgid = zz.Getgid
	Getgroups = zz.Getgroups
	Getpagesize = zz.Getpagesize
	Getppid = zz.Getppid
	Getuid = zz.Getuid
	IsPathSeparator = zz.IsPathSeparator
	IsTimeout = zz.IsTimeout
	NewSyscallError = zz.NewSyscallError
	UserCacheDir = zz.UserCacheDir
	UserConfigDir = zz.UserConfigDir
	UserHomeDir = zz.UserHomeDir
)
