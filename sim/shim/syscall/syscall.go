package syscall

import (
	realsys "syscall"

	"verif.local/sim/rt"
)

func Flock(fd int, how int) error {
	if f := rt.ByFd(fd); f != nil {
		return f.Flock(how)
	}
	return realsys.EBADF
}

func Fdatasync(fd int) error { return Fsync(fd) }

func Fsync(fd int) error {
	if f := rt.ByFd(fd); f != nil {
		return f.Sync()
	}
	return realsys.EBADF
}

func Fallocate(fd int, mode uint32, off int64, n int64) error {
	if f := rt.ByFd(fd); f != nil {
		return f.Fallocate(mode, off, n)
	}
	return realsys.EBADF
}

func Ftruncate(fd int, n int64) error {
	if f := rt.ByFd(fd); f != nil {
		return f.Truncate(n)
	}
	return realsys.EBADF
}

func Pread(fd int, p []byte, off int64) (int, error) {
	if f := rt.ByFd(fd); f != nil {
		return f.ReadAt(p, off)
	}
	return 0, realsys.EBADF
}

func Pwrite(fd int, p []byte, off int64) (int, error) {
	if f := rt.ByFd(fd); f != nil {
		return f.WriteAt(p, off)
	}
	return 0, realsys.EBADF
}

func Close(fd int) error {
	if f := rt.ByFd(fd); f != nil {
		return f.Close()
	}
	return realsys.EBADF
}
