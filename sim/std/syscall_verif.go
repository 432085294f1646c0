// Simulator support, compiled into package syscall by an overlay.

package syscall

// VerifFS serves every file system call on a path under VerifRoot and on the
// descriptors it handed out (numbers from VerifFdBase up).
type VerifFSHook interface {
	Openat(path string, flags int, mode uint32) (int, error)
	Renameat(oldpath, newpath string) error
	Linkat(oldpath, newpath string) error
	Mkdirat(path string, mode uint32) error
	Unlinkat(path string, flags int) error
	Fstatat(path string, stat *Stat_t, flags int) error
	Fchmodat(path string, mode uint32) error
	Faccessat(path string, mode uint32) error
	Close(fd int) error
	Fsync(fd int) error
	Ftruncate(fd int, length int64) error
	Fstat(fd int, stat *Stat_t) error
	Seek(fd int, offset int64, whence int) (int64, error)
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Getdents(fd int, p []byte) (int, error)
}

const (
	VerifRoot   = "/simfs"
	VerifFdBase = 1 << 20
)

var VerifFS VerifFSHook

// VerifStdio takes what is written to descriptors 1 and 2.
var VerifStdio func(fd int, p []byte) int

func verifPath(path string) bool {
	return VerifFS != nil && len(path) >= len(VerifRoot) && path[:len(VerifRoot)] == VerifRoot
}

func verifFd(fd int) bool { return VerifFS != nil && fd >= VerifFdBase }
