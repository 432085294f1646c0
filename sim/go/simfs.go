package main

import (
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// SimFS is the simulated disk behind every file system call on /simfs. It
// separates what a process sees (page cache) from what survives power loss
// (what was synced: file content by fsync of the file, names by fsync of the
// directory).
type SimFS struct {
	w       *World
	root    *inode
	fds     map[int]*ofile
	nextFd  int
	nextIno uint64
	rng     *Rng
	dataDir string // objects live under here; observers are told about them
	LatUs   int
	full    bool
	onOp    func(node uint32, op, path string) // extra observer
	onTorn  func(node uint32, key string, size int)
}

type inode struct {
	ino   uint64
	dir   bool
	data  []byte
	dur   []byte // content as of the last fsync
	dirty bool
	ents  map[string]*inode
	durE  map[string]*inode
	pend  []dirop
	path  string
	mtime time.Time
}

type dirop struct {
	name  string
	n     *inode // nil: removed
	name2 string // rename within one directory: removed at the same time
}

type ofile struct {
	n      *inode
	pos    int64
	flags  int
	node   uint32
	listed bool
}

func NewSimFS(w *World, seed uint64) *SimFS {
	fs := &SimFS{w: w, fds: map[int]*ofile{}, nextFd: syscall.VerifFdBase, rng: NewRng(seed), dataDir: syscall.VerifRoot + "/data"}
	fs.root = fs.mk(true, syscall.VerifRoot)
	syscall.VerifFS = fs
	return fs
}

func (fs *SimFS) mk(dir bool, path string) *inode {
	fs.nextIno++
	n := &inode{ino: fs.nextIno, dir: dir, path: path, mtime: time.Now()}
	if dir {
		n.ents, n.durE = map[string]*inode{}, map[string]*inode{}
	}
	return n
}

func clean(p string) []string {
	var out []string
	for _, s := range strings.Split(strings.TrimPrefix(p, syscall.VerifRoot), "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return out
}

func join(parts []string) string {
	if len(parts) == 0 {
		return syscall.VerifRoot
	}
	return syscall.VerifRoot + "/" + strings.Join(parts, "/")
}

func (fs *SimFS) walk(parts []string) (*inode, error) {
	n := fs.root
	for _, s := range parts {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		n = n.ents[s]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, nil
}

func (fs *SimFS) parent(p string) (*inode, string, error) {
	parts := clean(p)
	if len(parts) == 0 {
		return nil, "", syscall.EEXIST
	}
	d, err := fs.walk(parts[:len(parts)-1])
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, parts[len(parts)-1], nil
}

func (fs *SimFS) link(d *inode, name string, n *inode, name2 string) {
	if n == nil {
		delete(d.ents, name)
	} else {
		d.ents[name] = n
	}
	if name2 != "" {
		delete(d.ents, name2)
	}
	d.pend = append(d.pend, dirop{name, n, name2})
}

// key is the object name of a path, or "".
func (fs *SimFS) key(path string) string {
	if strings.HasPrefix(path, fs.dataDir+"/") {
		return path[len(fs.dataDir)+1:]
	}
	return ""
}

func (fs *SimFS) fclass(path string) string {
	k := fs.key(path)
	if k == "" {
		return "etc"
	}
	i := strings.LastIndexByte(k, '/') + 1
	if rest, ok := strings.CutPrefix(k[i:], "."); ok { // a temporary file for an object
		k = k[:i] + rest
		if j := strings.Index(rest, ".tmp-"); j >= 0 {
			k = k[:i+j]
		}
	}
	switch {
	case strings.HasPrefix(k, "ct/v1/get-sth"):
		return "sth"
	case strings.HasPrefix(k, "checkpoint"):
		return "checkpoint"
	case strings.HasPrefix(k, "ct/v1/get-roots"):
		return "roots"
	}
	return classOf(k)
}

// op is called before every operation; it may not return.
func (fs *SimFS) op(op, path string) (*Fault, error) {
	node := runtime.VerifNode()
	if node == 0 {
		return nil, nil
	}
	runtime.VerifGate()
	if fs.onOp != nil {
		fs.onOp(node, op, path)
	}
	if fs.LatUs > 0 && fs.rng.Intn(4) == 0 {
		time.Sleep(time.Duration(fs.rng.Intn(fs.LatUs)) * time.Microsecond)
		runtime.VerifGate()
	}
	f := fs.w.matchOp(op, fs.fclass(path), path, node)
	if f == nil {
		if fs.full && (op == "fs-write") {
			fs.w.fault("fs:disk-full")
			return nil, syscall.ENOSPC
		}
		return nil, nil
	}
	switch f.Act {
	case "err":
		e := syscall.EIO
		if f.Status != 0 {
			e = syscall.Errno(f.Status)
		}
		return f, e
	case "enospc":
		if op != "fs-write" { // a write is cut short
			return f, syscall.ENOSPC
		}
	case "crash":
		fs.w.crash(node, "fault at "+op)
		runtime.VerifParkForever()
	case "power":
		fs.w.powerLoss()
		runtime.VerifParkForever()
	case "stall":
		time.Sleep(time.Duration(f.Dur) * time.Millisecond)
	case "pause":
		fs.w.pause(node, time.Duration(f.Dur)*time.Millisecond)
		runtime.VerifGate()
	case "sigint":
		fs.w.sigint(node)
	}
	return f, nil
}

func (fs *SimFS) after(f *Fault) {
	if f == nil {
		return
	}
	node := runtime.VerifNode()
	switch f.Act {
	case "crash-after", "crash-mid":
		fs.w.crash(node, "fault")
		runtime.VerifParkForever()
	case "power-after", "power-mid":
		fs.w.powerLoss()
		runtime.VerifParkForever()
	}
}

// visible reports what a reader now sees at a path. An object may only change
// by a rename or link of a complete file.
func (fs *SimFS) visible(n *inode, path string, old []byte, had, whole bool) {
	if k := fs.key(path); k != "" {
		if !whole && fs.onTorn != nil && objectKey(k) {
			fs.onTorn(runtime.VerifNode(), k, len(n.data))
		}
		fs.w.onStoreWrite(runtime.VerifNode(), k, old, had, append([]byte(nil), n.data...))
	}
}

func (fs *SimFS) Openat(path string, flags int, mode uint32) (int, error) {
	wr := flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	op := "fs-open"
	if wr {
		op = "fs-openw"
	}
	f, err := fs.op(op, path)
	if err != nil {
		return -1, err
	}
	parts := clean(path)
	n, err := fs.walk(parts)
	if err == syscall.ENOENT && flags&syscall.O_CREAT != 0 {
		d, name, err := fs.parent(path)
		if err != nil {
			return -1, err
		}
		n = fs.mk(false, join(parts))
		fs.link(d, name, n, "")
		fs.visible(n, n.path, nil, false, false)
	} else if err != nil {
		return -1, err
	} else if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return -1, syscall.EEXIST
	}
	if n.dir && flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		return -1, syscall.EISDIR
	}
	if !n.dir && flags&syscall.O_DIRECTORY != 0 {
		return -1, syscall.ENOTDIR
	}
	if flags&syscall.O_TRUNC != 0 && !n.dir && len(n.data) > 0 {
		old := n.data
		n.data = nil
		n.dirty = true
		fs.visible(n, n.path, old, true, false)
	}
	fs.nextFd++
	fs.fds[fs.nextFd] = &ofile{n: n, flags: flags, node: runtime.VerifNode()}
	fd := fs.nextFd
	fs.after(f)
	return fd, nil
}

func (fs *SimFS) Renameat(oldpath, newpath string) error {
	f, err := fs.op("fs-rename", newpath)
	if err != nil {
		return err
	}
	od, on, err := fs.parent(oldpath)
	if err != nil {
		return err
	}
	n := od.ents[on]
	if n == nil {
		return syscall.ENOENT
	}
	nd, nn, err := fs.parent(newpath)
	if err != nil {
		return err
	}
	ex := nd.ents[nn]
	if ex != nil && ex.dir {
		return syscall.EISDIR
	}
	if od == nd {
		if on != nn {
			fs.link(nd, nn, n, on)
		}
	} else {
		fs.link(nd, nn, n, "")
		fs.link(od, on, nil, "")
	}
	n.path = join(clean(newpath))
	var old []byte
	if ex != nil {
		old = ex.data
	}
	fs.visible(n, n.path, old, ex != nil, true)
	fs.after(f)
	return nil
}

func (fs *SimFS) Linkat(oldpath, newpath string) error {
	f, err := fs.op("fs-link", newpath)
	if err != nil {
		return err
	}
	n, err := fs.walk(clean(oldpath))
	if err != nil {
		return err
	}
	d, name, err := fs.parent(newpath)
	if err != nil {
		return err
	}
	if d.ents[name] != nil {
		return syscall.EEXIST
	}
	fs.link(d, name, n, "")
	fs.visible(n, join(clean(newpath)), nil, false, true)
	fs.after(f)
	return nil
}

func (fs *SimFS) Mkdirat(path string, mode uint32) error {
	f, err := fs.op("fs-mkdir", path)
	if err != nil {
		return err
	}
	d, name, err := fs.parent(path)
	if err != nil {
		return err
	}
	if d.ents[name] != nil {
		return syscall.EEXIST
	}
	fs.link(d, name, fs.mk(true, join(clean(path))), "")
	fs.after(f)
	return nil
}

func (fs *SimFS) Unlinkat(path string, flags int) error {
	f, err := fs.op("fs-unlink", path)
	if err != nil {
		return err
	}
	d, name, err := fs.parent(path)
	if err != nil {
		return err
	}
	n := d.ents[name]
	if n == nil {
		return syscall.ENOENT
	}
	const atRemoveDir = 0x200
	if n.dir != (flags&atRemoveDir != 0) {
		if n.dir {
			return syscall.EISDIR
		}
		return syscall.ENOTDIR
	}
	if n.dir && len(n.ents) > 0 {
		return syscall.ENOTEMPTY
	}
	fs.link(d, name, nil, "")
	if !n.dir {
		if k := fs.key(n.path); k != "" {
			fs.w.onStoreDelete(runtime.VerifNode(), k)
		}
	}
	fs.after(f)
	return nil
}

func (fs *SimFS) fill(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: n.ino, Nlink: 1, Size: int64(len(n.data)), Blksize: 4096, Mode: syscall.S_IFREG | 0644}
	if n.dir {
		st.Mode = syscall.S_IFDIR | 0755
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime.UnixNano())
}

func (fs *SimFS) Fstatat(path string, st *syscall.Stat_t, flags int) error {
	f, err := fs.op("fs-stat", path)
	if err != nil {
		return err
	}
	n, err := fs.walk(clean(path))
	if err != nil {
		return err
	}
	fs.fill(n, st)
	fs.after(f)
	return nil
}

func (fs *SimFS) Fchmodat(path string, mode uint32) error {
	_, err := fs.walk(clean(path))
	return err
}

func (fs *SimFS) Faccessat(path string, mode uint32) error {
	_, err := fs.walk(clean(path))
	return err
}

func (fs *SimFS) Close(fd int) error {
	if fs.fds[fd] == nil {
		return syscall.EBADF
	}
	f, err := fs.op("fs-close", fs.fds[fd].n.path)
	delete(fs.fds, fd)
	fs.after(f)
	return err
}

func (fs *SimFS) Fsync(fd int) error {
	o := fs.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	f, err := fs.op("fs-fsync", o.n.path)
	if err != nil {
		return err
	}
	fs.syncInode(o.n)
	fs.after(f)
	return nil
}

func (fs *SimFS) syncInode(n *inode) {
	if n.dir {
		fs.applyPend(n, len(n.pend))
	} else {
		n.dur = append([]byte(nil), n.data...)
		n.dirty = false
	}
}

func (fs *SimFS) applyPend(n *inode, k int) {
	for _, p := range n.pend[:k] {
		if p.n == nil {
			delete(n.durE, p.name)
		} else {
			n.durE[p.name] = p.n
		}
		if p.name2 != "" {
			delete(n.durE, p.name2)
		}
	}
	n.pend = append([]dirop(nil), n.pend[k:]...)
}

func (fs *SimFS) Ftruncate(fd int, length int64) error {
	o := fs.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	f, err := fs.op("fs-write", o.n.path)
	if err != nil {
		return err
	}
	old := o.n.data
	nd := make([]byte, length)
	copy(nd, old)
	o.n.data = nd
	o.n.dirty = true
	fs.visible(o.n, o.n.path, old, true, false)
	fs.after(f)
	return nil
}

func (fs *SimFS) Fstat(fd int, st *syscall.Stat_t) error {
	o := fs.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	fs.fill(o.n, st)
	return nil
}

func (fs *SimFS) Seek(fd int, off int64, whence int) (int64, error) {
	o := fs.fds[fd]
	if o == nil {
		return 0, syscall.EBADF
	}
	switch whence {
	case 0:
		o.pos = off
	case 1:
		o.pos += off
	case 2:
		o.pos = int64(len(o.n.data)) + off
	}
	return o.pos, nil
}

func (fs *SimFS) Read(fd int, p []byte) (int, error) {
	o := fs.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	if o.n.dir {
		return -1, syscall.EISDIR
	}
	f, err := fs.op("fs-read", o.n.path)
	if err != nil {
		return -1, err
	}
	if o.pos >= int64(len(o.n.data)) {
		return 0, nil
	}
	k := copy(p, o.n.data[o.pos:])
	if f != nil && f.Act == "short" && k > 1 {
		k = k / 2
	}
	o.pos += int64(k)
	fs.after(f)
	return k, nil
}

func (fs *SimFS) Pread(fd int, p []byte, off int64) (int, error) {
	o := fs.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	if _, err := fs.op("fs-read", o.n.path); err != nil {
		return -1, err
	}
	if off >= int64(len(o.n.data)) {
		return 0, nil
	}
	return copy(p, o.n.data[off:]), nil
}

func (fs *SimFS) writeAt(n *inode, p []byte, off int64) {
	old := n.data
	nd := make([]byte, max(int64(len(old)), off+int64(len(p))))
	copy(nd, old)
	copy(nd[off:], p)
	n.data = nd
	n.dirty = true
	n.mtime = time.Now()
	fs.visible(n, n.path, old, true, false)
}

func (fs *SimFS) Write(fd int, p []byte) (int, error) {
	o := fs.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	f, err := fs.op("fs-write", o.n.path)
	if err != nil {
		return -1, err
	}
	if o.flags&syscall.O_APPEND != 0 {
		o.pos = int64(len(o.n.data))
	}
	if f != nil && (f.Act == "short" || f.Act == "crash-mid" || f.Act == "power-mid" || f.Act == "enospc") {
		k := len(p) / 2
		fs.writeAt(o.n, p[:k], o.pos)
		o.pos += int64(k)
		fs.after(f)
		if f.Act == "enospc" {
			if k == 0 {
				return -1, syscall.ENOSPC
			}
			fs.w.sticky[stickyKey(runtime.VerifNode(), "fs-write", o.n.path)] = &Fault{Act: "err", Status: int(syscall.ENOSPC)}
		}
		return k, nil
	}
	fs.writeAt(o.n, p, o.pos)
	o.pos += int64(len(p))
	fs.after(f)
	return len(p), nil
}

func (fs *SimFS) Pwrite(fd int, p []byte, off int64) (int, error) {
	o := fs.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	f, err := fs.op("fs-write", o.n.path)
	if err != nil {
		return -1, err
	}
	fs.writeAt(o.n, p, off)
	fs.after(f)
	return len(p), nil
}

func (fs *SimFS) Getdents(fd int, buf []byte) (int, error) {
	o := fs.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	if !o.n.dir {
		return -1, syscall.ENOTDIR
	}
	names := make([]string, 0, len(o.n.ents))
	for s := range o.n.ents {
		names = append(names, s)
	}
	sort.Strings(names)
	k := 0
	for i := int(o.pos); i < len(names); i++ {
		s := names[i]
		rl := (19 + len(s) + 1 + 7) &^ 7
		if k+rl > len(buf) {
			break
		}
		d := (*syscall.Dirent)(unsafe.Pointer(&buf[k]))
		d.Ino = o.n.ents[s].ino
		d.Off = int64(i + 1)
		d.Reclen = uint16(rl)
		d.Type = syscall.DT_REG
		if o.n.ents[s].dir {
			d.Type = syscall.DT_DIR
		}
		for j := 19; j < rl; j++ {
			buf[k+j] = 0
		}
		copy(buf[k+19:], s)
		k += rl
		o.pos = int64(i + 1)
	}
	return k, nil
}

// KillNode closes what a dead process had open.
func (fs *SimFS) KillNode(node uint32) {
	fds := make([]int, 0)
	for fd, o := range fs.fds {
		if o.node == node {
			fds = append(fds, fd)
		}
	}
	for _, fd := range fds {
		delete(fs.fds, fd)
	}
}

func (fs *SimFS) heal() { fs.full = false }

// PowerLoss reduces the disk to what was durable, plus whatever part of the
// unsynced state happened to reach it.
func (fs *SimFS) PowerLoss() {
	for fd, o := range fs.fds {
		if fs.w.monitor == nil || o.node != fs.w.monitor.id { // the monitor runs elsewhere
			delete(fs.fds, fd)
		}
	}
	seen := map[*inode]bool{}
	var rec func(n *inode, path string)
	rec = func(n *inode, path string) {
		if seen[n] {
			return
		}
		seen[n] = true
		n.path = path
		if !n.dir {
			if n.dirty {
				switch fs.rng.Intn(5) {
				case 0:
					n.data = append([]byte(nil), n.dur...)
				case 1: // everything made it
				case 2: // a prefix
					n.data = append([]byte(nil), n.data[:fs.rng.Intn(len(n.data)+1)]...)
				case 3: // size updated, blocks not written
					n.data = make([]byte, len(n.data))
				case 4: // nothing
					n.data = nil
				}
			}
			n.dur = append([]byte(nil), n.data...)
			n.dirty = false
			return
		}
		fs.applyPend(n, fs.rng.Intn(len(n.pend)+1))
		n.pend = nil
		n.ents = map[string]*inode{}
		names := make([]string, 0, len(n.durE))
		for s := range n.durE {
			names = append(names, s)
		}
		sort.Strings(names)
		for _, s := range names {
			n.ents[s] = n.durE[s]
			rec(n.ents[s], path+"/"+s)
		}
	}
	rec(fs.root, syscall.VerifRoot)
}

// ---- direct access for the harness (durable, no faults)

func (fs *SimFS) Install(path string, data []byte) {
	parts := clean(path)
	d := fs.root
	for i, s := range parts[:len(parts)-1] {
		n := d.ents[s]
		if n == nil {
			n = fs.mk(true, join(parts[:i+1]))
			d.ents[s], d.durE[s] = n, n
		}
		d = n
	}
	n := fs.mk(false, join(parts))
	n.data = append([]byte(nil), data...)
	n.dur = n.data
	name := parts[len(parts)-1]
	d.ents[name], d.durE[name] = n, n
}

// Remove deletes a file on behalf of the administrator.
func (fs *SimFS) Remove(path string) {
	if d, name, err := fs.parent(path); err == nil && d.ents[name] != nil {
		fs.link(d, name, nil, "")
	}
}

func (fs *SimFS) Peek(path string) ([]byte, bool) {
	n, err := fs.walk(clean(path))
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

func (fs *SimFS) List(dir string) []string {
	var out []string
	n, err := fs.walk(clean(dir))
	if err != nil {
		return nil
	}
	var rec func(n *inode, p string)
	rec = func(n *inode, p string) {
		if !n.dir {
			out = append(out, p)
			return
		}
		for s, c := range n.ents {
			if p == "" {
				rec(c, s)
			} else {
				rec(c, p+"/"+s)
			}
		}
	}
	rec(n, "")
	sort.Strings(out)
	return out
}
