package world

import (
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// The file system. Each inode has volatile contents, which any process sees,
// and durable contents, which survive a power loss. Directory entries are
// likewise volatile and durable. fsync of a file makes its contents and the
// entries currently naming it durable (as journalling file systems do);
// fsync of a directory makes its entries durable. A power loss keeps, of
// what was not made durable, a seeded part: entries may or may not have
// reached the disk, contents may be any prefix.

type inode struct {
	id     int
	data   []byte
	dur    []byte
	dir    bool
	mode   os.FileMode
	mtime  time.Time
	synced bool // dur is meaningful
}

type FS struct {
	w     *World
	vol   map[string]*inode
	dur   map[string]*inode
	nid   int
	open  map[*File]bool
	MaxFD int
	Peak  int // most descriptors ever open at once
	// Hist of content versions per path, for oracles.
	Vers map[string][]Version
	// Created lists every inode ever created by the daemon under a path
	// with a watched prefix.
	Watch string
	gone  map[*inode]bool
	// DirMode is how directories are: "nosync" (they cannot be synced,
	// changes are durable at once) or "noread" (likewise, and the save
	// directories cannot be read).
	DirMode string
}

// Version is what a path held from sequence number Seq on.
type Version struct {
	Seq    int
	T      time.Duration
	Exists bool
	Data   string
}

func newFS(w *World) *FS {
	f := &FS{w: w, vol: map[string]*inode{}, dur: map[string]*inode{}, open: map[*File]bool{}, Vers: map[string][]Version{}}
	for _, d := range []string{"/", "/tmp", "/cfg", "/log", "/cwd"} {
		f.mkdir(d)
	}
	return f
}

func clean(p string) string {
	if p == "" {
		return p
	}
	if p[0] != '/' {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

func (f *FS) mkdir(p string) {
	f.nid++
	n := &inode{id: f.nid, dir: true, mode: os.ModeDir | 0777, synced: true}
	f.vol[p] = n
	f.dur[p] = n
}

// Mkdir makes a directory (harness use).
func (f *FS) Mkdir(p string) { f.mkdir(clean(p)) }

// Put replaces a file's contents atomically (harness use, durable at once).
func (f *FS) Put(p, data string) { f.Put2(p, data, false) }

// Put2 is Put, where the file may keep its modification time.
func (f *FS) Put2(p, data string, keep bool) {
	p = clean(p)
	old := f.vol[p]
	f.nid++
	n := &inode{id: f.nid, data: []byte(data), dur: []byte(data), synced: true, mode: 0644, mtime: time.Now()}
	if keep && old != nil {
		n.mtime = old.mtime
	}
	f.vol[p] = n
	f.dur[p] = n
	f.Vers[p] = append(f.Vers[p], Version{f.w.Sim.Next(), f.w.Sim.Now(), true, data})
}

// Del removes a file (harness use).
func (f *FS) Del(p string) {
	p = clean(p)
	delete(f.vol, p)
	delete(f.dur, p)
	f.Vers[p] = append(f.Vers[p], Version{f.w.Sim.Next(), f.w.Sim.Now(), false, ""})
}

// Get returns a file's volatile contents.
func (f *FS) Get(p string) (string, bool) {
	n := f.vol[clean(p)]
	if n == nil || n.dir {
		return "", false
	}
	return string(n.data), true
}

// Ino returns the inode number at a path, 0 if none.
func (f *FS) Ino(p string) int {
	if n := f.vol[clean(p)]; n != nil {
		return n.id
	}
	return 0
}

// List returns the names in a directory, sorted.
func (f *FS) List(dir string) []string {
	dir = clean(dir)
	var l []string
	for p := range f.vol {
		if p != "/" && path.Dir(p) == dir {
			l = append(l, path.Base(p))
		}
	}
	sort.Strings(l)
	return l
}

// OpenFDs counts descriptors the daemon holds.
func (f *FS) OpenFDs() []string {
	var l []string
	for fl := range f.open {
		if !fl.std {
			l = append(l, fl.name)
		}
	}
	sort.Strings(l)
	return l
}

// DropProc closes everything a dead process had open.
func (f *FS) DropProc(p *rt.Proc) {
	for fl := range f.open {
		if fl.proc == p {
			fl.closed = true
			delete(f.open, fl)
		}
	}
}

// PowerLoss reduces everything to its durable state.
func (f *FS) PowerLoss() {
	r := f.w.Rand("power", f.w.NCrash)
	nv := map[string]*inode{}
	var all []string
	for p := range f.vol {
		all = append(all, p)
	}
	for p := range f.dur {
		if f.vol[p] == nil {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	keep := r.P(50)
	before := map[*inode]string{}
	for _, n := range f.vol {
		before[n] = string(n.data)
	}
	done := map[*inode]bool{}
	for _, p := range all {
		v, d := f.vol[p], f.dur[p]
		n := d
		if f.DirMode != "" {
			n = v
		} else if v != d {
			// entry changed since it was last made durable
			if keep && r.P(50) {
				n = v
			}
			f.w.Fired["power:entry-at-risk"]++
		}
		if n == nil {
			continue
		}
		if !n.dir && !done[n] {
			done[n] = true
			if !n.synced || string(n.dur) != string(n.data) {
				f.w.Fired["power:data-lost"]++
				base := append([]byte(nil), n.dur...)
				if len(n.data) > len(base) && strings.HasPrefix(string(n.data), string(base)) && r.P(50) {
					k := len(base) + r.N(len(n.data)-len(base)+1)
					base = append([]byte(nil), n.data[:k]...)
				}
				n.data = base
			}
			n.dur = append([]byte(nil), n.data...)
			n.synced = true
		}
		nv[p] = n
	}
	old := map[string]string{}
	for p, n := range f.vol {
		if !n.dir {
			old[p] = before[n]
		}
	}
	f.vol = nv
	f.dur = map[string]*inode{}
	for p, n := range nv {
		f.dur[p] = n
	}
	for _, p := range all {
		o, had := old[p]
		n := nv[p]
		if strings.HasPrefix(p, "/log/") || (n != nil && n.dir) {
			continue
		}
		if had != (n != nil) || (n != nil && o != string(n.data)) {
			f.snapshot(p)
		}
	}
	f.w.Log("powerloss", "", "", len(nv))
}

func (f *FS) snapshot(p string) {
	n := f.vol[p]
	v := Version{f.w.Sim.Next(), f.w.Sim.Now(), false, ""}
	if n != nil {
		v.Exists, v.Data = true, string(n.data)
	}
	f.Vers[p] = append(f.Vers[p], v)
}

// File is an open file of the simulated process.
type File struct {
	name   string
	path   string
	n      *inode
	flag   int
	off    int
	closed bool
	std    bool
	werr   bool
	bad    error // what the next read fails with
	proc   *rt.Proc
	sink   *[]byte
}

var errno = map[string]syscall.Errno{
	"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT,
	"ENFILE": syscall.ENFILE, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS, "ENOENT": syscall.ENOENT,
	"EEXIST": syscall.EEXIST, "EINTR": syscall.EINTR, "ECONNRESET": syscall.ECONNRESET, "EPIPE": syscall.EPIPE,
	"ECONNABORTED": syscall.ECONNABORTED, "EAGAIN": syscall.EAGAIN, "ESTALE": syscall.ESTALE, "ENOMEM": syscall.ENOMEM,
	"EMLINK": syscall.EMLINK, "EPERM": syscall.EPERM, "EXDEV": syscall.EXDEV, "EINVAL": syscall.EINVAL,
}

func errOf(s string) syscall.Errno {
	if e, ok := errno[s]; ok {
		return e
	}
	return syscall.EIO
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

// enter is the common prologue of a file-system operation: a scheduling
// point, then the fault plan. A planned crash "before" happens here.
func (f *FS) enter(op, target string) *Fault {
	rt.Gate(op)
	ft := f.w.fault(op, target)
	if ft != nil && ft.Crash != "" && !ft.After && ft.Part == 0 {
		f.w.crashHere(ft.Crash == "power")
	}
	return ft
}

func (f *FS) leave(ft *Fault) {
	if ft != nil && ft.Crash != "" && (ft.After || ft.Part > 0) {
		f.w.crashHere(ft.Crash == "power")
	}
}

func procOf() *rt.Proc {
	if g := rt.Cur(); g != nil {
		return g.Proc
	}
	return nil
}

// OpenFile opens a file for the daemon.
func (f *FS) OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if _, inert := caller(); inert {
		return nil, perr("open", name, syscall.EINTR)
	}
	p := clean(name)
	ro := flag&(os.O_WRONLY|os.O_RDWR) == 0
	op := "fs.create"
	if ro {
		op = "fs.open"
	}
	n0 := f.vol[p]
	if ro && n0 != nil && n0.dir {
		op = "fs.opendir"
	}
	if !ro && flag&os.O_CREATE == 0 {
		op = "fs.open"
	}
	ft := f.enter(op, p)
	if ft != nil && ft.Err != "" {
		return nil, perr("open", name, errOf(ft.Err))
	}
	if op == "fs.opendir" && f.DirMode == "noread" && strings.HasPrefix(p, "/save") {
		f.w.Fired["env:dir-unreadable"]++
		return nil, perr("open", name, syscall.EACCES)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if f.MaxFD > 0 && len(f.open)+f.w.Net.openConns() >= f.MaxFD {
		f.w.Fired["fs.open:fd-limit"]++
		f.w.Log("fdlimit", p, "", 0)
		return nil, perr("open", name, syscall.EMFILE)
	}
	n := f.vol[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := f.vol[path.Dir(p)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		f.nid++
		n = &inode{id: f.nid, mode: perm, mtime: time.Now()}
		f.vol[p] = n
		f.w.Log("fs", "create", p, n.id)
		f.snapshot(p)
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			f.w.Log("fs", "exists", p, n.id)
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && !ro {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !ro {
			n.data = nil
			f.w.Log("fs", "trunc", p, n.id)
			f.snapshot(p)
		}
		if ro && !n.dir {
			f.w.Log("fs", "openr", p, n.id)
		}
	}
	fl := &File{name: name, path: p, n: n, flag: flag, proc: procOf()}
	f.open[fl] = true
	if n := len(f.open); n > f.Peak {
		f.Peak = n
	}
	f.leave(ft)
	return fl, nil
}

// Std makes a standard stream.
func (f *FS) Std(name string, sink *[]byte) *File {
	return &File{name: name, path: name, std: true, flag: os.O_WRONLY, sink: sink}
}

func (fl *File) Name() string { return fl.name }

func (fl *File) Write(b []byte) (int, error) {
	if _, inert := caller(); inert {
		return 0, perr("write", fl.nm(), syscall.EINTR)
	}
	if fl == nil {
		return 0, os.ErrInvalid
	}
	f := W.FS
	if fl.closed {
		return 0, perr("write", fl.name, os.ErrClosed)
	}
	if fl.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", fl.name, syscall.EBADF)
	}
	ft := f.enter("fs.write", fl.path)
	nb := len(b)
	var err error
	if ft != nil && (ft.Err != "" || (ft.Crash != "" && ft.Part > 0)) {
		nb = len(b) * ft.Part / 1000
		if ft.Err != "" {
			err = perr("write", fl.name, errOf(ft.Err))
		}
	}
	if fl.std {
		if fl.sink != nil {
			*fl.sink = append(*fl.sink, b[:nb]...)
		}
		f.w.Log("stdio", fl.name, string(b[:nb]), nb)
	} else {
		if fl.flag&os.O_APPEND != 0 {
			fl.off = len(fl.n.data)
		}
		for len(fl.n.data) < fl.off {
			fl.n.data = append(fl.n.data, 0)
		}
		if fl.off == len(fl.n.data) {
			fl.n.data = append(fl.n.data, b[:nb]...)
		} else {
			fl.n.data = append(fl.n.data[:fl.off:fl.off], append(append([]byte(nil), b[:nb]...), tail(fl.n.data, fl.off+nb)...)...)
		}
		fl.off += nb
		fl.n.mtime = time.Now()
		f.w.Log("fs", "write", fl.path, nb)
		if !strings.HasPrefix(fl.path, "/log/") {
			f.snapshotInode(fl.n)
		}
	}
	f.leave(ft)
	return nb, err
}

func tail(b []byte, from int) []byte {
	if from >= len(b) {
		return nil
	}
	return b[from:]
}

func (f *FS) snapshotInode(n *inode) {
	var l []string
	for p, m := range f.vol {
		if m == n {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	for _, p := range l {
		f.snapshot(p)
	}
}

func (fl *File) nm() string {
	if fl == nil {
		return ""
	}
	return fl.name
}

func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }

func (fl *File) WriteAt(b []byte, off int64) (int, error) {
	o := fl.off
	fl.off = int(off)
	n, err := fl.Write(b)
	fl.off = o
	return n, err
}

func (fl *File) Read(b []byte) (int, error) {
	if _, inert := caller(); inert {
		return 0, perr("read", fl.nm(), syscall.EINTR)
	}
	if fl == nil {
		return 0, os.ErrInvalid
	}
	f := W.FS
	if fl.closed {
		return 0, perr("read", fl.name, os.ErrClosed)
	}
	if fl.std {
		return 0, io.EOF
	}
	if fl.n.dir {
		return 0, perr("read", fl.name, syscall.EISDIR)
	}
	ft := f.enter("fs.read", fl.path)
	if fl.bad != nil {
		return 0, fl.bad
	}
	rest := tail(fl.n.data, fl.off)
	if ft != nil && ft.Err != "" {
		// a failing disk: some of the file may have been delivered by
		// earlier reads, the rest never arrives
		if ft.Part > 0 && len(rest) > 1 && len(b) > 0 {
			k := len(rest) * ft.Part / 1000
			if k > len(b) {
				k = len(b)
			}
			if k > 0 {
				copy(b, rest[:k])
				fl.off += k
				// the error itself comes with the next read of this file
				fl.bad = perr("read", fl.name, errOf(ft.Err))
				return k, nil
			}
		}
		return 0, perr("read", fl.name, errOf(ft.Err))
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(rest) == 0 {
		return 0, io.EOF
	}
	// short reads: legal, and decided by the seed
	k := len(rest)
	if k > len(b) {
		k = len(b)
	}
	if k > 1 {
		r := f.w.Rand("read", fl.path, fl.off)
		if r.P(25) {
			k = 1 + r.N(k)
		}
	}
	copy(b, rest[:k])
	fl.off += k
	return k, nil
}

func (fl *File) ReadAt(b []byte, off int64) (int, error) {
	rest := tail(fl.n.data, int(off))
	k := copy(b, rest)
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}

func (fl *File) ReadFrom(r io.Reader) (int64, error) {
	var tot int64
	buf := make([]byte, 4096)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := fl.Write(buf[:n])
			tot += int64(m)
			if werr != nil {
				return tot, werr
			}
		}
		if err == io.EOF {
			return tot, nil
		}
		if err != nil {
			return tot, err
		}
	}
}

func (fl *File) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case 0:
		fl.off = int(off)
	case 1:
		fl.off += int(off)
	case 2:
		fl.off = len(fl.n.data) + int(off)
	}
	return int64(fl.off), nil
}

func (fl *File) Truncate(sz int64) error {
	if _, inert := caller(); inert {
		return nil
	}
	f := W.FS
	ft := f.enter("fs.truncate", fl.path)
	if ft != nil && ft.Err != "" {
		return perr("truncate", fl.name, errOf(ft.Err))
	}
	for int64(len(fl.n.data)) < sz {
		fl.n.data = append(fl.n.data, 0)
	}
	fl.n.data = append([]byte(nil), fl.n.data[:sz]...)
	f.snapshotInode(fl.n)
	return nil
}

func (fl *File) Sync() error {
	if _, inert := caller(); inert {
		return nil
	}
	if fl == nil {
		return os.ErrInvalid
	}
	if fl.closed {
		return perr("sync", fl.name, os.ErrClosed)
	}
	if fl.std {
		return nil
	}
	f := W.FS
	op := "fs.sync"
	if fl.n.dir {
		op = "fs.syncdir"
	}
	ft := f.enter(op, fl.path)
	if ft != nil && ft.Err != "" {
		// after a failed fsync the dirty data may be dropped
		return perr("sync", fl.name, errOf(ft.Err))
	}
	if fl.n.dir && f.DirMode != "" {
		f.w.Fired["env:dir-unsyncable"]++
		return perr("sync", fl.name, syscall.EINVAL)
	}
	if fl.n.dir {
		for p := range f.dur {
			if p != "/" && path.Dir(p) == fl.path && f.vol[p] != f.dur[p] {
				delete(f.dur, p)
			}
		}
		for p, n := range f.vol {
			if p != "/" && path.Dir(p) == fl.path {
				f.dur[p] = n
			}
		}
	} else {
		fl.n.dur = append([]byte(nil), fl.n.data...)
		fl.n.synced = true
		for p, n := range f.vol {
			if n == fl.n {
				f.dur[p] = n
			}
		}
	}
	f.w.Log("fs", "sync", fl.path, len(fl.n.data))
	f.leave(ft)
	return nil
}

func (fl *File) Close() error {
	if _, inert := caller(); inert {
		return nil
	}
	if fl == nil {
		return os.ErrInvalid
	}
	if fl.closed {
		return perr("close", fl.name, os.ErrClosed)
	}
	f := W.FS
	var ft *Fault
	if !fl.std && fl.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		ft = f.enter("fs.close", fl.path)
	}
	fl.closed = true
	delete(f.open, fl)
	f.leave(ft)
	if ft != nil && ft.Err != "" {
		return perr("close", fl.name, errOf(ft.Err))
	}
	return nil
}

func (fl *File) Fd() uintptr { return uintptr(100) }

func (fl *File) SetDeadline(t time.Time) error { return nil }

func (fl *File) Chmod(m os.FileMode) error { fl.n.mode = m; return nil }

func (fl *File) Stat() (os.FileInfo, error) {
	if fl.std {
		return &info{name: fl.name, n: &inode{}}, nil
	}
	return &info{path.Base(fl.path), fl.n, int64(len(fl.n.data))}, nil
}

func (fl *File) ReadDir(n int) ([]os.DirEntry, error) { return W.FS.ReadDir(fl.path) }

func (fl *File) Readdir(n int) ([]os.FileInfo, error) {
	l, err := W.FS.ReadDir(fl.path)
	var o []os.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		o = append(o, i)
	}
	return o, err
}

func (fl *File) Chown(uid, gid int) error { return nil }

func (fl *File) SetReadDeadline(t time.Time) error { return nil }

func (fl *File) SetWriteDeadline(t time.Time) error { return nil }

func (fl *File) Readdirnames(n int) ([]string, error) { return W.FS.List(fl.path), nil }

type info struct {
	name string
	n    *inode
	size int64
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() os.FileMode          { return i.n.mode }
func (i *info) ModTime() time.Time         { return i.n.mtime }
func (i *info) IsDir() bool                { return i.n.dir }
func (i *info) Sys() interface{}           { return i.n.id }
func (i *info) Type() os.FileMode          { return i.n.mode.Type() }
func (i *info) Info() (os.FileInfo, error) { return i, nil }

func (f *FS) Stat(op, name string) (os.FileInfo, error) {
	if _, inert := caller(); inert {
		return nil, perr(op, name, syscall.EINTR)
	}
	p := clean(name)
	ft := f.enter("fs.stat", p)
	if ft != nil && ft.Err != "" {
		return nil, perr(op, name, errOf(ft.Err))
	}
	n := f.vol[p]
	if n == nil || name == "" {
		return nil, perr(op, name, syscall.ENOENT)
	}
	return &info{path.Base(p), n, int64(len(n.data))}, nil
}

func lerr(op, a, b string, e error) error { return &os.LinkError{Op: op, Old: a, New: b, Err: e} }

func (f *FS) Rename(from, to string) error {
	if _, inert := caller(); inert {
		return nil
	}
	a, b := clean(from), clean(to)
	ft := f.enter("fs.rename", b)
	if ft != nil && ft.Err != "" {
		return lerr("rename", from, to, errOf(ft.Err))
	}
	n := f.vol[a]
	if n == nil || f.vol[path.Dir(b)] == nil {
		return lerr("rename", from, to, syscall.ENOENT)
	}
	if t := f.vol[b]; t != nil && t.dir && !n.dir {
		return lerr("rename", from, to, syscall.EEXIST)
	}
	if a == b {
		return nil
	}
	if f.vol[b] != nil {
		f.w.Log("fs", "replace", b, n.id)
	}
	f.vol[b] = n
	delete(f.vol, a)
	f.w.Log("fs", "rename", b, n.id)
	f.snapshot(b)
	f.leave(ft)
	return nil
}

func (f *FS) Link(from, to string) error {
	if _, inert := caller(); inert {
		return nil
	}
	a, b := clean(from), clean(to)
	ft := f.enter("fs.link", b)
	if ft != nil && ft.Err != "" {
		return lerr("link", from, to, errOf(ft.Err))
	}
	n := f.vol[a]
	if n == nil || f.vol[path.Dir(b)] == nil {
		return lerr("link", from, to, syscall.ENOENT)
	}
	if f.vol[b] != nil {
		f.w.Log("fs", "exists", b, n.id)
		return lerr("link", from, to, syscall.EEXIST)
	}
	f.vol[b] = n
	f.w.Log("fs", "link", b, n.id)
	f.snapshot(b)
	f.leave(ft)
	return nil
}

func (f *FS) Remove(name string) error {
	if _, inert := caller(); inert {
		return nil
	}
	p := clean(name)
	ft := f.enter("fs.remove", p)
	if ft != nil && ft.Err != "" {
		return perr("remove", name, errOf(ft.Err))
	}
	n := f.vol[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir && len(f.List(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(f.vol, p)
	f.w.Log("fs", "remove", p, n.id)
	f.snapshot(p)
	f.leave(ft)
	return nil
}

func (f *FS) RemoveAll(name string) error {
	if _, inert := caller(); inert {
		return nil
	}
	rt.Gate("fs.removeall")
	p := clean(name)
	for q := range f.vol {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(f.vol, q)
		}
	}
	f.w.Log("fs", "removeall", p, 0)
	return nil
}

func (f *FS) MkdirCall(name string, all bool) error {
	if _, inert := caller(); inert {
		return nil
	}
	p := clean(name)
	ft := f.enter("fs.mkdir", p)
	if ft != nil && ft.Err != "" {
		return perr("mkdir", name, errOf(ft.Err))
	}
	if n := f.vol[p]; n != nil {
		if all && n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !all && f.vol[path.Dir(p)] == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	for q := p; f.vol[q] == nil; q = path.Dir(q) {
		f.nid++
		f.vol[q] = &inode{id: f.nid, dir: true, mode: os.ModeDir | 0777, synced: true}
	}
	return nil
}

func (f *FS) ReadDir(name string) ([]os.DirEntry, error) {
	p := clean(name)
	n := f.vol[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var l []os.DirEntry
	for _, nm := range f.List(p) {
		m := f.vol[path.Join(p, nm)]
		l = append(l, &info{nm, m, int64(len(m.data))})
	}
	return l, nil
}
