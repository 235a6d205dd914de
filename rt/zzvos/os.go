// Package zzvos is an in-memory file system with the API of package os.
//
// The code under test is compiled against it (its import of os is rewritten),
// in the symbolic executor and when a counterexample is replayed. It models
// what a POSIX file system promises:
//
//   - every call is atomic and is a scheduling point,
//   - any call may fail (Fault), writes may be cut short,
//   - a crash (Crash, Reboot) loses any part of a file's data that was not
//     synced and any subset of the directory changes that were not synced.
package zzvos

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"time"

	vt "github.com/yields/ant/internal/zzvt"
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	LinkError struct {
		Op, Old, New string
		Err          error
	}
)

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

var (
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrExist      = fs.ErrExist
	ErrNotExist   = fs.ErrNotExist
	ErrClosed     = fs.ErrClosed

	// ErrFault is the error of an injected fault.
	ErrFault = errors.New("input/output error")
	errDead  = errors.New("the machine has crashed")
)

const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm      = fs.ModePerm
	ModeDir       = fs.ModeDir
	PathSeparator = '/'
	DevNull       = "/dev/null"
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
)

// Inode is a file or directory.
type Inode struct {
	dir    bool
	data   []byte
	synced []byte // what is surely on disk
	dirty  bool   // data differs from synced
	mtime  time.Time
	size   int64 // reported size when fake
	fake   bool
	mode   FileMode
}

type dirOp struct {
	old, new string // old is removed, new bound to ino ("" for none)
	ino      *Inode
}

var (
	names   = map[string]*Inode{"/": {dir: true}} // what the running system sees
	durable = map[string]*Inode{"/": {dir: true}} // what is surely on disk
	pending []dirOp
	open    int
	ops     int
	dead    bool
	tmp     int

	// CrashAt crashes the machine at the call with this number (0: never).
	CrashAt int
	// Err is the error of the fault.
	Err = ErrFault
	// FaultAt makes the call with this number fail (0: none).
	FaultAt int
	// OnlyFault restricts faults to one kind of call.
	OnlyFault string
	// Sticky makes all later calls of the kind that failed fail, too.
	Sticky bool
	// Faulted is the kind of call that failed.
	Faulted string
	// Hold makes calls of this kind wait until it is changed.
	Hold string
	// Switch makes every call a scheduling point.
	Switch = true
	// ReadBatch is how many names one directory read returns at most.
	ReadBatch = 1 << 30
	// Order reverses the order of directory listings.
	Reverse bool
)

// step starts a call of the given kind; its error is the fault, if any.
func step(kind string) error {
	if Switch {
		vt.Yield()
	}
	if Hold == kind {
		vt.WaitUntil(func() bool { return Hold != kind })
	}
	if dead {
		return errDead
	}
	ops++
	if ops == CrashAt {
		Crash()
		return errDead
	}
	if Sticky && Faulted == kind {
		return Err
	}
	if FaultAt != 0 && (OnlyFault == "" || OnlyFault == kind) {
		if FaultAt--; FaultAt == 0 {
			Faulted = kind
			return Err
		}
	}
	return nil
}

// Ops is the number of calls so far; Open the number of open files.
func Ops() int { return ops }

// OpenFiles is the number of files that are not closed.
func OpenFiles() int { return open }

// Dead tells whether the machine has crashed.
func Dead() bool { return dead }

// Crash stops the machine: no later call has any effect.
func Crash() { dead = true }

// Reboot brings the machine back with what survived the crash: each unsynced
// directory change happened or not, and unsynced data is lost, kept or torn.
func Reboot() {
	alive := durable
	lost := map[string]*Inode{}
	for k, v := range alive {
		lost[k] = v
	}
	for _, op := range pending {
		if vt.Bool("dir change kept") {
			if op.old != "" {
				delete(lost, op.old)
			}
			if op.new != "" {
				lost[op.new] = op.ino
			}
		}
	}
	var ks []string
	for k := range lost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	seen := map[*Inode]bool{}
	for _, k := range ks {
		ino := lost[k]
		if !ino.dirty || seen[ino] {
			continue
		}
		seen[ino] = true
		switch vt.Choose("data", 4) {
		case 0:
			ino.data = ino.synced
		case 1: // everything made it
		case 2: // a prefix made it
			if n := len(ino.data); n > 0 {
				ino.data = ino.data[:vt.Concrete(int64(vt.Int("torn", 0, n-1)))]
			}
		case 3: // the length made it, but not the data
			ino.data = make([]byte, len(ino.data))
		}
		ino.synced, ino.dirty = ino.data, false
	}
	names, pending, dead, open = lost, nil, false, 0
	durable = map[string]*Inode{}
	for k, v := range lost {
		durable[k] = v
	}
	CrashAt, FaultAt = 0, 0
}

// Put creates a file that is already on disk, Mkdirs a directory.
func Put(path string, data []byte, mtime time.Time) *Inode {
	ino := &Inode{data: data, synced: data, mtime: mtime}
	names[path], durable[path] = ino, ino
	return ino
}

// SetSize makes the file report the given size.
func (i *Inode) SetSize(n int64) { i.size, i.fake = n, true }

// SetTime sets the file's modification time.
func SetTime(path string, t time.Time) { names[path].mtime = t }

// SetFakeSize makes the file at path report the given size.
func SetFakeSize(path string, n int64) { names[path].SetSize(n) }

// PutDir creates a directory that is already on disk.
func PutDir(path string) {
	ino := &Inode{dir: true}
	names[path], durable[path] = ino, ino
}

// List returns the names in the directory.
func List(dir string) []string {
	var out []string
	for k := range names {
		if k != "/" && filepath.Dir(k) == dir {
			out = append(out, filepath.Base(k))
		}
	}
	sort.Strings(out)
	return out
}

// Contents returns the data of a file, and whether it exists.
func Contents(path string) ([]byte, bool) {
	if i, ok := names[path]; ok && !i.dir {
		return i.data, true
	}
	return nil, false
}

type info struct {
	name  string
	size  int64
	dir   bool
	mtime time.Time
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o600
}
func (i info) ModTime() time.Time         { return i.mtime }
func (i info) IsDir() bool                { return i.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() FileMode             { return i.Mode().Type() }
func (i info) Info() (FileInfo, error)    { return i, nil }
func stat(name string, i *Inode) FileInfo { return mkinfo(name, i) }

func mkinfo(name string, i *Inode) info {
	n := int64(len(i.data))
	if i.fake {
		n = i.size
	}
	return info{filepath.Base(name), n, i.dir, i.mtime}
}

// File is an open file.
type File struct {
	name   string
	ino    *Inode
	off    int
	closed bool
	write  bool
	app    bool
	list   []info
	listed bool
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

var errNoEnt error = noent{}

type noent struct{}

func (noent) Error() string        { return "no such file or directory" }
func (noent) Is(target error) bool { return target == fs.ErrNotExist }

func clean(p string) string { return filepath.Clean(p) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if err := step("open"); err != nil {
		return nil, perr("open", name, err)
	}
	return openNow(name, flag)
}

func openNow(name string, flag int) (*File, error) {
	p := clean(name)
	ino, ok := names[p]
	if ok && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, fs.ErrExist)
	}
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, errNoEnt)
		}
		if d, ok := names[filepath.Dir(p)]; !ok || !d.dir {
			return nil, perr("open", name, errNoEnt)
		}
		ino = &Inode{mtime: time.Now(), dirty: true}
		names[p] = ino
		pending = append(pending, dirOp{"", p, ino})
	} else if flag&3 != 0 {
		if ino.dir {
			return nil, perr("open", name, errors.New("is a directory"))
		}
		if flag&O_TRUNC != 0 {
			ino.data, ino.dirty, ino.mtime = nil, true, time.Now()
		}
	}
	open++
	return &File{name: name, ino: ino, write: flag&3 != 0, app: flag&O_APPEND != 0}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		if n /= 10; n == 0 {
			return s
		}
	}
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if j := strings.LastIndexByte(pattern, '*'); j >= 0 {
		pre, suf = pattern[:j], pattern[j+1:]
	}
	for {
		tmp++
		p := filepath.Join(dir, pre+itoa(100+tmp)+suf)
		if _, ok := names[p]; !ok {
			return p
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if err := step("create"); err != nil {
		return nil, perr("open", dir, err)
	}
	return openNow(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL)
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func MkdirTemp(dir, pattern string) (string, error) {
	p := tempName(dir, pattern)
	return p, Mkdir(p, 0o700)
}

func Mkdir(name string, perm FileMode) error {
	if err := step("mkdir"); err != nil {
		return perr("mkdir", name, err)
	}
	p := clean(name)
	if _, ok := names[p]; ok {
		return perr("mkdir", name, fs.ErrExist)
	}
	if d, ok := names[filepath.Dir(p)]; !ok || !d.dir {
		return perr("mkdir", name, errNoEnt)
	}
	ino := &Inode{dir: true, mtime: time.Now()}
	names[p] = ino
	pending = append(pending, dirOp{"", p, ino})
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	p := clean(path)
	if i, ok := names[p]; ok && i.dir {
		return nil
	}
	if d := filepath.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return Mkdir(p, perm)
}

func empty(p string) bool {
	for k := range names {
		if k != p && filepath.Dir(k) == p {
			return false
		}
	}
	return true
}

func Remove(name string) error {
	if err := step("remove"); err != nil {
		return perr("remove", name, err)
	}
	p := clean(name)
	i, ok := names[p]
	if !ok {
		return perr("remove", name, errNoEnt)
	}
	if i.dir && !empty(p) {
		return perr("remove", name, errors.New("directory not empty"))
	}
	delete(names, p)
	pending = append(pending, dirOp{p, "", nil})
	return nil
}

func RemoveAll(path string) error {
	if err := step("remove"); err != nil {
		return perr("remove", path, err)
	}
	p := clean(path)
	for k := range names {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(names, k)
			pending = append(pending, dirOp{k, "", nil})
		}
	}
	return nil
}

func Rename(oldpath, newpath string) error {
	if err := step("rename"); err != nil {
		return &LinkError{"rename", oldpath, newpath, err}
	}
	o, n := clean(oldpath), clean(newpath)
	i, ok := names[o]
	if !ok {
		return &LinkError{"rename", oldpath, newpath, errNoEnt}
	}
	if d, ok := names[filepath.Dir(n)]; !ok || !d.dir {
		return &LinkError{"rename", oldpath, newpath, errNoEnt}
	}
	if t, ok := names[n]; ok && t.dir != i.dir {
		return &LinkError{"rename", oldpath, newpath, fs.ErrExist}
	}
	if o == n {
		return nil
	}
	delete(names, o)
	names[n] = i
	pending = append(pending, dirOp{o, n, i})
	return nil
}

func Link(oldname, newname string) error {
	if err := step("link"); err != nil {
		return &LinkError{"link", oldname, newname, err}
	}
	o, n := clean(oldname), clean(newname)
	i, ok := names[o]
	if !ok {
		return &LinkError{"link", oldname, newname, errNoEnt}
	}
	if _, ok := names[n]; ok {
		return &LinkError{"link", oldname, newname, fs.ErrExist}
	}
	names[n] = i
	pending = append(pending, dirOp{"", n, i})
	return nil
}

func Stat(name string) (FileInfo, error) {
	if err := step("stat"); err != nil {
		return nil, perr("stat", name, err)
	}
	i, ok := names[clean(name)]
	if !ok {
		return nil, perr("stat", name, errNoEnt)
	}
	return stat(name, i), nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Chtimes(name string, atime, mtime time.Time) error {
	if err := step("chtimes"); err != nil {
		return perr("chtimes", name, err)
	}
	i, ok := names[clean(name)]
	if !ok {
		return perr("chtimes", name, errNoEnt)
	}
	i.mtime = mtime
	return nil
}

func Chmod(name string, mode FileMode) error {
	if err := step("chmod"); err != nil {
		return perr("chmod", name, err)
	}
	if _, ok := names[clean(name)]; !ok {
		return perr("chmod", name, errNoEnt)
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := step("read"); err != nil {
		return nil, perr("read", name, err)
	}
	if f.ino.dir {
		return nil, perr("read", name, errors.New("is a directory"))
	}
	return append([]byte{}, f.ino.data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ds, err := f.ReadDir(-1)
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name() < ds[j].Name() })
	return ds, err
}

func IsNotExist(err error) bool   { return errors.Is(err, ErrNotExist) }
func IsExist(err error) bool      { return errors.Is(err, ErrExist) }
func IsPermission(err error) bool { return errors.Is(err, ErrPermission) }
func IsPathSeparator(c uint8) bool {
	return c == PathSeparator
}
func TempDir() string                 { return "/tmp" }
func Getwd() (string, error)          { return "/", nil }
func Getpid() int                     { return 1 }
func Getpagesize() int                { return 4096 }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Hostname() (string, error)       { return "host", nil }

func (f *File) check(op, kind string) error {
	if f == nil {
		return ErrInvalid
	}
	if err := step(kind); err != nil {
		return perr(op, f.name, err)
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat", "stat"); err != nil {
		return nil, err
	}
	return stat(f.name, f.ino), nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read", "read"); err != nil {
		return 0, err
	}
	if f.ino.dir {
		return 0, perr("read", f.name, errors.New("is a directory"))
	}
	if f.off >= len(f.ino.data) && len(p) > 0 {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read", "read"); err != nil {
		return 0, err
	}
	if int(off) >= len(f.ino.data) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) writeAt(p []byte, off int) {
	d := append([]byte{}, f.ino.data...)
	for len(d) < off {
		d = append(d, 0)
	}
	for i, c := range p {
		if off+i < len(d) {
			d[off+i] = c
		} else {
			d = append(d, c)
		}
	}
	f.ino.data, f.ino.dirty, f.ino.mtime = d, true, time.Now()
}

func (f *File) Write(p []byte) (int, error) {
	err := f.check("write", "write")
	if err != nil && (!errors.Is(err, Err) || f.closed) {
		return 0, err
	}
	if !f.write {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	if f.app {
		f.off = len(f.ino.data)
	}
	if err != nil { // a fault may come after a part was written
		n := len(p) / 2
		f.writeAt(p[:n], f.off)
		f.off += n
		return n, err
	}
	f.writeAt(p, f.off)
	f.off += len(p)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write", "write"); err != nil {
		return 0, err
	}
	f.writeAt(p, int(off))
	return len(p), nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek", "seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.off)
	case io.SeekEnd:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, ErrInvalid)
	}
	f.off = int(off)
	f.listed = false
	return off, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate", "truncate"); err != nil {
		return err
	}
	d := append([]byte{}, f.ino.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	f.ino.data, f.ino.dirty, f.ino.mtime = d[:size], true, time.Now()
	return nil
}

func (f *File) Chmod(mode FileMode) error { return f.check("chmod", "chmod") }

func (f *File) Sync() error {
	kind := "sync"
	if f != nil && f.ino != nil && f.ino.dir {
		kind = "dirsync"
	}
	if err := f.check("sync", kind); err != nil {
		return err
	}
	if !f.ino.dir {
		f.ino.synced, f.ino.dirty = f.ino.data, false
		return nil
	}
	var rest []dirOp
	dir := clean(f.name)
	for _, op := range pending {
		if op.old != "" && filepath.Dir(op.old) != dir || op.new != "" && filepath.Dir(op.new) != dir {
			rest = append(rest, op)
			continue
		}
		if op.old != "" {
			delete(durable, op.old)
		}
		if op.new != "" {
			durable[op.new] = op.ino
		}
	}
	pending = rest
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	err := step("close")
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true // even when it fails
	open--
	if err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) next(n int) ([]info, error) {
	if err := f.check("readdir", "readdir"); err != nil {
		return nil, err
	}
	if !f.ino.dir {
		return nil, perr("readdir", f.name, errors.New("not a directory"))
	}
	if !f.listed {
		f.listed = true
		f.list = nil
		for _, k := range List(clean(f.name)) {
			f.list = append(f.list, mkinfo(k, names[filepath.Join(f.name, k)]))
		}
		if Reverse {
			for i, j := 0, len(f.list)-1; i < j; i, j = i+1, j-1 {
				f.list[i], f.list[j] = f.list[j], f.list[i]
			}
		}
	}
	if n <= 0 {
		out := f.list
		f.list = nil
		return out, nil
	}
	if len(f.list) == 0 {
		return nil, io.EOF
	}
	if n > ReadBatch {
		n = ReadBatch
	}
	if n > len(f.list) {
		n = len(f.list)
	}
	out := f.list[:n]
	f.list = f.list[n:]
	return out, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	is, err := f.next(n)
	var out []string
	for _, i := range is {
		out = append(out, i.name)
	}
	return out, err
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	is, err := f.next(n)
	var out []FileInfo
	for _, i := range is {
		out = append(out, i)
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	is, err := f.next(n)
	var out []DirEntry
	for _, i := range is {
		out = append(out, i)
	}
	return out, err
}
