// Package vfs is a model of the file system calls of package os: files are byte slices in memory, every call is a
// numbered step, and one step can be chosen to fail or to be the one at which the process stops. The checks compile
// the repository with os.X replaced by vfs.X (see redirect in the engine), in the engine and natively alike.
package vfs

import (
	"errors"
	"io"
	"io/fs"
	"sort"
	"strings"
	"time"

	"fvh/sym"
)

// Flags and types as in package os.
const (
	O_RDONLY = 0
	O_WRONLY = 1
	O_RDWR   = 2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
	DirEntry  = fs.DirEntry
)

// LinkError is what Rename returns.
type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

var (
	ErrNotExist   = fs.ErrNotExist
	ErrExist      = fs.ErrExist
	ErrPermission = fs.ErrPermission
	ErrClosed     = fs.ErrClosed
	ErrInvalid    = fs.ErrInvalid

	// ErrIO is the injected failure.
	ErrIO = errors.New("input/output error")
)

type node struct {
	data []byte
	mode FileMode
	time int64 // number of the last change
}

// changed notes a change of the content.
func (n *node) changed() {
	clock++
	n.time = clock
}

// Crashed is the panic value of a crash.
type Crashed struct{}

var (
	files map[string]*node
	dirs  map[string]bool
	seq   int
	clock int64
	// Steps counts the calls made so far.
	Steps int
	// FailAt is the step that fails (0: none), CrashAt the step at which the process stops.
	FailAt, CrashAt int
	// FailFrom makes every step from this one on fail (0: none).
	FailFrom int
	dead     bool
	// Failed reports that the chosen failure happened.
	Failed bool
	// FailedOp is the first call that failed ("close" only for files opened for reading, otherwise "commit").
	FailedOp string
	// Handles is the number of open files.
	Handles int
)

// Reset empties the file system.
func Reset() {
	files = map[string]*node{}
	dirs = map[string]bool{}
	seq, Steps, FailAt, CrashAt, FailFrom, Handles = 0, 0, 0, 0, 0, 0
	dead, Failed, FailedOp = false, false, ""
	clock = 0
}

func init() { Reset(); sym.Reset = Reset }

// Recover ends a crash or failure plan: the machine is back up.
func Recover() {
	dead = false
	FailAt, CrashAt, FailFrom = 0, 0, 0
}

// Put creates a file.
func Put(path, data string) {
	n := &node{data: []byte(data), mode: 0644}
	n.changed()
	files[clean(path)] = n
}

// Get returns the content of a file.
func Get(path string) (string, bool) {
	n, ok := files[clean(path)]
	if !ok {
		return "", false
	}
	return string(n.data), true
}

// Names lists the files.
func Names() []string {
	var r []string
	for n := range files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func clean(p string) string {
	for strings.HasPrefix(p, "./") {
		p = p[2:]
	}
	return p
}

const (
	ok = iota
	failed
	stopped
)

// step counts a call and tells what happens to it.
func step() int {
	if dead {
		return failed
	}
	Steps++
	if CrashAt == Steps {
		return stopped
	}
	if FailAt == Steps || FailFrom > 0 && Steps >= FailFrom {
		Failed = true
		return failed
	}
	return ok
}

func stop() {
	dead = true
	panic(Crashed{})
}

func note(op string) {
	if FailedOp == "" {
		FailedOp = op
	}
}

// begin runs a step without partial effects: a crash happens before or after it (the next step).
func begin(op, path string) error {
	switch step() {
	case failed:
		note(op)
		return &PathError{Op: op, Path: path, Err: ErrIO}
	case stopped:
		stop()
	}
	return nil
}

// File is an open file.
type File struct {
	n      *node
	name   string
	pos    int
	flag   int
	closed bool
}

var (
	Stdin  = &File{name: "/dev/stdin", n: &node{}}
	Stdout = &File{name: "/dev/stdout", n: &node{}, flag: O_WRONLY}
	Stderr = &File{name: "/dev/stderr", n: &node{}, flag: O_WRONLY}
)

// Open opens for reading.
func Open(path string) (*File, error) { return OpenFile(path, O_RDONLY, 0) }

// Create truncates or creates.
func Create(path string) (*File, error) { return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// OpenFile is the general form.
func OpenFile(path string, flag int, perm FileMode) (*File, error) {
	if err := begin("open", path); err != nil {
		return nil, err
	}
	p := clean(path)
	if dirs[p] && flag&3 != O_RDONLY {
		return nil, &PathError{Op: "open", Path: path, Err: errors.New("is a directory")}
	}
	n, have := files[p]
	if !have {
		if flag&O_CREATE == 0 {
			return nil, &PathError{Op: "open", Path: path, Err: ErrNotExist}
		}
		n = &node{mode: perm}
		n.changed()
		files[p] = n
	} else if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, &PathError{Op: "open", Path: path, Err: ErrExist}
	}
	if flag&O_TRUNC != 0 && flag&3 != O_RDONLY {
		n.data = nil
		n.changed()
	}
	Handles++
	return &File{n: n, name: path, flag: flag}, nil
}

// CreateTemp creates a new file with a fresh name.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		seq++
		name := dir + "/" + pre + string(rune('0'+seq%10)) + string(rune('0'+seq/10%10)) + suf
		if _, have := files[clean(name)]; have {
			continue
		}
		return OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
	}
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// Name of the file.
func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

// Read reads.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := begin("read", f.name); err != nil {
		return 0, err
	}
	if f.pos >= len(f.n.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := begin("read", f.name); err != nil {
		return 0, err
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// Write writes; a failing or interrupted write may have written any part.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&3 == O_RDONLY {
		return 0, &PathError{Op: "write", Path: f.name, Err: errors.New("bad file descriptor")}
	}
	switch step() {
	case failed:
		note("write")
		n := 0
		if !dead {
			n = partial(len(b))
			f.put(b[:n])
		}
		return n, &PathError{Op: "write", Path: f.name, Err: ErrIO}
	case stopped:
		f.put(b[:partial(len(b))])
		stop()
	}
	f.put(b)
	return len(b), nil
}

// partial picks how much of an interrupted write happened: nothing, the first byte, half, all but the last byte.
func partial(n int) int {
	if n <= 1 {
		return 0
	}
	switch sym.Choose("partial", 4) {
	case 3:
		return n / 2
	case 1:
		return 1
	case 2:
		return n - 1
	}
	return 0
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.n.data)
	}
	d := append([]byte(nil), f.n.data...)
	for len(d) < f.pos+len(b) {
		d = append(d, 0)
	}
	copy(d[f.pos:], b)
	f.pos += len(b)
	f.n.data = d
	f.n.changed()
}

// WriteString writes.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Close closes.
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	Handles--
	if f.flag&3 != O_RDONLY {
		return begin("commit", f.name)
	}
	return begin("close", f.name)
}

// Sync flushes.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return begin("sync", f.name)
}

// Seek moves.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.pos = int(off)
	case 1:
		f.pos += int(off)
	case 2:
		f.pos = len(f.n.data) + int(off)
	}
	if f.pos < 0 {
		f.pos = 0
		return 0, &PathError{Op: "seek", Path: f.name, Err: ErrInvalid}
	}
	return int64(f.pos), nil
}

// Truncate cuts.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := begin("truncate", f.name); err != nil {
		return err
	}
	f.n.resize(int(size))
	return nil
}

func (n *node) resize(size int) {
	d := append([]byte(nil), n.data...)
	for len(d) < size {
		d = append(d, 0)
	}
	n.changed()
	n.data = d[:size]
}

// Chmod changes the mode.
func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if err := begin("chmod", f.name); err != nil {
		return err
	}
	f.n.mode = m
	return nil
}

// Fd is a number without meaning.
func (f *File) Fd() uintptr { return 3 }

type info struct {
	name string
	size int
	mode FileMode
	dir  bool
	time int64
}

func (i *info) Name() string {
	if k := strings.LastIndexByte(i.name, '/'); k >= 0 {
		return i.name[k+1:]
	}
	return i.name
}
func (i *info) Size() int64        { return int64(i.size) }
func (i *info) Mode() FileMode     { return i.mode }
func (i *info) ModTime() time.Time { return time.Unix(1700000000, i.time) }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return nil }

// Stat of an open file.
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if err := begin("stat", f.name); err != nil {
		return nil, err
	}
	return &info{f.name, len(f.n.data), f.n.mode, false, f.n.time}, nil
}

// Stat describes a path.
func Stat(path string) (FileInfo, error) {
	if err := begin("stat", path); err != nil {
		return nil, err
	}
	p := clean(path)
	if dirs[p] {
		return &info{path, 0, 0755 | ModeDir, true, 0}, nil
	}
	n, have := files[p]
	if !have {
		return nil, &PathError{Op: "stat", Path: path, Err: ErrNotExist}
	}
	return &info{path, len(n.data), n.mode, false, n.time}, nil
}

// Lstat describes a path.
func Lstat(path string) (FileInfo, error) { return Stat(path) }

// Remove unlinks.
func Remove(path string) error {
	if err := begin("remove", path); err != nil {
		return err
	}
	p := clean(path)
	if _, have := files[p]; !have {
		if dirs[p] {
			delete(dirs, p)
			return nil
		}
		return &PathError{Op: "remove", Path: path, Err: ErrNotExist}
	}
	delete(files, p)
	return nil
}

// RemoveAll unlinks a tree.
func RemoveAll(path string) error {
	if err := begin("remove", path); err != nil {
		return err
	}
	p := clean(path)
	for _, n := range Names() {
		if n == p || strings.HasPrefix(n, p+"/") {
			delete(files, n)
		}
	}
	return nil
}

// Rename moves atomically.
func Rename(from, to string) error {
	if err := begin("rename", from); err != nil {
		return err
	}
	n, have := files[clean(from)]
	if !have {
		return &LinkError{"rename", from, to, ErrNotExist}
	}
	delete(files, clean(from))
	files[clean(to)] = n
	return nil
}

// Link makes a second name.
func Link(from, to string) error {
	if err := begin("link", from); err != nil {
		return err
	}
	n, have := files[clean(from)]
	if !have {
		return &LinkError{"link", from, to, ErrNotExist}
	}
	if _, have := files[clean(to)]; have {
		return &LinkError{"link", from, to, ErrExist}
	}
	files[clean(to)] = n
	return nil
}

// Truncate cuts a file.
func Truncate(path string, size int64) error {
	if err := begin("truncate", path); err != nil {
		return err
	}
	n, have := files[clean(path)]
	if !have {
		return &PathError{Op: "truncate", Path: path, Err: ErrNotExist}
	}
	n.resize(int(size))
	return nil
}

// Chmod changes the mode.
func Chmod(path string, m FileMode) error {
	if err := begin("chmod", path); err != nil {
		return err
	}
	n, have := files[clean(path)]
	if !have {
		return &PathError{Op: "chmod", Path: path, Err: ErrNotExist}
	}
	n.mode = m
	return nil
}

// Mkdir makes a directory.
func Mkdir(path string, m FileMode) error {
	if err := begin("mkdir", path); err != nil {
		return err
	}
	dirs[clean(path)] = true
	return nil
}

// MkdirAll makes directories.
func MkdirAll(path string, m FileMode) error { return Mkdir(path, m) }

// ReadFile reads a file at once.
func ReadFile(path string) ([]byte, error) {
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := begin("read", path); err != nil {
		return nil, err
	}
	return append([]byte{}, f.n.data...), nil
}

// WriteFile truncates and writes.
func WriteFile(path string, data []byte, perm FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// TempDir is /tmp.
func TempDir() string { return "/tmp" }

// Getenv is empty.
func Getenv(string) string { return "" }

// Getpid is a number.
func Getpid() int { return 4711 }

// IsNotExist as in os.
func IsNotExist(err error) bool { return errors.Is(err, ErrNotExist) }

// IsExist as in os.
func IsExist(err error) bool { return errors.Is(err, ErrExist) }

// IsPermission as in os.
func IsPermission(err error) bool { return errors.Is(err, ErrPermission) }
