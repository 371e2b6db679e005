package zzw

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strconv"
	"syscall"
	"time"
)

// FSys is an in-memory file system with fault and crash injection.
type FSys struct {
	Files map[string][]byte
	Dirs  map[string]bool
	Log   []string
	// Fault is asked before every operation; a non-nil error makes it fail. For
	// writes, partial tells how many bytes reach the file before the failure.
	Fault func(op, path string) (partial int, err error)
	// Step is called at every point where the machine may stop: before and
	// after each operation and between a truncation and the write after it.
	Step func(point string)
	temp int
}

// FS is the current file system; nil is an empty read-only one.
var FS *FSys

func NewFS() *FSys { return &FSys{Files: map[string][]byte{}, Dirs: map[string]bool{}} }

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func (f *FSys) begin(op, path string) (int, error) {
	f.Log = append(f.Log, op+" "+path)
	f.step("before " + op + " " + path)
	if f.Fault != nil {
		n, err := f.Fault(op, path)
		if err != nil {
			return n, perr(op, path, err)
		}
	}
	return 0, nil
}

func (f *FSys) step(p string) {
	if f.Step != nil {
		f.Step(p)
	}
}

// Get returns a copy of a file's contents.
func (f *FSys) Get(path string) ([]byte, bool) {
	b, ok := f.Files[path]
	return append([]byte{}, b...), ok
}

// Set stores a copy as a file's contents.
func (f *FSys) Set(path string, b []byte) { f.Files[path] = append([]byte{}, b...) }

func OsReadFile(path string) ([]byte, error) {
	if FS == nil {
		return nil, perr("open", path, fs.ErrNotExist)
	}
	if _, err := FS.begin("read", path); err != nil {
		return nil, err
	}
	b, ok := FS.Get(path)
	if !ok {
		return nil, perr("open", path, fs.ErrNotExist)
	}
	return b, nil
}

func OsWriteFile(path string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type fileInfo struct {
	name string
	size int64
	dir  bool
}

func (i *fileInfo) Name() string { return i.name }
func (i *fileInfo) Size() int64  { return i.size }
func (i *fileInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i *fileInfo) ModTime() time.Time { return time.Unix(BaseTime, 0) }
func (i *fileInfo) IsDir() bool        { return i.dir }
func (i *fileInfo) Sys() any           { return nil }

func OsStat(path string) (os.FileInfo, error) {
	if FS == nil {
		return nil, perr("stat", path, fs.ErrNotExist)
	}
	if _, err := FS.begin("stat", path); err != nil {
		return nil, err
	}
	if FS.Dirs[path] {
		return &fileInfo{name: path, dir: true}, nil
	}
	b, ok := FS.Files[path]
	if !ok {
		return nil, perr("stat", path, fs.ErrNotExist)
	}
	return &fileInfo{name: path, size: int64(len(b))}, nil
}

func OsTruncate(path string, n int64) error {
	if FS == nil {
		return perr("truncate", path, fs.ErrNotExist)
	}
	if _, err := FS.begin("truncate", path); err != nil {
		return err
	}
	b, ok := FS.Files[path]
	if !ok {
		return perr("truncate", path, fs.ErrNotExist)
	}
	if n < 0 {
		return perr("truncate", path, syscall.EINVAL)
	}
	if int64(len(b)) >= n {
		FS.Files[path] = b[:n:n]
	} else {
		FS.Files[path] = append(b[:len(b):len(b)], make([]byte, int(n)-len(b))...)
	}
	FS.step("after truncate " + path)
	return nil
}

func OsRemove(path string) error {
	if FS == nil {
		return perr("remove", path, fs.ErrNotExist)
	}
	if _, err := FS.begin("remove", path); err != nil {
		return err
	}
	if _, ok := FS.Files[path]; !ok {
		return perr("remove", path, fs.ErrNotExist)
	}
	delete(FS.Files, path)
	FS.step("after remove " + path)
	return nil
}

func OsRename(from, to string) error {
	if FS == nil {
		return perr("rename", from, fs.ErrNotExist)
	}
	if _, err := FS.begin("rename", from); err != nil {
		return err
	}
	b, ok := FS.Files[from]
	if !ok {
		return perr("rename", from, fs.ErrNotExist)
	}
	FS.Files[to] = b
	delete(FS.Files, from)
	FS.step("after rename " + to)
	return nil
}

func OsMkdirAll(path string, perm os.FileMode) error {
	if FS == nil {
		return nil
	}
	if _, err := FS.begin("mkdir", path); err != nil {
		return err
	}
	FS.Dirs[path] = true
	return nil
}

// File is an open file.
type File struct {
	path   string
	pos    int
	append bool
	ro     bool
	wo     bool
	closed bool
}

func OsOpen(path string) (*File, error) { return OsOpenFile(path, os.O_RDONLY, 0) }
func OsCreate(path string) (*File, error) {
	return OsOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OsCreateTemp(dir, pattern string) (*File, error) {
	if FS == nil {
		return nil, perr("createtemp", dir, fs.ErrNotExist)
	}
	FS.temp++
	if dir == "" {
		dir = "/tmp"
	}
	name := pattern + strconv.Itoa(FS.temp)
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			name = pattern[:i] + strconv.Itoa(FS.temp) + pattern[i+1:]
			break
		}
	}
	if dir[len(dir)-1] != '/' {
		dir += "/"
	}
	return OsOpenFile(dir+name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func OsOpenFile(path string, flag int, perm os.FileMode) (*File, error) {
	if FS == nil {
		return nil, perr("open", path, fs.ErrPermission)
	}
	if _, err := FS.begin("open", path); err != nil {
		return nil, err
	}
	_, ok := FS.Files[path]
	if !ok && flag&os.O_CREATE == 0 {
		return nil, perr("open", path, fs.ErrNotExist)
	}
	if ok && flag&os.O_EXCL != 0 {
		return nil, perr("open", path, fs.ErrExist)
	}
	if !ok || flag&os.O_TRUNC != 0 {
		FS.Files[path] = []byte{}
		FS.step("after create " + path)
	}
	return &File{path: path, append: flag&os.O_APPEND != 0, ro: flag&(os.O_WRONLY|os.O_RDWR) == 0, wo: flag&os.O_WRONLY != 0}, nil
}

func (f *File) Name() string { return f.path }

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("write", f.path, fs.ErrClosed)
	}
	if f.ro {
		return 0, perr("write", f.path, syscall.EBADF)
	}
	n, err := FS.begin("write", f.path)
	if err != nil {
		if n > len(b) {
			n = len(b)
		}
	} else {
		n = len(b)
	}
	// a crash may leave any prefix of the data in the file; half of it stands
	// for a proper prefix
	old, ok := FS.Files[f.path]
	if !ok {
		return len(b), nil // unlinked
	}
	if f.append {
		f.pos = len(old)
	}
	if h := n / 2; h > 0 {
		FS.Files[f.path] = splice(old, f.pos, b[:h])
		FS.step("during write " + f.path)
	}
	FS.Files[f.path] = splice(old, f.pos, b[:n])
	f.pos += n
	FS.step("after write " + f.path)
	return n, err
}

func splice(old []byte, pos int, b []byte) []byte {
	var r []byte
	if pos <= len(old) {
		r = append(r, old[:pos]...)
	} else {
		r = append(r, old...)
		r = append(r, make([]byte, pos-len(old))...)
	}
	r = append(r, b...)
	if pos+len(b) < len(old) {
		r = append(r, old[pos+len(b):]...)
	}
	if r == nil {
		r = []byte{}
	}
	return r
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, perr("read", f.path, fs.ErrClosed)
	}
	if f.wo {
		return 0, perr("read", f.path, syscall.EBADF)
	}
	if _, err := FS.begin("read", f.path); err != nil {
		return 0, err
	}
	d := FS.Files[f.path]
	if f.pos >= len(d) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, d[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.pos = int(off)
	case io.SeekCurrent:
		f.pos += int(off)
	default:
		f.pos = len(FS.Files[f.path]) + int(off)
	}
	return int64(f.pos), nil
}

func (f *File) Truncate(n int64) error { return OsTruncate(f.path, n) }

func (f *File) Sync() error {
	if _, err := FS.begin("sync", f.path); err != nil {
		return err
	}
	return nil
}

func (f *File) Chmod(m os.FileMode) error {
	_, err := FS.begin("chmod", f.path)
	return err
}

func (f *File) Stat() (os.FileInfo, error) { return OsStat(f.path) }

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.path, fs.ErrClosed)
	}
	f.closed = true
	_, err := FS.begin("close", f.path)
	return err
}

func (f *File) Closed() bool { return f.closed }

// ErrIO is the error injected by fault plans.
var ErrIO = errors.New("input/output error")

// ---- environment ----

var (
	Env     map[string]string
	Home    = "/home/verif"
	HomeErr error
)

func OsGetenv(k string) string { return Env[k] }
func OsLookupEnv(k string) (string, bool) {
	v, ok := Env[k]
	return v, ok
}
func OsUserHomeDir() (string, error) {
	if HomeErr != nil {
		return "", HomeErr
	}
	return Home, nil
}
