package zzw

import (
	"embed"
	"errors"
	"io"
	"io/fs"
	"time"
)

// EmbedFiles, when set, replaces the contents of the embedded file system.
var EmbedFiles map[string]string

// EmbedErr is returned for the named files.
var EmbedErr map[string]error

// EmbedFS is an embedded file system.
type EmbedFS struct{ real *embed.FS }

func NewEmbed(f *embed.FS) EmbedFS { return EmbedFS{f} }

var errEmbedMissing = errors.New("file does not exist")

type embedEntry struct {
	name string
	dir  bool
	data string
	off  int
}

func (e *embedEntry) Name() string               { return e.name }
func (e *embedEntry) IsDir() bool                { return e.dir }
func (e *embedEntry) Info() (fs.FileInfo, error) { return e, nil }
func (e *embedEntry) Size() int64                { return int64(len(e.data)) }
func (e *embedEntry) ModTime() time.Time         { return time.Time{} }
func (e *embedEntry) Sys() any                   { return nil }
func (e *embedEntry) Stat() (fs.FileInfo, error) { return e, nil }
func (e *embedEntry) Close() error               { return nil }
func (e *embedEntry) Type() fs.FileMode          { return e.Mode().Type() }
func (e *embedEntry) Mode() fs.FileMode {
	if e.dir {
		return fs.ModeDir | 0o555
	}
	return 0o444
}
func (e *embedEntry) Read(b []byte) (int, error) {
	if e.off >= len(e.data) {
		return 0, io.EOF
	}
	n := copy(b, e.data[e.off:])
	e.off += n
	return n, nil
}

func (f EmbedFS) list(dir string) (out []*embedEntry, found bool) {
	p := dir + "/"
	if dir == "." {
		p, found = "", true
	}
	for n, d := range EmbedFiles {
		if len(n) <= len(p) || n[:len(p)] != p {
			continue
		}
		found = true
		e := &embedEntry{name: n[len(p):], data: d}
		for i := 0; i < len(e.name); i++ {
			if e.name[i] == '/' {
				e.name, e.data, e.dir = e.name[:i], "", true
			}
		}
		k := 0
		for k < len(out) && out[k].name < e.name {
			k++
		}
		if k < len(out) && out[k].name == e.name {
			continue
		}
		out = append(out, nil)
		copy(out[k+1:], out[k:])
		out[k] = e
	}
	return
}

func (f EmbedFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if err := EmbedErr[name]; err != nil {
		return nil, err
	}
	if EmbedFiles == nil {
		return f.real.ReadDir(name)
	}
	l, ok := f.list(name)
	if !ok {
		return nil, errEmbedMissing
	}
	var out []fs.DirEntry
	for _, e := range l {
		out = append(out, e)
	}
	return out, nil
}

func (f EmbedFS) ReadFile(name string) ([]byte, error) {
	if err := EmbedErr[name]; err != nil {
		return nil, err
	}
	if EmbedFiles == nil {
		return f.real.ReadFile(name)
	}
	if d, ok := EmbedFiles[name]; ok {
		return []byte(d), nil
	}
	return nil, errEmbedMissing
}

func (f EmbedFS) Open(name string) (fs.File, error) {
	if err := EmbedErr[name]; err != nil {
		return nil, err
	}
	if EmbedFiles == nil {
		return f.real.Open(name)
	}
	if d, ok := EmbedFiles[name]; ok {
		return &embedEntry{name: name, data: d}, nil
	}
	if _, ok := f.list(name); ok {
		return &embedEntry{name: name, dir: true}, nil
	}
	return nil, errEmbedMissing
}
