// Package os has the names of the standard package that touch files, on the file system in memory.
package os

import (
	"io"
	"io/fs"
	"os"
	"path"
	"syscall"
	"time"

	"verif/rt"
	"verif/v/memfs"
)

func wrap(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// File is an open file.
type File struct {
	name   string
	ino    *memfs.Inode
	off    int
	flag   int
	closed bool
	listed int
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	ino, err := memfs.Do("open", name, 0, func(x *memfs.FS, _ int) (any, error) {
		n, err := x.Lookup(name)
		switch {
		case err == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
			return nil, syscall.EEXIST
		case err == nil && n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0:
			return nil, syscall.EISDIR
		case err == syscall.ENOENT && flag&os.O_CREATE != 0:
			p, _, err := x.Parent(name)
			if err != nil {
				return nil, err
			}
			n = &memfs.Inode{Mode: perm &^ 0o22, MTime: rt.VirtualNow()}
			x.Link(p, name, n)
		case err != nil:
			return nil, err
		}
		if flag&os.O_TRUNC != 0 {
			x.Writes(n)
			n.Data = nil
			n.MTime = rt.VirtualNow()
		}
		return n, nil
	})
	if err != nil {
		return nil, wrap("open", name, err)
	}
	return &File{name: name, ino: ino.(*memfs.Inode), flag: flag}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return wrap(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	ino, off, n := f.ino, f.off, len(b)
	data, err := memfs.Do("read", f.name, 0, func(x *memfs.FS, _ int) (any, error) {
		if ino.Dir {
			return nil, syscall.EISDIR
		}
		x.Reads(ino)
		d := ino.Data[min(off, len(ino.Data)):]
		return d[:min(len(d), n)], nil
	})
	if err != nil {
		return 0, wrap("read", f.name, err)
	}
	got := memfs.Bytes(nil, data)
	copy(b, got)
	f.off += len(got)
	if len(got) == 0 {
		return 0, io.EOF
	}
	return len(got), nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	old := f.off
	f.off = int(off)
	n, err := f.Read(b)
	f.off = old
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) write(b []byte, at int) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, wrap("write", f.name, syscall.EBADF)
	}
	data := append([]byte(nil), b...)
	ino, flag := f.ino, f.flag
	done, err := memfs.Do("write", f.name, len(data), func(x *memfs.FS, part int) (any, error) {
		x.Writes(ino)
		off := at
		if flag&os.O_APPEND != 0 {
			off = len(ino.Data)
		}
		d := append([]byte(nil), ino.Data...)
		for len(d) < off+part {
			d = append(d, 0)
		}
		copy(d[off:], data[:part])
		ino.Data = d
		ino.MTime = rt.VirtualNow()
		return part, nil
	})
	n := 0
	if done != nil {
		n = memfs.Int(done)
	}
	return n, wrap("write", f.name, err)
}

func (f *File) Write(b []byte) (int, error) {
	n, err := f.write(b, f.off)
	f.off += n
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.write(b, int(off)) }
func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		offset += int64(f.off)
	case io.SeekEnd:
		offset += int64(len(f.ino.Data))
	}
	if offset < 0 {
		return 0, wrap("seek", f.name, syscall.EINVAL)
	}
	f.off = int(offset)
	return offset, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	ino := f.ino
	_, err := memfs.Do("truncate", f.name, 0, func(x *memfs.FS, _ int) (any, error) { return nil, truncate(x, ino, size) })
	return wrap("truncate", f.name, err)
}

func truncate(x *memfs.FS, n *memfs.Inode, size int64) error {
	x.Writes(n)
	if n.Dir || size < 0 {
		return syscall.EINVAL
	}
	d := append([]byte(nil), n.Data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	n.Data = d[:size]
	return nil
}

func Truncate(name string, size int64) error {
	_, err := memfs.Do("truncate", name, 0, func(x *memfs.FS, _ int) (any, error) {
		n, err := x.Lookup(name)
		if err != nil {
			return nil, err
		}
		return nil, truncate(x, n, size)
	})
	return wrap("truncate", name, err)
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	_, err := memfs.Do("sync", f.name, 0, func(*memfs.FS, int) (any, error) { return nil, nil })
	return wrap("sync", f.name, err)
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error { return Chmod(f.name, mode) }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	ino, name := f.ino, f.name
	v, err := memfs.Do("stat", name, 0, func(x *memfs.FS, _ int) (any, error) {
		x.Reads(ino)
		return memfs.RawOf(name, ino), nil
	})
	if err != nil {
		return nil, wrap("stat", name, err)
	}
	i, _ := memfs.InfoAt(v, 0)
	return i, nil
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	all, err := ReadDir(f.name)
	if err != nil {
		return nil, err
	}
	all = all[min(f.listed, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		all = all[:min(n, len(all))]
	}
	f.listed += len(all)
	return all, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var is []fs.FileInfo
	for _, e := range es {
		if i, err := e.Info(); err == nil {
			is = append(is, i)
		}
	}
	return is, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var is []string
	for _, e := range es {
		is = append(is, e.Name())
	}
	return is, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ino := f.ino
	data, err := memfs.Do("read", name, 0, func(x *memfs.FS, _ int) (any, error) {
		if ino.Dir {
			return nil, syscall.EISDIR
		}
		x.Reads(ino)
		return ino.Data, nil
	})
	if err != nil {
		return nil, wrap("read", name, err)
	}
	return memfs.Bytes(nil, data), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	v, err := memfs.Do("stat", name, 0, func(x *memfs.FS, _ int) (any, error) {
		n, err := x.Lookup(name)
		if err != nil {
			return nil, err
		}
		x.Reads(n)
		return memfs.RawOf(name, n), nil
	})
	if err != nil {
		return nil, wrap("stat", name, err)
	}
	i, _ := memfs.InfoAt(v, 0)
	return i, nil
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm fs.FileMode) error {
	_, err := memfs.Do("mkdir", name, 0, func(x *memfs.FS, _ int) (any, error) { return nil, x.Mkdir(name, perm) })
	return wrap("mkdir", name, err)
}

func MkdirAll(name string, perm fs.FileMode) error {
	i, err := Stat(name)
	if err == nil {
		if i.IsDir() {
			return nil
		}
		return wrap("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(name); d != name && d != "." && d != "/" {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err = Mkdir(name, perm)
	if err != nil {
		if i, err1 := Stat(name); err1 == nil && i.IsDir() {
			return nil
		}
	}
	return err
}

func Remove(name string) error {
	_, err := memfs.Do("remove", name, 0, func(x *memfs.FS, _ int) (any, error) { return nil, x.Remove(name) })
	return wrap("remove", name, err)
}

func RemoveAll(name string) error {
	es, err := ReadDir(name)
	if err == nil {
		for _, e := range es {
			if err := RemoveAll(name + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	if err := Remove(name); err != nil && !os.IsNotExist(err) {
		return err
	}
	return nil
}

func Rename(from, to string) error {
	_, err := memfs.Do("rename", from+" "+to, 0, func(x *memfs.FS, _ int) (any, error) { return nil, x.Rename(from, to) })
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	return nil
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	v, err := memfs.Do("readdir", name, 0, func(x *memfs.FS, _ int) (any, error) {
		n, err := x.Lookup(name)
		if err != nil {
			return nil, err
		}
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		x.Lists(name)
		var rs []memfs.Raw
		for _, k := range n.Names() {
			rs = append(rs, memfs.RawOf(k, n.Kids[k]))
		}
		return rs, nil
	})
	if err != nil {
		return nil, wrap("open", name, err)
	}
	var es []fs.DirEntry
	for i := 0; ; i++ {
		in, n := memfs.InfoAt(v, i)
		if i >= n {
			return es, nil
		}
		es = append(es, fs.FileInfoToDirEntry(in))
	}
}

func Chmod(name string, mode fs.FileMode) error {
	_, err := memfs.Do("chmod", name, 0, func(x *memfs.FS, _ int) (any, error) {
		n, err := x.Lookup(name)
		if err == nil {
			x.Writes(n)
			n.Mode = mode
		}
		return nil, err
	})
	return wrap("chmod", name, err)
}

func Chtimes(name string, _, mtime time.Time) error {
	t := mtime.UnixNano()
	_, err := memfs.Do("chtimes", name, 0, func(x *memfs.FS, _ int) (any, error) {
		n, err := x.Lookup(name)
		if err == nil {
			x.Writes(n)
			n.MTime = t
		}
		return nil, err
	})
	return wrap("chtimes", name, err)
}

func TempDir() string        { return "/tmp" }
func Getwd() (string, error) { return "/", nil }
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*memfs.Info)
	y, ok2 := b.(*memfs.Info)
	return ok && ok2 && x.In == y.In
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func tempName(dir, pattern string) string {
	v, _ := memfs.Do("random", "name", 0, func(x *memfs.FS, _ int) (any, error) {
		x.Random()
		return []byte(x.TempName(dir, pattern)), nil
	})
	return string(memfs.Bytes(nil, v))
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	name := tempName(dir, pattern)
	return name, Mkdir(name, 0o700)
}
