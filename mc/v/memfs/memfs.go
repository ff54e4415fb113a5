// Package memfs is a file system in memory. Every access is a step of the scheduler, can be
// made to fail, and can be the last one before a crash.
package memfs

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/rt"
)

// Inode is a file or directory.
type Inode struct {
	Dir   bool
	Data  []byte
	Kids  map[string]*Inode
	Mode  fs.FileMode
	MTime int64
	id    string
}

// FS is the file system of the running execution.
type FS struct {
	Root *Inode
	acc  []rt.Touch     // accesses of the current step
	gen  map[string]int // how many files a path has had

	// a run with faults
	Steps   int      // steps done
	Log     []string // what they were, if Logging
	Logging bool
	// Hook, if set, is asked before every step. For a write of n bytes, it may tell to write only
	// part of them.
	Hook func(step int, op, name string, n int) (err error, part int)
	// Crashed: nothing works until Reboot.
	Crashed bool
	// Watch: the steps of goroutines started by the code under test are ordered and noted.
	Watch bool
	Span  map[int][2]int // by goroutine: first and last step
	tmp   int
}

// Cur is the file system in use. The harness replaces it at the start of an execution.
var Cur = New()

// New makes an empty file system.
func New() *FS {
	return &FS{Root: &Inode{Dir: true, Kids: map[string]*Inode{}, Mode: 0o755}, gen: map[string]int{}, Span: map[int][2]int{}}
}

func (x *FS) touch(key string, write bool) { x.acc = append(x.acc, rt.Touch{Key: key, Write: write}) }

// Reads notes that the step depends on the contents of a file.
func (x *FS) Reads(n *Inode) { x.touch("data "+n.id, false) }

// Writes notes that the step changes the contents of a file.
func (x *FS) Writes(n *Inode) { x.touch("data "+n.id, true) }

// Lists notes that the step depends on what is in a directory.
func (x *FS) Lists(name string) { x.touch("list "+clean(name), false) }

// Random notes that the step takes the next random name.
func (x *FS) Random() { x.touch("random", true) }

// changes notes that the entry for a path comes or goes.
func (x *FS) changes(name string) {
	name = clean(name)
	x.touch("entry "+name, true)
	x.touch("list "+path.Dir(name), true)
}

// Link puts a new file or directory at a path.
func (x *FS) Link(p *Inode, name string, n *Inode) {
	name = clean(name)
	x.gen[name]++
	n.id = name + "#" + strconv.Itoa(x.gen[name])
	p.Kids[path.Base(name)] = n
	x.changes(name)
}

// Reset installs an empty file system with the directory of temporary files.
func Reset() *FS {
	Cur = New()
	Cur.Root.Kids["tmp"] = &Inode{Dir: true, Kids: map[string]*Inode{}, Mode: 0o777}
	return Cur
}

type out struct {
	v   any
	err error
}

// The driver's results are read where the race detector does not see it: it would take them for
// unsynchronized.

//go:norace
func unbox(v any) (any, error) {
	o := v.(out)
	return o.v, o.err
}

// Bytes copies a result out.
//
//go:norace
func Bytes(dst []byte, v any) []byte {
	src := v.([]byte)
	if dst == nil {
		dst = make([]byte, len(src))
	}
	for i := 0; i < len(src); i++ {
		dst[i] = src[i]
	}
	return dst
}

//go:norace
func str(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i]
	}
	return string(b)
}

// Int copies a result out.
//
//go:norace
func Int(v any) int { return v.(int) }

// Do is a step. n is the number of bytes to be written, if any.
func Do(op, name string, n int, f func(x *FS, part int) (any, error)) (any, error) {
	x := Cur
	return unbox(rt.Step(op+" "+name, func() (any, []rt.Touch) {
		x.acc = x.acc[:0]
		v := x.do(op, name, n, f)
		if x.Watch {
			if id, own := rt.Running(); own {
				x.touch("background", true)
				sp, ok := x.Span[id]
				if !ok {
					sp[0] = x.Steps
				}
				sp[1] = x.Steps
				x.Span[id] = sp
			}
		}
		return v, x.acc
	}))
}

func (x *FS) do(op, name string, n int, f func(x *FS, part int) (any, error)) any {
	part := n
	var err error
	if x.Crashed {
		err = syscall.EIO
	} else if x.Hook != nil {
		err, part = x.Hook(x.Steps, op, name, n)
	}
	x.Steps++
	if x.Logging {
		x.Log = append(x.Log, op+" "+name)
	}
	if err != nil {
		var v any
		if part > 0 && n > 0 {
			v, _ = f(x, part)
		}
		return out{v, err}
	}
	v, err := f(x, part)
	return out{v, err}
}

func clean(p string) string { return path.Clean("/" + p) }

// Lookup finds a file.
func (x *FS) Lookup(name string) (*Inode, error) {
	if name == "" {
		return nil, syscall.ENOENT
	}
	n := x.Root
	x.touch("everything", false)
	at := ""
	for _, part := range strings.Split(clean(name), "/") {
		if part == "" {
			continue
		}
		at += "/" + part
		x.touch("entry "+at, false)
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		k := n.Kids[part]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

// Parent finds the directory of a file.
func (x *FS) Parent(name string) (*Inode, string, error) {
	if name == "" {
		return nil, "", syscall.ENOENT
	}
	dir, base := path.Split(clean(name))
	if base == "" {
		return nil, "", syscall.EBUSY
	}
	n, err := x.Lookup(dir)
	if err != nil {
		return nil, "", err
	}
	if !n.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, base, nil
}

// Names lists a directory.
func (n *Inode) Names() []string {
	var s []string
	for k := range n.Kids {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Mkdir makes a directory.
func (x *FS) Mkdir(name string, perm fs.FileMode) error {
	p, base, err := x.Parent(name)
	if err == syscall.EBUSY {
		return syscall.EEXIST
	}
	if err != nil {
		return err
	}
	x.touch("entry "+clean(name), false)
	if p.Kids[base] != nil {
		return syscall.EEXIST
	}
	x.Link(p, name, &Inode{Dir: true, Kids: map[string]*Inode{}, Mode: perm, MTime: rt.VirtualNow()})
	return nil
}

// Remove removes a file or an empty directory.
func (x *FS) Remove(name string) error {
	p, base, err := x.Parent(name)
	if err != nil {
		return err
	}
	x.touch("entry "+clean(name), false)
	n := p.Kids[base]
	if n == nil {
		return syscall.ENOENT
	}
	if n.Dir {
		x.Lists(name)
	}
	if len(n.Kids) > 0 {
		return syscall.ENOTEMPTY
	}
	delete(p.Kids, base)
	x.changes(name)
	return nil
}

// Rename moves a file.
func (x *FS) Rename(from, to string) error {
	p, b, err := x.Parent(from)
	if err != nil {
		return err
	}
	x.touch("entry "+clean(from), false)
	n := p.Kids[b]
	if n == nil {
		return syscall.ENOENT
	}
	if n.Dir { // everything below moves
		x.touch("everything", true)
	}
	q, c, err := x.Parent(to)
	if err != nil {
		return err
	}
	if o := q.Kids[c]; o != nil && o != n {
		if o.Dir != n.Dir {
			if o.Dir {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if len(o.Kids) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	x.touch("entry "+clean(to), false)
	delete(p.Kids, b)
	q.Kids[c] = n
	x.changes(from)
	x.changes(to)
	return nil
}

// Files returns all files with their contents.
func (x *FS) Files() map[string][]byte {
	m := map[string][]byte{}
	var walk func(p string, n *Inode)
	walk = func(p string, n *Inode) {
		if !n.Dir {
			m[p] = n.Data
			return
		}
		for _, k := range n.Names() {
			walk(p+"/"+k, n.Kids[k])
		}
	}
	walk("", x.Root)
	return m
}

// Overlap reports background work that goes on at once.
func (x *FS) Overlap() error {
	for a, s := range x.Span {
		for b, t := range x.Span {
			if a < b && s[0] < t[1] && t[0] < s[1] {
				return fmt.Errorf("two cleanings at once: goroutine %d makes file operations from %d to %d, goroutine %d from %d to %d", a, s[0], s[1], b, t[0], t[1])
			}
		}
	}
	return nil
}

// Names lists the files below a directory.
func (x *FS) Names(prefix string) []string {
	var l []string
	for f := range x.Files() {
		if strings.HasPrefix(f, prefix) {
			l = append(l, f)
		}
	}
	sort.Strings(l)
	return l
}

// TempName makes a new name from a pattern.
func (x *FS) TempName(dir, pattern string) string {
	x.tmp++
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return path.Join(dir, pre+strings.Repeat("0", 8)+string(rune('0'+x.tmp/10%10))+string(rune('0'+x.tmp%10))+suf)
}

// Info describes a file.
type Info struct {
	N  string
	S  int64
	M  fs.FileMode
	T  time.Time
	D  bool
	In *Inode
}

func (i *Info) Name() string       { return i.N }
func (i *Info) Size() int64        { return i.S }
func (i *Info) ModTime() time.Time { return i.T }
func (i *Info) IsDir() bool        { return i.D }
func (i *Info) Sys() any           { return nil }
func (i *Info) Mode() fs.FileMode {
	if i.D {
		return i.M | fs.ModeDir
	}
	return i.M
}

// Raw is an Info on its way out of the driver.
type Raw struct {
	name string
	size int64
	mode fs.FileMode
	t    int64
	dir  bool
	in   *Inode
}

// RawOf makes a Raw.
func RawOf(name string, n *Inode) Raw {
	return Raw{path.Base(clean(name)), int64(len(n.Data)), n.Mode, n.MTime, n.Dir, n}
}

func info(name string, r Raw) *Info {
	return &Info{name, r.size, r.mode, time.Unix(0, r.t), r.dir, r.in}
}

//go:norace
func raw(v any, i int) (r Raw, name string, n int) {
	switch v := v.(type) {
	case Raw:
		r, n = v, 1
	case []Raw:
		n = len(v)
		if i < n {
			r = v[i]
		}
	}
	return r, str(r.name), n
}

// InfoAt copies the i-th Info out; n is their number.
func InfoAt(v any, i int) (in *Info, n int) {
	r, name, n := raw(v, i)
	return info(name, r), n
}
