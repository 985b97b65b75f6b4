// Package os models the operating system's files: a tree in memory that outlives processes.
// A process may be killed before every operation that changes the tree and in the middle of a write;
// what was done before stays (as after SIGKILL; loss of the machine's page cache is outside the model).
package os

import (
	"errors"
	"io"
	"io/fs"
	"syscall"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

type node struct {
	dir  bool
	data []byte
	kids map[string]*node
	mode fs.FileMode
}

var (
	fsRoot = &node{dir: true, kids: map[string]*node{}}

	ErrNotExist         = fs.ErrNotExist
	ErrExist            = fs.ErrExist
	ErrPermission       = fs.ErrPermission
	ErrInvalid          = fs.ErrInvalid
	ErrClosed           = fs.ErrClosed
	ErrDeadlineExceeded = errors.New("i/o timeout")
	Args                = []string{"prog"}
	Stdin               = &File{name: "stdin", std: true}
	Stdout              = &File{name: "stdout", std: true}
	Stderr              = &File{name: "stderr", std: true}
)

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func split(path string) ([]string, error) {
	if path == "" {
		return nil, syscall.ENOENT
	}
	var l []string
	start := 0
	for i := 0; i <= len(path); i++ {
		if i == len(path) || path[i] == '/' {
			c := path[start:i]
			start = i + 1
			if len(c) > 255 {
				return nil, syscall.ENAMETOOLONG
			}
			if c == "" || c == "." {
				continue
			}
			l = append(l, c)
		} else if path[i] == 0 {
			return nil, syscall.EINVAL
		}
	}
	return l, nil
}

// walk finds the node for path (nil if the last component is missing), its parent and its name.
func walk(path string) (parent *node, name string, n *node, err error) {
	l, err := split(path)
	if err != nil {
		return nil, "", nil, err
	}
	stack := []*node{fsRoot}
	n = fsRoot
	parent = fsRoot
	for i, c := range l {
		if !n.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			n = stack[len(stack)-1]
			parent = n
			name = ""
			continue
		}
		parent = n
		name = c
		k, ok := n.kids[c]
		if !ok {
			if i == len(l)-1 {
				return parent, name, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		n = k
		stack = append(stack, n)
	}
	return parent, name, n, nil
}

func point(op, path string) error {
	sym.Yield()
	if sym.CrashHere(sym.Tag(op, path)) {
		sym.Crash()
	}
	if sym.FaultHere() {
		return syscall.ENOSPC
	}
	return nil
}

func errno(err error) error { return err }

func IsNotExist(err error) bool   { return is(err, fs.ErrNotExist) }
func IsExist(err error) bool      { return is(err, fs.ErrExist) }
func IsPermission(err error) bool { return is(err, fs.ErrPermission) }
func IsTimeout(err error) bool    { return false }

func is(err error, target error) bool {
	switch e := err.(type) {
	case *fs.PathError:
		err = e.Err
	case *LinkError:
		err = e.Err
	}
	if err == target {
		return true
	}
	if e, ok := err.(syscall.Errno); ok {
		switch target {
		case fs.ErrNotExist:
			return e == syscall.ENOENT
		case fs.ErrExist:
			return e == syscall.EEXIST || e == syscall.ENOTEMPTY
		case fs.ErrPermission:
			return e == syscall.EACCES || e == syscall.EPERM
		}
	}
	return false
}

// LinkError is like the error of rename.
type LinkError struct {
	Op  string
	Old string
	New string
	Err error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

func Mkdir(path string, perm fs.FileMode) error {
	parent, name, n, err := walk(path)
	if err != nil {
		return perr("mkdir", path, err)
	}
	if n != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	if err := point("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	parent.kids[name] = &node{dir: true, kids: map[string]*node{}, mode: perm | fs.ModeDir}
	return nil
}

func MkdirAll(path string, perm fs.FileMode) error {
	_, _, n, err := walk(path)
	if err == nil && n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	l, e := split(path)
	if e != nil {
		return perr("mkdir", path, e)
	}
	cur := ""
	for _, c := range l {
		cur += "/" + c
		_, _, n, err := walk(cur)
		if err != nil {
			return perr("mkdir", cur, err)
		}
		if n != nil {
			if !n.dir {
				return perr("mkdir", cur, syscall.ENOTDIR)
			}
			continue
		}
		if err := Mkdir(cur, perm); err != nil {
			return err
		}
	}
	return nil
}

func Stat(path string) (fs.FileInfo, error) {
	_, name, n, err := walk(path)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("stat", path, err)
	}
	return &info{name, n}, nil
}

func Lstat(path string) (fs.FileInfo, error) { return Stat(path) }

func ReadFile(path string) ([]byte, error) {
	if sym.ReadFaultHere() {
		return nil, perr("open", path, syscall.EMFILE)
	}
	_, _, n, err := walk(path)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("open", path, err)
	}
	if n.dir {
		return nil, perr("read", path, syscall.EISDIR)
	}
	sym.Yield()
	return append(make([]byte, 0, len(n.data)), n.data...), nil
}

func WriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Remove(path string) error {
	parent, name, n, err := walk(path)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.dir && len(n.kids) > 0 {
		err = syscall.ENOTEMPTY
	}
	if err == nil && name == "" {
		err = syscall.EBUSY
	}
	if err != nil {
		return perr("remove", path, err)
	}
	if err := point("remove", path); err != nil {
		return perr("remove", path, err)
	}
	delete(parent.kids, name)
	return nil
}

func RemoveAll(path string) error {
	parent, name, n, err := walk(path)
	if err != nil {
		if err == syscall.ENOENT || err == syscall.ENOTDIR {
			return nil
		}
		return perr("unlinkat", path, err)
	}
	if n == nil {
		return nil
	}
	if err := point("removeall", path); err != nil {
		return perr("unlinkat", path, err)
	}
	if name == "" {
		n.kids = map[string]*node{}
		return nil
	}
	delete(parent.kids, name)
	return nil
}

func Rename(from, to string) error {
	p1, n1, a, err := walk(from)
	if err == nil && a == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	p2, n2, b, err := walk(to)
	if err == nil && b != nil && b != a {
		switch {
		case b.dir && !a.dir:
			err = syscall.EEXIST
		case !b.dir && a.dir:
			err = syscall.ENOTDIR
		case b.dir && len(b.kids) > 0:
			err = syscall.ENOTEMPTY
		}
	}
	if err != nil {
		return &LinkError{"rename", from, to, err}
	}
	if err := point("rename", from); err != nil {
		return &LinkError{"rename", from, to, err}
	}
	if a == b {
		return nil
	}
	delete(p1.kids, n1)
	p2.kids[n2] = a
	return nil
}

func Link(from, to string) error {
	_, _, a, err := walk(from)
	if err == nil && a == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return &LinkError{"link", from, to, err}
	}
	p2, n2, b, err := walk(to)
	if err == nil && b != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &LinkError{"link", from, to, err}
	}
	if err := point("link", from); err != nil {
		return &LinkError{"link", from, to, err}
	}
	p2.kids[n2] = a
	return nil
}

func Truncate(path string, size int64) error {
	f, err := OpenFile(path, O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func Chmod(path string, m fs.FileMode) error              { return nil }
func Chtimes(path string, a time.Time, m time.Time) error { return nil }

func sortedKids(n *node) []string {
	var l []string
	for k := range n.kids {
		l = append(l, k)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func ReadDir(path string) ([]fs.DirEntry, error) {
	if sym.ReadFaultHere() {
		return nil, perr("open", path, syscall.EMFILE)
	}
	_, _, n, err := walk(path)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", path, err)
	}
	sym.Yield()
	var out []fs.DirEntry
	for _, k := range sortedKids(n) {
		out = append(out, &info{k, n.kids[k]})
	}
	return out, nil
}

type info struct {
	name string
	n    *node
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return int64(len(i.n.data)) }
func (i *info) Mode() fs.FileMode          { return i.n.mode }
func (i *info) ModTime() time.Time         { return time.Time{} }
func (i *info) IsDir() bool                { return i.n.dir }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return i.n.mode & fs.ModeType }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200
)

// File is an open file.
type File struct {
	name   string
	n      *node
	off    int
	flag   int
	closed bool
	std    bool
	listed int
}

func Open(path string) (*File, error)   { return OpenFile(path, O_RDONLY, 0) }
func Create(path string) (*File, error) { return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(path string, flag int, perm fs.FileMode) (*File, error) {
	if flag&(O_WRONLY|O_RDWR) == 0 && sym.ReadFaultHere() {
		return nil, perr("open", path, syscall.EMFILE)
	}
	parent, name, n, err := walk(path)
	if err == nil {
		switch {
		case n == nil && flag&O_CREATE == 0:
			err = syscall.ENOENT
		case n != nil && flag&O_EXCL != 0 && flag&O_CREATE != 0:
			err = syscall.EEXIST
		case n != nil && n.dir && flag&(O_WRONLY|O_RDWR) != 0:
			err = syscall.EISDIR
		}
	}
	if err != nil {
		return nil, perr("open", path, err)
	}
	if n == nil {
		if err := point("create", path); err != nil {
			return nil, perr("open", path, err)
		}
		n = &node{mode: perm}
		parent.kids[name] = n
	} else if flag&O_TRUNC != 0 && len(n.data) > 0 {
		if err := point("truncate", path); err != nil {
			return nil, perr("open", path, err)
		}
		n.data = nil
	}
	return &File{name: path, n: n, flag: flag}, nil
}

var tempN int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
		MkdirAll(dir, 0777)
	}
	pre, suf := pattern, ""
	for i := 0; i < len(pattern); i++ {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
		}
	}
	tempN++
	return OpenFile(dir+"/"+pre+"T"+string(rune('0'+tempN%10))+string(rune('0'+tempN/10%10))+suf, O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tempN++
	d := dir + "/" + pattern + "D" + string(rune('0'+tempN%10)) + string(rune('0'+tempN/10%10))
	return d, MkdirAll(d, 0700)
}

func TempDir() string { return "/tmp" }

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.std {
		return len(b), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.flag&O_APPEND != 0 {
		f.off = len(f.n.data)
	}
	sym.Yield()
	if sym.FaultHere() {
		f.put(b[:len(b)/2])
		return len(b) / 2, perr("write", f.name, syscall.ENOSPC)
	}
	if sym.CrashHere(sym.Tag("write", f.name)) {
		f.put(b[:len(b)*sym.Partial()/2])
		sym.Crash()
	}
	f.put(b)
	return len(b), nil
}

func (f *File) put(b []byte) {
	d := append(make([]byte, 0, f.off+len(b)), f.n.data...)
	for len(d) < f.off {
		d = append(d, 0)
	}
	tail := []byte(nil)
	if f.off+len(b) < len(d) {
		tail = d[f.off+len(b):]
	}
	d = append(append(d[:f.off:f.off], b...), tail...)
	f.n.data = d
	f.off += len(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if f != nil && f.std {
		return 0, io.EOF
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	b, err := io.ReadAll(onlyReader{f})
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

type onlyReader struct{ f *File }

func (r onlyReader) Read(b []byte) (int, error) { return r.f.Read(b) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		f.off = len(f.n.data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := point("truncate", f.name); err != nil {
		return perr("truncate", f.name, err)
	}
	d := append([]byte{}, f.n.data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	f.n.data = d[:size]
	return nil
}

func (f *File) Close() error {
	if f != nil && f.std {
		return nil
	}
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	return nil
}

func (f *File) Sync() error                 { return f.check("sync") }
func (f *File) Chmod(m fs.FileMode) error   { return nil }
func (f *File) Fd() uintptr                 { return 3 }
func (f *File) Stat() (fs.FileInfo, error)  { return &info{base(f.name), f.n}, nil }
func (f *File) SetDeadline(time.Time) error { return nil }

func base(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.n.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	var out []fs.DirEntry
	l := sortedKids(f.n)
	for f.listed < len(l) && (n <= 0 || len(out) < n) {
		out = append(out, &info{l[f.listed], f.n.kids[l[f.listed]]})
		f.listed++
	}
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range l {
		out = append(out, e.(*info))
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

func Exit(code int) { sym.Exit(code) }

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Getpid() int                     { return 1 }
func Getwd() (string, error)          { return "/", nil }
func Hostname() (string, error)       { return "host", nil }
