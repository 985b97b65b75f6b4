// Package vos is the real os package with the crash and fault points of the model of it.
// Native replays of a counterexample use it in place of os in the code under check.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	LinkError = os.LinkError
)

const (
	O_RDONLY      = os.O_RDONLY
	O_WRONLY      = os.O_WRONLY
	O_RDWR        = os.O_RDWR
	O_APPEND      = os.O_APPEND
	O_CREATE      = os.O_CREATE
	O_EXCL        = os.O_EXCL
	O_SYNC        = os.O_SYNC
	O_TRUNC       = os.O_TRUNC
	ModePerm      = os.ModePerm
	ModeDir       = os.ModeDir
	PathSeparator = os.PathSeparator
)

var (
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrPermission = os.ErrPermission
	ErrInvalid    = os.ErrInvalid
	ErrClosed     = os.ErrClosed
	Args          = os.Args
	Stdin         = os.Stdin
	Stdout        = os.Stdout
	Stderr        = os.Stderr

	IsNotExist   = os.IsNotExist
	IsExist      = os.IsExist
	IsPermission = os.IsPermission
	Stat         = os.Stat
	Lstat        = os.Lstat
	TempDir      = os.TempDir
	Getenv       = os.Getenv
	LookupEnv    = os.LookupEnv
	Getpid       = os.Getpid
	Getwd        = os.Getwd
	Hostname     = os.Hostname
	Exit         = os.Exit
	Chmod        = os.Chmod
	Chtimes      = os.Chtimes
)

func point(op, path string) error {
	if sym.CrashHere(sym.Tag(op, path)) {
		sym.Crash()
	}
	if sym.FaultHere() {
		return syscall.ENOSPC
	}
	return nil
}

func ReadFile(path string) ([]byte, error) {
	if sym.ReadFaultHere() {
		return nil, perr("open", path, syscall.EMFILE)
	}
	return os.ReadFile(path)
}

func ReadDir(path string) ([]DirEntry, error) {
	if sym.ReadFaultHere() {
		return nil, perr("open", path, syscall.EMFILE)
	}
	return os.ReadDir(path)
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func Mkdir(path string, perm fs.FileMode) error {
	if _, err := os.Lstat(path); err != nil {
		if err := point("mkdir", path); err != nil {
			return perr("mkdir", path, err)
		}
	}
	return os.Mkdir(path, perm)
}

func MkdirAll(path string, perm fs.FileMode) error {
	if fi, err := os.Stat(path); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	clean := filepath.Clean(path)
	parts := strings.Split(clean, "/")
	cur := ""
	for i, c := range parts {
		if i > 0 {
			cur += "/"
		}
		cur += c
		if cur == "" || cur == "/" {
			continue
		}
		if _, err := os.Stat(cur); err == nil {
			continue
		}
		if err := Mkdir(cur, perm); err != nil {
			return err
		}
	}
	return nil
}

func Remove(path string) error {
	if _, err := os.Lstat(path); err == nil {
		if err := point("remove", path); err != nil {
			return perr("remove", path, err)
		}
	}
	return os.Remove(path)
}

func RemoveAll(path string) error {
	if _, err := os.Lstat(path); err == nil {
		if err := point("removeall", path); err != nil {
			return perr("unlinkat", path, err)
		}
	}
	return os.RemoveAll(path)
}

func Rename(from, to string) error {
	if _, err := os.Lstat(from); err == nil {
		if err := point("rename", from); err != nil {
			return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
		}
	}
	return os.Rename(from, to)
}

func Link(from, to string) error {
	if err := point("link", to); err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	return os.Link(from, to)
}

func Truncate(path string, n int64) error {
	if err := point("truncate", path); err != nil {
		return perr("truncate", path, err)
	}
	return os.Truncate(path, n)
}

func WriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// File is an open file with crash and fault points.
type File struct{ *os.File }

func Open(path string) (*File, error)   { return OpenFile(path, O_RDONLY, 0) }
func Create(path string) (*File, error) { return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(path string, flag int, perm fs.FileMode) (*File, error) {
	if flag&(O_WRONLY|O_RDWR) == 0 && sym.ReadFaultHere() {
		return nil, perr("open", path, syscall.EMFILE)
	}
	fi, err := os.Stat(path)
	if err != nil && flag&O_CREATE != 0 {
		if _, err := os.Stat(filepath.Dir(path)); err == nil {
			if err := point("create", path); err != nil {
				return nil, perr("open", path, err)
			}
		}
	} else if err == nil && !fi.IsDir() && flag&O_TRUNC != 0 && fi.Size() > 0 {
		if err := point("truncate", path); err != nil {
			return nil, perr("open", path, err)
		}
	}
	f, err := os.OpenFile(path, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if err := point("create", dir+"/"+pattern); err != nil {
		return nil, perr("open", pattern, err)
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func MkdirTemp(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }

func (f *File) Write(b []byte) (int, error) {
	if len(b) == 0 {
		return f.File.Write(b)
	}
	if sym.FaultHere() {
		n, _ := f.File.Write(b[:len(b)/2])
		return n, perr("write", f.Name(), syscall.ENOSPC)
	}
	if sym.CrashHere(sym.Tag("write", f.Name())) {
		f.File.Write(b[:len(b)*sym.Partial()/2])
		sym.Crash()
	}
	return f.File.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}
