package os

import (
	"io"
	"io/fs"
	real "os"
	"sort"
	"syscall"
	"time"

	"MODPATH/verifsim/simrt"
)

type File struct {
	h   *simrt.Handle
	std int
	nm  string
}

var (
	Stdin  = &File{std: 1, nm: "/dev/stdin"}
	Stdout = &File{std: 2, nm: "/dev/stdout"}
	Stderr = &File{std: 3, nm: "/dev/stderr"}
)

// Args__ stands for the variable os.Args (the rewriter redirects its uses).
func Args__() []string {
	if p := simrt.Cur(); p != nil {
		return p.Args
	}
	return nil
}

func Exit(code int) { simrt.Exit(code) }

func (f *File) Name() string { return f.nm }
func (f *File) Write(b []byte) (int, error) {
	simrt.ExitIfKilled()
	if f == nil {
		return 0, real.ErrInvalid
	}
	if f.std > 0 {
		if p := simrt.Cur(); p != nil {
			p.WriteOut(b)
		}
		return len(b), nil
	}
	return f.h.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (int, error) {
	simrt.ExitIfKilled()
	if f == nil {
		return 0, real.ErrInvalid
	}
	if f.std == 1 {
		n, ok := simrt.Cur().In.Read(b)
		if !ok {
			return 0, io.EOF
		}
		return n, nil
	}
	if f.std > 0 {
		return 0, &fs.PathError{Op: "read", Path: f.nm, Err: syscall.EBADF}
	}
	return f.h.Read(b)
}

// at runs fn at an offset and restores the position.
func (f *File) at(off int64, fn func() (int, error)) (int, error) {
	cur, err := f.Seek(0, 1)
	if err != nil {
		return 0, err
	}
	if _, err := f.Seek(off, 0); err != nil {
		return 0, err
	}
	n, err := fn()
	if _, e := f.Seek(cur, 0); e != nil && err == nil {
		err = e
	}
	return n, err
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	return f.at(off, func() (int, error) {
		n, err := io.ReadFull(f, b)
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		return n, err
	})
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.at(off, func() (int, error) { return f.Write(b) })
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := ReadDir(f.nm)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := ReadDir(f.nm)
	var out []FileInfo
	for _, e := range es {
		st, _ := e.Info()
		out = append(out, st)
	}
	return out, err
}
func (f *File) Seek(o int64, w int) (int64, error) { return f.h.Seek(o, w) }
func (f *File) Truncate(n int64) error             { return f.h.Truncate(n) }
func (f *File) Chmod(m FileMode) error             { return nil }
func (f *File) Sync() error {
	if f.std > 0 {
		return nil
	}
	return f.h.Sync()
}
func (f *File) Close() error {
	if f == nil {
		return real.ErrInvalid
	}
	if f.std > 0 {
		return nil
	}
	return f.h.Close()
}
func (f *File) Fd() uintptr { return uintptr(10) }
func (f *File) Stat() (FileInfo, error) {
	if f.std > 0 {
		return nil, real.ErrInvalid
	}
	return f.h.Stat(), nil
}
func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.nm) }
func (f *File) SetDeadline(t time.Time) error     { return nil }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := simrt.DiskOpen(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h: h, nm: name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}
func CreateTemp(dir, pattern string) (*File, error) {
	h, nm, err := simrt.DiskTemp(dir, pattern, false)
	if err != nil {
		return nil, err
	}
	return &File{h: h, nm: nm}, nil
}
func MkdirTemp(dir, pattern string) (string, error) {
	_, nm, err := simrt.DiskTemp(dir, pattern, true)
	return nm, err
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 1<<20)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func Stat(name string) (FileInfo, error) {
	fi, err := simrt.DiskStat(name)
	if err != nil {
		return nil, err
	}
	return fi, nil
}
func Lstat(name string) (FileInfo, error)       { return Stat(name) }
func Mkdir(name string, perm FileMode) error    { return simrt.DiskMkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error { return simrt.DiskMkdirAll(name, perm) }
func Remove(name string) error                  { return simrt.DiskRemove(name) }
func RemoveAll(name string) error               { return simrt.DiskRemoveAll(name) }
func Rename(a, b string) error                  { return simrt.DiskRename(a, b) }
func Chmod(name string, m FileMode) error       { return nil }
func Chtimes(name string, a, m time.Time) error { return nil }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

type dirEntry struct{ simrt.FileInfo }

func (d dirEntry) Type() fs.FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.FileInfo, nil }

func ReadDir(name string) ([]DirEntry, error) {
	l, err := simrt.DiskReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []DirEntry
	for _, f := range l {
		out = append(out, dirEntry{f})
	}
	return out, nil
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) {
	if p := simrt.Cur(); p != nil {
		v, ok := p.Env[k]
		return v, ok
	}
	return "", false
}
func Setenv(k, v string) error {
	if p := simrt.Cur(); p != nil {
		if p.Env == nil {
			p.Env = map[string]string{}
		}
		p.Env[k] = v
	}
	return nil
}
func Unsetenv(k string) error {
	if p := simrt.Cur(); p != nil {
		delete(p.Env, k)
	}
	return nil
}
func Environ() (out []string) {
	if p := simrt.Cur(); p != nil {
		for k, v := range p.Env {
			out = append(out, k+"="+v)
		}
		sort.Strings(out)
	}
	return out
}
func Executable() (string, error)   { return "/usr/bin/prog", nil }
func UserCacheDir() (string, error) { return "/home/user/.cache", nil }
func Getppid() int                  { return 1 }
func Getgid() int                   { return 1000 }
func Geteuid() int                  { return 1000 }
func Getegid() int                  { return 1000 }

// Link gives a file a second name: here a copy, as nothing writes to a linked
// file afterwards.
func Link(a, b string) error {
	data, err := ReadFile(a)
	if err != nil {
		return err
	}
	f, err := OpenFile(b, real.O_WRONLY|real.O_CREATE|real.O_EXCL, 0o666)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func ExpandEnv(s string) string      { return real.Expand(s, Getenv) }
func UserHomeDir() (string, error)   { return "/home/user", nil }
func UserConfigDir() (string, error) { return "/home/user/.config", nil }
func TempDir() string                { return "/tmp" }
func Getwd() (string, error)         { return "/work", nil }
func Getpid() int {
	if p := simrt.Cur(); p != nil {
		return 1000 + p.ID
	}
	return 1
}
func Getuid() int { return 1000 }
func Hostname() (string, error) {
	if p := simrt.Cur(); p != nil {
		return p.Host.Name, nil
	}
	return "sim", nil
}
