package simrt

import (
	"io"
	"io/fs"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Disk is a host's file system. Completed operations survive the death of the
// process that made them; an operation in progress may have been done in part.
type Disk struct {
	host  *Host
	nodes map[string]*Inode
	// fault windows
	FailWrite int // percent of write-type operations that fail
	FailRead  int
	FailErr   syscall.Errno
	FailPath  string // only paths containing this
	Free      int64  // bytes left; <0 unlimited
	SlowPM    int    // per-mille slow operations
	Ops       int64
	tmpSeq    int
	// History of head-like files is observed through this hook.
	OnChange func(op, path string)
}

type Inode struct {
	Dir  bool
	Data []byte
	Mode fs.FileMode
	Mod  int64
}

func newDisk(h *Host) *Disk {
	d := &Disk{host: h, nodes: map[string]*Inode{}, Free: -1}
	d.nodes["/"] = &Inode{Dir: true, Mode: 0o755}
	for _, p := range []string{"/tmp", "/home", "/home/user", "/work"} {
		d.nodes[p] = &Inode{Dir: true, Mode: 0o755}
	}
	return d
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

// --- harness access (no faults, no scheduling) ---

func (d *Disk) Peek(p string) ([]byte, bool) {
	n := d.nodes[abs(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}
func (d *Disk) Put(p string, b []byte) {
	p = abs(p)
	for q := path.Dir(p); ; q = path.Dir(q) {
		if d.nodes[q] == nil {
			d.nodes[q] = &Inode{Dir: true, Mode: 0o755}
		}
		if q == "/" {
			break
		}
	}
	d.nodes[p] = &Inode{Data: append([]byte{}, b...), Mode: 0o644}
}
func (d *Disk) Del(p string) { delete(d.nodes, abs(p)) }
func (d *Disk) List(dir string) []string {
	dir = abs(dir)
	var out []string
	for p := range d.nodes {
		if path.Dir(p) == dir && p != dir {
			out = append(out, path.Base(p))
		}
	}
	sort.Strings(out)
	return out
}
func (d *Disk) Snapshot() map[string]*Inode {
	m := map[string]*Inode{}
	for k, n := range d.nodes {
		c := *n
		c.Data = append([]byte{}, n.Data...)
		m[k] = &c
	}
	return m
}
func (d *Disk) Restore(m map[string]*Inode) {
	d.nodes = map[string]*Inode{}
	for k, n := range m {
		c := *n
		c.Data = append([]byte{}, n.Data...)
		d.nodes[k] = &c
	}
}
func (d *Disk) Size() int { return len(d.nodes) }

// --- simulated operations ---

func CurDisk() *Disk {
	if p := Cur(); p != nil {
		return p.Host.Disk
	}
	return nil
}

// op runs one disk operation: fn(frac) performs a share of it (100 = all).
// torn is what the operation leaves when the process dies in its middle.
func (d *Disk) op(kind, p string, write bool, fn func() error, torn func(frac int)) error {
	ExitIfKilled()
	w := W
	Y()
	pr := Cur()
	d.Ops++
	t := w.cur
	v := w.D.fs.choose(func(r *RNG) uint32 {
		if d.SlowPM > 0 && r.N(1000) < d.SlowPM {
			return uint32(1 + r.N(1<<(1+r.N(9))))
		}
		return 0
	})
	if v > 0 {
		w.Fault("slow-disk")
		Sleep(time.Duration(v) * time.Millisecond)
	}
	if pr != nil {
		pr.DiskOps++
		w.mix(uint64(len(p))*31 + uint64(kind[0]))
		if pr.KillPath != "" && pr.KillAtDisk > 0 && !strings.Contains(p, pr.KillPath) {
			pr.KillAtDisk++
		}
		if pr.KillAtDisk > 0 && pr.DiskOps >= pr.KillAtDisk {
			pr.KillAtDisk = 0
			f := pr.KillDiskFrac
			if f >= 100 {
				fn()
			} else if torn != nil {
				torn(f)
			}
			w.Fault("kill-at-disk-op")
			if torn != nil && f > 0 && f < 100 {
				w.Fault("torn-write")
			}
			if d.OnChange != nil {
				d.OnChange(kind, p)
			}
			w.Logf("kill %s at disk op %d %s %s (%d%%)", pr.Name, pr.DiskOps, kind, p, f)
			pr.exit(-9, "killed at disk op", "", t)
			runtime.Goexit()
		}
	}
	pc := d.FailRead
	if write {
		pc = d.FailWrite
	}
	if pc > 0 && (d.FailPath == "" || strings.Contains(p, d.FailPath)) {
		v := w.D.fs.choose(func(r *RNG) uint32 {
			if r.N(100) < pc {
				return uint32(1 + r.N(100))
			}
			return 0
		})
		if v > 0 {
			w.Fault("disk-error-" + kind)
			if torn != nil {
				torn(int(v - 1))
			}
			if d.OnChange != nil {
				d.OnChange(kind, p)
			}
			w.Logf("disk error %s %s %v", kind, p, d.FailErr)
			return &fs.PathError{Op: kind, Path: p, Err: d.FailErr}
		}
	}
	err := fn()
	if write && d.OnChange != nil {
		d.OnChange(kind, p)
	}
	return err
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func (d *Disk) parentOK(p string) error {
	n := d.nodes[path.Dir(p)]
	if n == nil {
		return syscall.ENOENT
	}
	if !n.Dir {
		return syscall.ENOTDIR
	}
	return nil
}

// Handle is an open file.
type Handle struct {
	d      *Disk
	Path   string
	n      *Inode
	off    int
	flag   int
	closed bool
}

const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oCREATE = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
	oAPPEND = syscall.O_APPEND
)

func DiskOpen(name string, flag int, perm fs.FileMode) (*Handle, error) {
	d := CurDisk()
	p := abs(name)
	var h *Handle
	wr := flag&(oWRONLY|oRDWR|oCREATE|oTRUNC) != 0
	err := d.op("open", p, wr, func() error {
		n := d.nodes[p]
		if n == nil {
			if flag&oCREATE == 0 {
				return perr("open", name, syscall.ENOENT)
			}
			if err := d.parentOK(p); err != nil {
				return perr("open", name, err)
			}
			n = &Inode{Mode: perm, Mod: W.now}
			d.nodes[p] = n
		} else {
			if flag&oEXCL != 0 && flag&oCREATE != 0 {
				return perr("open", name, syscall.EEXIST)
			}
			if n.Dir && wr {
				return perr("open", name, syscall.EISDIR)
			}
			if flag&oTRUNC != 0 {
				d.give(len(n.Data))
				n.Data = nil
			}
		}
		h = &Handle{d: d, Path: name, n: n, flag: flag}
		return nil
	}, nil)
	if err != nil {
		return nil, err
	}
	return h, nil
}

func (d *Disk) give(n int) {
	if d.Free >= 0 {
		d.Free += int64(n)
	}
}

func (h *Handle) writeBytes(b []byte) {
	if h.flag&oAPPEND != 0 {
		h.off = len(h.n.Data)
	}
	end := h.off + len(b)
	if end > len(h.n.Data) {
		nd := make([]byte, end)
		copy(nd, h.n.Data)
		h.n.Data = nd
	} else {
		h.n.Data = append([]byte{}, h.n.Data...)
	}
	copy(h.n.Data[h.off:], b)
	h.off = end
	h.n.Mod = W.now
}

func (h *Handle) Write(b []byte) (int, error) {
	if h.closed {
		return 0, perr("write", h.Path, fs.ErrClosed)
	}
	if h.flag&(oWRONLY|oRDWR) == 0 {
		return 0, perr("write", h.Path, syscall.EBADF)
	}
	n := 0
	err := h.d.op("write", abs(h.Path), true, func() error {
		if h.d.Free >= 0 && int64(len(b)) > h.d.Free {
			k := int(h.d.Free)
			h.writeBytes(b[:k])
			h.d.Free = 0
			n = k
			W.Fault("disk-full")
			return perr("write", h.Path, syscall.ENOSPC)
		}
		h.d.give(-len(b))
		h.writeBytes(b)
		n = len(b)
		return nil
	}, func(frac int) {
		n = len(b) * frac / 100
		h.writeBytes(b[:n])
	})
	return n, err
}

func (h *Handle) Read(b []byte) (int, error) {
	if h.closed {
		return 0, perr("read", h.Path, fs.ErrClosed)
	}
	n := 0
	err := h.d.op("read", abs(h.Path), false, func() error {
		if h.n.Dir {
			return perr("read", h.Path, syscall.EISDIR)
		}
		if h.off >= len(h.n.Data) {
			return io.EOF
		}
		n = copy(b, h.n.Data[h.off:])
		h.off += n
		return nil
	}, nil)
	return n, err
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		h.off = int(off)
	case 1:
		h.off += int(off)
	case 2:
		h.off = len(h.n.Data) + int(off)
	}
	return int64(h.off), nil
}

func (h *Handle) Truncate(n int64) error {
	return h.d.op("truncate", abs(h.Path), true, func() error {
		nd := make([]byte, n)
		copy(nd, h.n.Data)
		h.n.Data = nd
		return nil
	}, nil)
}

func (h *Handle) Sync() error {
	if h.closed {
		return perr("sync", h.Path, fs.ErrClosed)
	}
	return h.d.op("fsync", abs(h.Path), true, func() error { return nil }, nil)
}

func (h *Handle) Close() error {
	ExitIfKilled()
	if h.closed {
		return perr("close", h.Path, fs.ErrClosed)
	}
	h.closed = true
	Y()
	return nil
}

func (h *Handle) Stat() FileInfo { return FileInfo{path.Base(h.Path), *h.n} }

// FileInfo implements fs.FileInfo.
type FileInfo struct {
	name string
	n    Inode
}

func (f FileInfo) Name() string { return f.name }
func (f FileInfo) Size() int64  { return int64(len(f.n.Data)) }
func (f FileInfo) Mode() fs.FileMode {
	if f.n.Dir {
		return f.n.Mode | fs.ModeDir
	}
	return f.n.Mode
}
func (f FileInfo) ModTime() time.Time { return time.Unix(0, f.n.Mod) }
func (f FileInfo) IsDir() bool        { return f.n.Dir }
func (f FileInfo) Sys() any           { return nil }

func DiskStat(name string) (FileInfo, error) {
	d := CurDisk()
	p := abs(name)
	var fi FileInfo
	err := d.op("stat", p, false, func() error {
		n := d.nodes[p]
		if n == nil {
			return perr("stat", name, syscall.ENOENT)
		}
		fi = FileInfo{path.Base(p), *n}
		return nil
	}, nil)
	return fi, err
}

func DiskMkdir(name string, perm fs.FileMode) error {
	d := CurDisk()
	p := abs(name)
	return d.op("mkdir", p, true, func() error {
		if d.nodes[p] != nil {
			return perr("mkdir", name, syscall.EEXIST)
		}
		if err := d.parentOK(p); err != nil {
			return perr("mkdir", name, err)
		}
		d.nodes[p] = &Inode{Dir: true, Mode: perm, Mod: W.now}
		return nil
	}, nil)
}

func DiskMkdirAll(name string, perm fs.FileMode) error {
	d := CurDisk()
	p := abs(name)
	if n := d.nodes[p]; n != nil {
		ExitIfKilled()
		Y()
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if err := DiskMkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	err := DiskMkdir(p, perm)
	if err != nil && d.nodes[p] != nil && d.nodes[p].Dir {
		return nil
	}
	return err
}

func DiskRename(a, b string) error {
	d := CurDisk()
	pa, pb := abs(a), abs(b)
	return d.op("rename", pb, true, func() error {
		n := d.nodes[pa]
		if n == nil {
			return perr("rename", a, syscall.ENOENT)
		}
		if err := d.parentOK(pb); err != nil {
			return perr("rename", b, err)
		}
		if n.Dir {
			var ks []string
			for k := range d.nodes {
				if strings.HasPrefix(k, pa+"/") {
					ks = append(ks, k)
				}
			}
			for _, k := range ks {
				d.nodes[pb+k[len(pa):]] = d.nodes[k]
				delete(d.nodes, k)
			}
		}
		delete(d.nodes, pa)
		d.nodes[pb] = n
		return nil
	}, nil)
}

func DiskRemove(name string) error {
	d := CurDisk()
	p := abs(name)
	return d.op("remove", p, true, func() error {
		n := d.nodes[p]
		if n == nil {
			return perr("remove", name, syscall.ENOENT)
		}
		if n.Dir && len(d.List(p)) > 0 {
			return perr("remove", name, syscall.ENOTEMPTY)
		}
		d.give(len(n.Data))
		delete(d.nodes, p)
		return nil
	}, nil)
}

func DiskRemoveAll(name string) error {
	d := CurDisk()
	p := abs(name)
	return d.op("removeall", p, true, func() error {
		for k, n := range d.nodes {
			if k == p || strings.HasPrefix(k, p+"/") {
				d.give(len(n.Data))
				delete(d.nodes, k)
			}
		}
		return nil
	}, nil)
}

func DiskReadDir(name string) ([]FileInfo, error) {
	d := CurDisk()
	p := abs(name)
	var out []FileInfo
	err := d.op("readdir", p, false, func() error {
		n := d.nodes[p]
		if n == nil {
			return perr("open", name, syscall.ENOENT)
		}
		if !n.Dir {
			return perr("readdirent", name, syscall.ENOTDIR)
		}
		for _, e := range d.List(p) {
			out = append(out, FileInfo{e, *d.nodes[path.Join(p, e)]})
		}
		return nil
	}, nil)
	return out, err
}

func DiskTemp(dir, pattern string, isDir bool) (*Handle, string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		var b [4]byte
		RandFill(b[:])
		name := path.Join(dir, pre+hexs(b[:])+suf)
		if isDir {
			err := DiskMkdir(name, 0o700)
			return nil, name, err
		}
		h, err := DiskOpen(name, oRDWR|oCREATE|oEXCL, 0o600)
		if err != nil {
			if pe, ok := err.(*fs.PathError); ok && pe.Err == syscall.EEXIST {
				continue
			}
			return nil, "", err
		}
		return h, name, nil
	}
}

func hexs(b []byte) string {
	const d = "0123456789abcdef"
	var s strings.Builder
	for _, c := range b {
		s.WriteByte(d[c>>4])
		s.WriteByte(d[c&15])
	}
	return s.String()
}
