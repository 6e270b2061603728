package simrt

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FSWorld is the simulated disk.
type FSWorld struct {
	s     *Sim
	nodes map[string]*Inode
	// fault plan, by cleaned path
	OpenErr   map[string]error // any open
	CreateErr map[string]error // opens that create or truncate
	ReadErrAt map[string]int64 // reads at or past this offset fail with EIO
	WriteErr  map[string]error // error of writes past WriteErrAt
	WriteErrAt map[string]int64
	CloseErr  map[string]error // delayed write error: reported by close, data after CloseKeep lost
	CloseKeep map[string]int64
	SyncErr   map[string]error
	ShortRead bool
	Capacity  int64 // total bytes; 0 = unlimited
	AllFaults string // prefix of paths the plan applies to when it cannot know the exact name
	Ops       int64
	Console   func(p *Proc, stderr bool, b []byte)
}

// Inode is a file or directory.
type Inode struct {
	Data    []byte
	Durable []byte
	Dir     bool
	Mode    fs.FileMode
	Mod     int64
}

func newFSWorld(s *Sim) *FSWorld {
	return &FSWorld{s: s, nodes: map[string]*Inode{"/": {Dir: true}, "/tmp": {Dir: true}, "/var": {Dir: true}, "/var/tmp": {Dir: true}, "/work": {Dir: true}},
		OpenErr: map[string]error{}, CreateErr: map[string]error{}, ReadErrAt: map[string]int64{}, WriteErr: map[string]error{}, WriteErrAt: map[string]int64{},
		CloseErr: map[string]error{}, CloseKeep: map[string]int64{}, SyncErr: map[string]error{}}
}

func FS() *FSWorld { return S.FS }

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

func (w *FSWorld) Put(p string, data []byte) {
	w.nodes[clean(p)] = &Inode{Data: append([]byte(nil), data...), Durable: append([]byte(nil), data...), Mode: 0644}
}

func (w *FSWorld) Get(p string) ([]byte, bool) {
	n := w.nodes[clean(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

func (w *FSWorld) Paths() []string {
	var out []string
	for p := range w.nodes {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (w *FSWorld) used() int64 {
	var n int64
	for _, x := range w.nodes {
		n += int64(len(x.Data))
	}
	return n
}

// File is an open simulated file.
type File struct {
	w      *FSWorld
	name   string
	path   string
	n      *Inode
	off    int64
	rd, wr bool
	app    bool
	closed bool
	std    int // 1 stdout, 2 stderr
	proc   *Proc
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func Std(i int) *File { return &File{name: map[int]string{0: "/dev/stdin", 1: "/dev/stdout", 2: "/dev/stderr"}[i], std: i, wr: i > 0} }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	s := need()
	s.yield("open")
	w := s.FS
	w.Ops++
	p := clean(name)
	if e := w.OpenErr[p]; e != nil {
		Fault("disk_open_error")
		return nil, perr("open", name, e)
	}
	const oWRONLY, oRDWR, oAPPEND, oCREATE, oEXCL, oTRUNC = syscall.O_WRONLY, syscall.O_RDWR, syscall.O_APPEND, syscall.O_CREAT, syscall.O_EXCL, syscall.O_TRUNC
	wr := flag&(oWRONLY|oRDWR) != 0
	if wr && flag&(oCREATE|oTRUNC) != 0 {
		if e := w.CreateErr[p]; e != nil {
			Fault("disk_create_error")
			return nil, perr("open", name, e)
		}
		if w.AllFaults != "" && strings.HasPrefix(p, w.AllFaults) {
			if e := w.CreateErr["*"]; e != nil {
				Fault("disk_create_error")
				return nil, perr("open", name, e)
			}
		}
	}
	n := w.nodes[p]
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := w.nodes[path.Dir(p)]; d == nil || !d.Dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &Inode{Mode: perm, Mod: s.now}
		w.nodes[p] = n
	} else if flag&oCREATE != 0 && flag&oEXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	} else if n.Dir && wr {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&oTRUNC != 0 && wr {
		n.Data = nil
	}
	return &File{w: w, name: name, path: p, n: n, rd: flag&oWRONLY == 0, wr: wr, app: flag&oAPPEND != 0}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) chk(op string) error {
	if f == nil {
		return errors.New("invalid argument")
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, errors.New("invalid argument")
	}
	if f.std > 0 || f.w == nil {
		return 0, io.EOF
	}
	s := need()
	s.yield("file read")
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	f.w.Ops++
	if !f.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	lim := int64(len(f.n.Data))
	if at, ok := f.w.ReadErrAt[f.path]; ok {
		if f.off >= at {
			Fault("disk_read_error")
			return 0, perr("read", f.name, syscall.EIO)
		}
		if at < lim {
			lim = at
		}
	}
	n := int(lim - f.off)
	if n <= 0 {
		return 0, io.EOF
	}
	if n > len(b) {
		n = len(b)
	}
	if f.w.ShortRead && n > 1 {
		k := s.choose(n)
		if k > 0 {
			Fault("disk_short_read")
		}
		n -= k
	}
	copy(b, f.n.Data[f.off:f.off+int64(n)])
	f.off += int64(n)
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, errors.New("invalid argument")
	}
	if f.std > 0 {
		Console(f.std == 2, b)
		return len(b), nil
	}
	s := need()
	s.yield("file write")
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	f.w.Ops++
	if f.app {
		f.off = int64(len(f.n.Data))
	}
	n := len(b)
	var ferr error
	key := f.path
	if _, ok := f.w.WriteErrAt[key]; !ok && f.w.AllFaults != "" && strings.HasPrefix(f.path, f.w.AllFaults) {
		key = "*"
	}
	if at, ok := f.w.WriteErrAt[key]; ok && f.off+int64(n) > at {
		n = int(at - f.off)
		if n < 0 {
			n = 0
		}
		ferr = f.w.WriteErr[key]
		if ferr == nil {
			ferr = syscall.EIO
		}
		Fault("disk_write_error")
	}
	if f.w.Capacity > 0 {
		if free := f.w.Capacity - f.w.used(); int64(n) > free {
			if free < 0 {
				free = 0
			}
			n = int(free)
			ferr = syscall.ENOSPC
			Fault("disk_full")
		}
	}
	end := f.off + int64(n)
	if end > int64(len(f.n.Data)) {
		f.n.Data = append(f.n.Data, make([]byte, end-int64(len(f.n.Data)))...)
	}
	copy(f.n.Data[f.off:end], b[:n])
	f.off = end
	f.n.Mod = s.now
	if ferr != nil {
		return n, perr("write", f.name, ferr)
	}
	return n, nil
}

func (f *File) WriteString(x string) (int, error) { return f.Write([]byte(x)) }

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	save := f.off
	f.off = off
	n, err := io.ReadFull(struct{ io.Reader }{f}, b)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	f.off = save
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	save := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = save
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.chk("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.n.Data)) + off
	}
	return f.off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.chk("truncate"); err != nil {
		return err
	}
	for int64(len(f.n.Data)) < n {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = f.n.Data[:n]
	return nil
}

func (f *File) Sync() error {
	if err := f.chk("sync"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	key := f.path
	if f.w.SyncErr[key] == nil && f.w.AllFaults != "" && strings.HasPrefix(f.path, f.w.AllFaults) {
		key = "*"
	}
	if e := f.w.SyncErr[key]; e != nil {
		Fault("disk_sync_error")
		return perr("sync", f.name, e)
	}
	if f.w.CloseErr[key] != nil {
		return f.lateErr(key, "sync")
	}
	f.n.Durable = append([]byte(nil), f.n.Data...)
	return nil
}

func (f *File) lateErr(key, op string) error {
	Fault("disk_late_write_error")
	if k := f.w.CloseKeep[key]; k < int64(len(f.n.Data)) {
		f.n.Data = f.n.Data[:k]
	}
	return perr(op, f.name, f.w.CloseErr[key])
}

func (f *File) Close() error {
	if f == nil {
		return errors.New("invalid argument")
	}
	if err := f.chk("close"); err != nil {
		return err
	}
	f.closed = true
	if f.std > 0 || S == nil {
		return nil
	}
	key := f.path
	if f.w.CloseErr[key] == nil && f.w.AllFaults != "" && strings.HasPrefix(f.path, f.w.AllFaults) {
		key = "*"
	}
	if f.wr && f.w.CloseErr[key] != nil {
		return f.lateErr(key, "close")
	}
	return nil
}

func (f *File) Chmod(m fs.FileMode) error { f.n.Mode = m; return nil }

type finfo struct {
	name string
	n    *Inode
	size int64
}

func (i finfo) Name() string       { return i.name }
func (i finfo) Size() int64        { return i.size }
func (i finfo) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0755
	}
	return i.n.Mode
}
func (i finfo) ModTime() time.Time { return time.Unix(0, 1_700_000_000_000_000_000+i.n.Mod).UTC() }
func (i finfo) IsDir() bool        { return i.n.Dir }
func (i finfo) Sys() any           { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	return finfo{path.Base(f.path), f.n, int64(len(f.n.Data))}, nil
}

func Stat(name string) (fs.FileInfo, error) {
	s := need()
	s.yield("stat")
	n := s.FS.nodes[clean(name)]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(clean(name)), n, int64(len(n.Data))}, nil
}

func Mkdir(name string, all bool) error {
	s := need()
	s.yield("mkdir")
	w := s.FS
	p := clean(name)
	if e := w.CreateErr[p]; e != nil {
		Fault("disk_create_error")
		return perr("mkdir", name, e)
	}
	if n := w.nodes[p]; n != nil {
		if all && n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.EEXIST)
	}
	if all {
		for q := p; q != "/"; q = path.Dir(q) {
			if w.nodes[q] == nil {
				w.nodes[q] = &Inode{Dir: true}
			}
		}
		return nil
	}
	if d := w.nodes[path.Dir(p)]; d == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	w.nodes[p] = &Inode{Dir: true}
	return nil
}

func Remove(name string) error {
	s := need()
	s.yield("remove")
	p := clean(name)
	if s.FS.nodes[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(s.FS.nodes, p)
	return nil
}

func RemoveAll(name string) error {
	s := need()
	p := clean(name)
	for _, q := range s.FS.Paths() {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(s.FS.nodes, q)
		}
	}
	return nil
}

func Rename(a, b string) error {
	s := need()
	s.yield("rename")
	x, y := clean(a), clean(b)
	n := s.FS.nodes[x]
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	delete(s.FS.nodes, x)
	s.FS.nodes[y] = n
	return nil
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	s := need()
	p := clean(name)
	if n := s.FS.nodes[p]; n == nil || !n.Dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []fs.DirEntry
	for _, q := range s.FS.Paths() {
		if q != p && path.Dir(q) == p {
			out = append(out, fs.FileInfoToDirEntry(finfo{path.Base(q), s.FS.nodes[q], int64(len(s.FS.nodes[q].Data))}))
		}
	}
	return out, nil
}

// Console collects what a process prints.
func Console(stderr bool, b []byte) {
	s := S
	if s == nil || s.cur.killed {
		return
	}
	p := s.cur.proc
	if len(p.Out) < 1<<16 {
		p.Out = append(p.Out, b...)
	}
	if s.cfg.Trace {
		s.tracef("%s prints: %s", p.Name, strings.TrimRight(string(b), "\n"))
	}
}

// LogLine is a line written with package log.
func LogLine(x string) {
	s := S
	if s == nil {
		return
	}
	if !strings.HasSuffix(x, "\n") {
		x += "\n"
	}
	Console(true, []byte(x))
}

// Fd is never a real descriptor.
func (f *File) Fd() uintptr { return ^uintptr(0) }

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) { return ReadDir(f.path) }
