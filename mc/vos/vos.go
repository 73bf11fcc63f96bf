// Package vos stands in for os: it passes every call on to the real os, and
// for paths under a watched directory it records the operations that change
// files (so that every crash state can be rebuilt), can make them fail, and is
// a scheduling point under a controlled execution.
package vos

import (
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/mc/sched"
)

// Op is one recorded operation on files.
type Op struct {
	Kind string // create write trunc sync rename remove mkdir open read stat readdir close flock
	Path string // relative to the watched directory
	To   string // rename
	ID   int    // inode
	Off  int64
	Data []byte
	Size int64
}

// Changes tells whether the operation changes the files.
func (o Op) Changes() bool {
	switch o.Kind {
	case "create", "write", "trunc", "rename", "remove", "mkdir", "sync":
		return true
	}
	return false
}

// Rec watches a directory.
type Rec struct {
	Root string
	// Fault decides, for the n-th operation of any kind since the last Reset,
	// whether it fails; a failing write first writes keep bytes.
	Fault func(n int, o Op) (keep int, err error)
	// Points makes every operation a scheduling point.
	Points bool
	// NoLog keeps no log.
	NoLog bool

	mu   sync.Mutex
	n    int
	Ops  []Op
	ids  map[string]int
	next int
	Base *FS
}

var (
	recMu sync.RWMutex
	recs  = map[string]*Rec{}
)

// Watch starts watching a directory (which must be an absolute path).
func Watch(root string) *Rec {
	r := &Rec{Root: filepath.Clean(root), ids: map[string]int{}}
	r.Rebase()
	recMu.Lock()
	recs[r.Root] = r
	recMu.Unlock()
	return r
}

// Rebase forgets the log and takes the present files as the starting point.
func (r *Rec) Rebase() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Ops, r.n = nil, 0
	r.ids = map[string]int{}
	r.Base = LoadFS(r.Root)
	for p, in := range r.Base.Files {
		r.next++
		in.ID = r.next
		r.ids[p] = in.ID
	}
}

// Reset forgets the operation count used by Fault.
func (r *Rec) Reset() { r.mu.Lock(); r.n = 0; r.mu.Unlock() }

// Count is the number of operations since the last Reset.
func (r *Rec) Count() int { r.mu.Lock(); defer r.mu.Unlock(); return r.n }

// Stop ends the watch.
func (r *Rec) Stop() {
	recMu.Lock()
	delete(recs, r.Root)
	recMu.Unlock()
}

func find(path string) (*Rec, string) {
	recMu.RLock()
	defer recMu.RUnlock()
	if len(recs) == 0 {
		return nil, ""
	}
	abs, err := filepath.Abs(path)
	if err != nil {
		return nil, ""
	}
	for d := abs; ; d = filepath.Dir(d) {
		if r, ok := recs[d]; ok {
			rel := strings.TrimPrefix(strings.TrimPrefix(abs, d), "/")
			return r, rel
		}
		if d == "/" || d == "." {
			return nil, ""
		}
	}
}

// do announces an operation; the operation itself is run by f unless a fault
// says otherwise.
func do(path string, o Op, f func() error) error {
	r, rel := find(path)
	if r == nil {
		return f()
	}
	o.Path = rel
	return r.run(o, nil, f)
}

func (r *Rec) run(o Op, partial func(keep int), f func() error) error {
	if r.Points {
		sched.P()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	n := r.n
	r.n++
	if r.Fault != nil {
		if keep, err := r.Fault(n, o); err != nil {
			if partial != nil && keep > 0 {
				partial(keep)
				o2 := o
				o2.Data = o.Data[:keep]
				r.log(o2)
			}
			return err
		}
	}
	before := r.ids[o.Path]
	err := f()
	if err != nil {
		return err
	}
	switch o.Kind {
	case "create":
		if before == 0 {
			r.next++
			r.ids[o.Path] = r.next
		}
		o.ID = r.ids[o.Path]
	case "rename":
		r.ids[o.To] = r.ids[o.Path]
		delete(r.ids, o.Path)
	case "remove":
		for p := range r.ids {
			if p == o.Path || strings.HasPrefix(p, o.Path+"/") {
				delete(r.ids, p)
			}
		}
	}
	r.log(o)
	return nil
}

func (r *Rec) log(o Op) {
	if r.NoLog || !o.Changes() {
		return
	}
	o.Data = append([]byte{}, o.Data...)
	r.Ops = append(r.Ops, o)
}

// Len is the number of logged operations.
func (r *Rec) Len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.Ops) }

// File stands in for os.File.
type File struct {
	*os.File
	rec  *Rec
	rel  string
	id   int
	app  bool
	dead bool
}

func (f *File) off() int64 {
	if f.app {
		if st, err := f.File.Stat(); err == nil {
			return st.Size()
		}
	}
	o, _ := f.File.Seek(0, 1)
	return o
}

func (f *File) Write(b []byte) (n int, err error) {
	if f.rec == nil {
		return f.File.Write(b)
	}
	ferr := f.rec.run(Op{Kind: "write", Path: f.rel, ID: f.id, Off: f.off(), Data: b}, func(k int) {
		n, _ = f.File.Write(b[:k])
	}, func() error { n, err = f.File.Write(b); return err })
	return n, ferr
}

func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if f.rec == nil {
		return f.File.WriteAt(b, off)
	}
	ferr := f.rec.run(Op{Kind: "write", Path: f.rel, ID: f.id, Off: off, Data: b}, func(k int) {
		n, _ = f.File.WriteAt(b[:k], off)
	}, func() error { n, err = f.File.WriteAt(b, off); return err })
	return n, ferr
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ f *File }

func (w onlyWriter) Write(b []byte) (int, error) { return w.f.Write(b) }

// ReadFrom copies through Write.
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

func (f *File) Truncate(size int64) error {
	if f.rec == nil {
		return f.File.Truncate(size)
	}
	return f.rec.run(Op{Kind: "trunc", Path: f.rel, ID: f.id, Size: size}, nil, func() error { return f.File.Truncate(size) })
}

func (f *File) Sync() error {
	if f.rec == nil {
		return f.File.Sync()
	}
	return f.rec.run(Op{Kind: "sync", Path: f.rel, ID: f.id}, nil, func() error { return nil })
}

func (f *File) Read(b []byte) (n int, err error) {
	if f.rec == nil {
		return f.File.Read(b)
	}
	ferr := f.rec.run(Op{Kind: "read", Path: f.rel, ID: f.id}, nil, func() error { n, err = f.File.Read(b); return nil })
	if ferr != nil {
		return 0, ferr
	}
	return n, err
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.rec == nil {
		return f.File.Close()
	}
	var err error
	ferr := f.rec.run(Op{Kind: "close", Path: f.rel, ID: f.id}, nil, func() error { err = f.File.Close(); return nil })
	if ferr != nil {
		f.File.Close() //nolint
		return ferr
	}
	return err
}

// Event announces an operation on an open file (locking).
func (f *File) Event(kind string, g func() error) error {
	if f.rec == nil {
		return g()
	}
	return f.rec.run(Op{Kind: kind, Path: f.rel, ID: f.id}, nil, g)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	r, rel := find(name)
	if r == nil {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{File: f}, nil
	}
	var f *os.File
	kind := "open"
	if flag&os.O_CREATE != 0 {
		if _, err := os.Lstat(name); err != nil {
			kind = "create"
		}
	}
	trunc := false
	err := r.run(Op{Kind: kind, Path: rel}, nil, func() error {
		var err error
		if flag&os.O_TRUNC != 0 && kind == "open" {
			// truncation is a separate operation of the log
			f, err = os.OpenFile(name, flag&^os.O_TRUNC, perm)
			trunc = err == nil
			return err
		}
		f, err = os.OpenFile(name, flag, perm)
		return err
	})
	if err != nil {
		return nil, err
	}
	r.mu.Lock()
	id := r.ids[rel]
	r.mu.Unlock()
	v := &File{File: f, rec: r, rel: rel, id: id, app: flag&os.O_APPEND != 0}
	if trunc {
		if err := v.Truncate(0); err != nil {
			f.Close()
			return nil, err
		}
	}
	return v, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func NewFile(fd uintptr, name string) *File { return &File{File: os.NewFile(fd, name)} }

func Rename(a, b string) error {
	_, rel := find(b)
	return do(a, Op{Kind: "rename", To: rel}, func() error { return os.Rename(a, b) })
}
func Remove(p string) error {
	return do(p, Op{Kind: "remove"}, func() error { return os.Remove(p) })
}
func RemoveAll(p string) error {
	return do(p, Op{Kind: "remove"}, func() error { return os.RemoveAll(p) })
}
func Mkdir(p string, m FileMode) error {
	return do(p, Op{Kind: "mkdir"}, func() error { return os.Mkdir(p, m) })
}
func MkdirAll(p string, m FileMode) error {
	return do(p, Op{Kind: "mkdir"}, func() error { return os.MkdirAll(p, m) })
}
func Truncate(p string, size int64) error {
	f, err := OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func Stat(p string) (fi FileInfo, err error) {
	ferr := do(p, Op{Kind: "stat"}, func() error { fi, err = os.Stat(p); return nil })
	if ferr != nil {
		return nil, ferr
	}
	return fi, err
}
func Lstat(p string) (fi FileInfo, err error) {
	ferr := do(p, Op{Kind: "stat"}, func() error { fi, err = os.Lstat(p); return nil })
	if ferr != nil {
		return nil, ferr
	}
	return fi, err
}

// ReadFile reads a file.
func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b []byte
	buf := make([]byte, 32768)
	for {
		n, err := f.Read(buf)
		b = append(b, buf[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return nil, err
		}
	}
}

// WriteFile writes a file, truncating it first.
func WriteFile(p string, data []byte, perm FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	n, err := f.Write(data)
	if err == nil && n < len(data) {
		err = io.ErrShortWrite
	}
	if err1 := f.Close(); err == nil {
		err = err1
	}
	return err
}

// ReadDir lists a directory.
func ReadDir(p string) (l []os.DirEntry, err error) {
	ferr := do(p, Op{Kind: "readdir"}, func() error { l, err = os.ReadDir(p); return nil })
	if ferr != nil {
		return nil, ferr
	}
	return l, err
}

// CreateTemp makes a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	name := f.Name()
	f.Close()
	os.Remove(name) //nolint
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// Passed on unchanged.
type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	DirEntry     = os.DirEntry
	Process      = os.Process
	ProcAttr     = os.ProcAttr
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm   = os.ModePerm
	ModeDir    = os.ModeDir
	ModeAppend = os.ModeAppend
	ModeType   = os.ModeType

	ModeExclusive = os.ModeExclusive
	PathSeparator = os.PathSeparator
	DevNull       = os.DevNull
)

var (
	ErrInvalid    = os.ErrInvalid
	ErrPermission = os.ErrPermission
	ErrExist      = os.ErrExist
	ErrNotExist   = os.ErrNotExist
	ErrClosed     = os.ErrClosed

	Stdin  = &File{File: os.Stdin}
	Stdout = &File{File: os.Stdout}
	Stderr = &File{File: os.Stderr}
	Args   = os.Args

	Interrupt = os.Interrupt
	Kill      = os.Kill
)

func IsNotExist(err error) bool                     { return os.IsNotExist(err) }
func IsExist(err error) bool                        { return os.IsExist(err) }
func IsPermission(err error) bool                   { return os.IsPermission(err) }
func IsTimeout(err error) bool                      { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool                  { return os.IsPathSeparator(c) }
func Getenv(k string) string                        { return os.Getenv(k) }
func LookupEnv(k string) (string, bool)             { return os.LookupEnv(k) }
func Setenv(k, v string) error                      { return os.Setenv(k, v) }
func Environ() []string                             { return os.Environ() }
func Exit(c int)                                    { os.Exit(c) }
func Getpid() int                                   { return os.Getpid() }
func Getuid() int                                   { return os.Getuid() }
func Getwd() (string, error)                        { return os.Getwd() }
func TempDir() string                               { return os.TempDir() }
func UserHomeDir() (string, error)                  { return os.UserHomeDir() }
func Hostname() (string, error)                     { return os.Hostname() }
func Chmod(p string, m FileMode) error              { return os.Chmod(p, m) }
func Chtimes(p string, a, m time.Time) error        { return os.Chtimes(p, a, m) }
func Link(a, b string) error                        { return os.Link(a, b) }
func Symlink(a, b string) error                     { return os.Symlink(a, b) }
func Readlink(p string) (string, error)             { return os.Readlink(p) }
func SameFile(a, b FileInfo) bool                   { return os.SameFile(a, b) }
func NewSyscallError(s string, err error) error     { return os.NewSyscallError(s, err) }
func ExpandEnv(s string) string                     { return os.ExpandEnv(s) }
func MkdirTemp(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }
