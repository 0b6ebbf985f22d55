// Package fsm is the file system the symbolic engine runs the code on: a tree of files in memory.
// Only the engine redirects os functions here; native replays use the real os package.
package fsm

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Node struct {
	Data  []byte
	Dir   bool
	Mode  fs.FileMode
	Mtime int64
}

type handle struct {
	node   *Node
	name   string
	off    int64
	flag   int
	closed bool
	direct bool
	dirPos int
	names  []string
}

var (
	mu    sync.Mutex
	files = map[string]*Node{"/": {Dir: true, Mode: fs.ModeDir | 0o755}}
	open_ = map[*os.File]*handle{}
	// Ops counts the operations that change something; Fault, if set, decides which of them fail.
	Ops   int
	Fault func(op, path string) error
	// Open handles, to check that nothing leaks.
	OpenHandles int
)

// ODirect marks handles that demand block-aligned reads and writes.
const ODirect = 0x4000

func clean(p string) string {
	if !filepath.IsAbs(p) {
		p = "/cwd/" + p
	}
	return filepath.Clean(p)
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func fault(op, p string) error {
	Ops++
	if Fault != nil {
		if e := Fault(op, p); e != nil {
			return perr(op, p, e)
		}
	}
	return nil
}

func parentOK(p string) error {
	d := filepath.Dir(p)
	if d == p {
		return nil
	}
	n := files[d]
	if n == nil {
		return syscall.ENOENT
	}
	if !n.Dir {
		return syscall.ENOTDIR
	}
	return nil
}

// MkAll makes a directory without counting as an operation of the code under test.
func MkAll(p string) {
	p = clean(p)
	for q := p; ; q = filepath.Dir(q) {
		if files[q] == nil {
			files[q] = &Node{Dir: true, Mode: fs.ModeDir | 0o755}
		}
		if q == filepath.Dir(q) {
			return
		}
	}
}

// Get returns the content of a file, nil if there is none.
func Get(p string) *Node { return files[clean(p)] }

// Put sets the content of a file without counting as an operation of the code under test.
func Put(p string, data []byte) {
	p = clean(p)
	MkAll(filepath.Dir(p))
	files[p] = &Node{Data: data, Mode: 0o644}
}

// Children lists the names directly below a directory.
func Children(p string) []string {
	p = clean(p)
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	var r []string
	for k := range files {
		if len(k) > len(pre) && strings.HasPrefix(k, pre) && !strings.Contains(k[len(pre):], "/") {
			r = append(r, k[len(pre):])
		}
	}
	sort.Strings(r)
	return r
}

//gosym:model os.OpenFile
func zzOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	mu.Lock()
	defer mu.Unlock()
	p := clean(name)
	if e := parentOK(p); e != nil {
		return nil, perr("open", name, e)
	}
	n := files[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if e := fault("create", name); e != nil {
			return nil, e
		}
		n = &Node{Mode: perm.Perm(), Mtime: time.Now().UnixNano()}
		files[p] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !n.Dir {
			if e := fault("truncate", name); e != nil {
				return nil, e
			}
			n.Data = nil
		}
	}
	f := new(os.File)
	open_[f] = &handle{node: n, name: name, flag: flag, direct: flag&ODirect != 0}
	OpenHandles++
	return f, nil
}

//gosym:model os.Open
func zzOpen(name string) (*os.File, error) { return zzOpenFile(name, os.O_RDONLY, 0) }

//gosym:model os.Create
func zzCreate(name string) (*os.File, error) {
	return zzOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func h(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	x := open_[f]
	if x == nil || x.closed {
		return nil, perr(op, "", os.ErrClosed)
	}
	return x, nil
}

//gosym:model (*os.File).Close
func zzClose(f *os.File) error {
	mu.Lock()
	defer mu.Unlock()
	x, e := h(f, "close")
	if e != nil {
		return e
	}
	x.closed = true
	OpenHandles--
	return nil
}

//gosym:model (*os.File).Name
func zzName(f *os.File) string {
	if x := open_[f]; x != nil {
		return x.name
	}
	return ""
}

// fds are the handles whose descriptor number was asked for.
var fds []*handle

//gosym:model (*os.File).Fd
func zzFd(f *os.File) uintptr {
	x := open_[f]
	if x == nil {
		return ^uintptr(0)
	}
	fds = append(fds, x)
	return uintptr(2 + len(fds))
}

//gosym:model golang.org/x/sys/unix.FcntlInt
func zzFcntl(fd uintptr, cmd, arg int) (int, error) {
	i := int(fd) - 3
	if i < 0 || i >= len(fds) || fds[i].closed {
		return -1, syscall.EBADF
	}
	x := fds[i]
	switch cmd {
	case syscall.F_GETFL:
		fl := x.flag &^ ODirect
		if x.direct {
			fl |= ODirect
		}
		return fl, nil
	case syscall.F_SETFL:
		x.direct = arg&ODirect != 0
		return 0, nil
	}
	return -1, syscall.EINVAL
}

//gosym:model github.com/ncw/directio.AlignedBlock
func zzAlignedBlock(n int) []byte { return make([]byte, n) }

// ReadFault, if set, decides which reads fail.
var ReadFault func(path string, off int64) error

func (x *handle) misaligned(n int) bool {
	return x.direct && (n%512 != 0 || x.off%512 != 0)
}

//gosym:model (*os.File).Read
func zzRead(f *os.File, b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	x, e := h(f, "read")
	if e != nil {
		return 0, e
	}
	if x.node.Dir {
		return 0, perr("read", x.name, syscall.EISDIR)
	}
	if x.flag&os.O_WRONLY != 0 {
		return 0, perr("read", x.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if x.misaligned(len(b)) {
		return 0, perr("read", x.name, syscall.EINVAL)
	}
	if ReadFault != nil {
		if e := ReadFault(x.name, x.off); e != nil {
			return 0, perr("read", x.name, e)
		}
	}
	if x.off >= int64(len(x.node.Data)) {
		return 0, io.EOF
	}
	n := copy(b, x.node.Data[x.off:])
	x.off += int64(n)
	return n, nil
}

//gosym:model (*os.File).ReadAt
func zzReadAt(f *os.File, b []byte, off int64) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	x, e := h(f, "read")
	if e != nil {
		return 0, e
	}
	if off >= int64(len(x.node.Data)) {
		return 0, io.EOF
	}
	n := copy(b, x.node.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (x *handle) writeAt(b []byte, off int64) {
	end := off + int64(len(b))
	d := make([]byte, 0, end)
	d = append(d, x.node.Data...)
	for int64(len(d)) < end {
		d = append(d, 0)
	}
	copy(d[off:], b)
	x.node.Data = d
	x.node.Mtime = time.Now().UnixNano()
}

//gosym:model (*os.File).Write
func zzWrite(f *os.File, b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	x, e := h(f, "write")
	if e != nil {
		return 0, e
	}
	if x.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", x.name, syscall.EBADF)
	}
	if x.flag&os.O_APPEND != 0 {
		x.off = int64(len(x.node.Data))
	}
	if x.misaligned(len(b)) {
		return 0, perr("write", x.name, syscall.EINVAL)
	}
	if e := fault("write", x.name); e != nil {
		return 0, e
	}
	x.writeAt(b, x.off)
	x.off += int64(len(b))
	return len(b), nil
}

//gosym:model (*os.File).WriteString
func zzWriteString(f *os.File, s string) (int, error) { return zzWrite(f, []byte(s)) }

//gosym:model (*os.File).WriteAt
func zzWriteAt(f *os.File, b []byte, off int64) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	x, e := h(f, "write")
	if e != nil {
		return 0, e
	}
	if e := fault("write", x.name); e != nil {
		return 0, e
	}
	x.writeAt(b, off)
	return len(b), nil
}

type onlyWriter struct{ f *os.File }

func (o onlyWriter) Write(b []byte) (int, error) { return zzWrite(o.f, b) }

type onlyReader struct{ f *os.File }

func (o onlyReader) Read(b []byte) (int, error) { return zzRead(o.f, b) }

//gosym:model (*os.File).ReadFrom
func zzReadFrom(f *os.File, r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

//gosym:model (*os.File).WriteTo
func zzWriteTo(f *os.File, w io.Writer) (int64, error) { return io.Copy(w, onlyReader{f}) }

//gosym:model (*os.File).Seek
func zzSeek(f *os.File, off int64, whence int) (int64, error) {
	mu.Lock()
	defer mu.Unlock()
	x, e := h(f, "seek")
	if e != nil {
		return 0, e
	}
	n := off
	switch whence {
	case io.SeekCurrent:
		n += x.off
	case io.SeekEnd:
		n += int64(len(x.node.Data))
	}
	if n < 0 {
		return 0, perr("seek", x.name, syscall.EINVAL)
	}
	x.off = n
	return n, nil
}

//gosym:model (*os.File).Sync
func zzSync(f *os.File) error {
	x, e := h(f, "sync")
	if e != nil {
		return e
	}
	return fault("sync", x.name)
}

//gosym:model (*os.File).Truncate
func zzTruncate(f *os.File, size int64) error {
	x, e := h(f, "truncate")
	if e != nil {
		return e
	}
	if e := fault("truncate", x.name); e != nil {
		return e
	}
	d := append([]byte{}, x.node.Data...)
	for int64(len(d)) < size {
		d = append(d, 0)
	}
	x.node.Data = d[:size]
	return nil
}

type info struct {
	name string
	node *Node
	size int64
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() fs.FileMode          { return i.node.Mode }
func (i *info) ModTime() time.Time         { return time.Unix(0, i.node.Mtime) }
func (i *info) IsDir() bool                { return i.node.Dir }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return i.node.Mode.Type() }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }

func mkInfo(p string, n *Node) *info {
	sz := int64(len(n.Data))
	if n.Dir {
		sz = 4096
	}
	return &info{filepath.Base(p), n, sz}
}

//gosym:model os.Stat
func zzStat(name string) (os.FileInfo, error) {
	mu.Lock()
	defer mu.Unlock()
	p := clean(name)
	n := files[p]
	if n == nil {
		if e := parentOK(p); e != nil {
			return nil, perr("stat", name, e)
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return mkInfo(p, n), nil
}

//gosym:model os.Lstat
func zzLstat(name string) (os.FileInfo, error) { return zzStat(name) }

//gosym:model (*os.File).Stat
func zzFStat(f *os.File) (os.FileInfo, error) {
	x, e := h(f, "stat")
	if e != nil {
		return nil, e
	}
	return mkInfo(x.name, x.node), nil
}

//gosym:model os.Mkdir
func zzMkdir(name string, perm os.FileMode) error {
	p := clean(name)
	if e := parentOK(p); e != nil {
		return perr("mkdir", name, e)
	}
	if files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if e := fault("mkdir", name); e != nil {
		return e
	}
	files[p] = &Node{Dir: true, Mode: fs.ModeDir | perm.Perm()}
	return nil
}

//gosym:model os.MkdirAll
func zzMkdirAll(name string, perm os.FileMode) error {
	p := clean(name)
	if n := files[p]; n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := filepath.Dir(p); d != p {
		if e := zzMkdirAll(d, perm); e != nil {
			return e
		}
	}
	return zzMkdir(name, perm)
}

func hasChild(p string) bool {
	for k := range files {
		if k != p && strings.HasPrefix(k, p+"/") {
			return true
		}
	}
	return false
}

//gosym:model os.Remove
func zzRemove(name string) error {
	mu.Lock()
	defer mu.Unlock()
	p := clean(name)
	n := files[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir && hasChild(p) {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	if e := fault("remove", name); e != nil {
		return e
	}
	delete(files, p)
	return nil
}

//gosym:model os.RemoveAll
func zzRemoveAll(name string) error {
	mu.Lock()
	defer mu.Unlock()
	p := clean(name)
	if e := fault("remove", name); e != nil {
		return e
	}
	var del []string
	for k := range files {
		if k == p || strings.HasPrefix(k, p+"/") {
			del = append(del, k)
		}
	}
	for _, k := range del {
		delete(files, k)
	}
	return nil
}

//gosym:model os.Rename
func zzRename(from, to string) error {
	mu.Lock()
	defer mu.Unlock()
	a, b := clean(from), clean(to)
	n := files[a]
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if e := parentOK(b); e != nil {
		return lerr(e)
	}
	if o := files[b]; o != nil && o.Dir {
		return lerr(syscall.EEXIST)
	}
	if e := fault("rename", from); e != nil {
		return e
	}
	if a == b {
		return nil
	}
	delete(files, a)
	files[b] = n
	if n.Dir {
		var mv []string
		for k := range files {
			if strings.HasPrefix(k, a+"/") {
				mv = append(mv, k)
			}
		}
		for _, k := range mv {
			files[b+k[len(a):]] = files[k]
			delete(files, k)
		}
	}
	return nil
}

//gosym:model os.ReadFile
func zzReadFile(name string) ([]byte, error) {
	mu.Lock()
	defer mu.Unlock()
	n := files[clean(name)]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	return append([]byte{}, n.Data...), nil
}

//gosym:model os.WriteFile
func zzWriteFile(name string, data []byte, perm os.FileMode) error {
	f, e := zzOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if e != nil {
		return e
	}
	_, e = zzWrite(f, data)
	zzClose(f)
	return e
}

//gosym:model os.ReadDir
func zzReadDir(name string) ([]os.DirEntry, error) {
	mu.Lock()
	defer mu.Unlock()
	p := clean(name)
	n := files[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var r []os.DirEntry
	for _, c := range Children(p) {
		q := filepath.Join(p, c)
		r = append(r, mkInfo(q, files[q]))
	}
	return r, nil
}

//gosym:model (*os.File).Readdirnames
func zzReaddirnames(f *os.File, n int) ([]string, error) {
	x, e := h(f, "readdirent")
	if e != nil {
		return nil, e
	}
	return Children(x.name), nil
}

//gosym:model (*os.File).ReadDir
func zzFReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	x, e := h(f, "readdirent")
	if e != nil {
		return nil, e
	}
	return zzReadDir(x.name)
}

var tmps int

// TempDir stands for verifrt.TempDir on the modelled file system.
//
//gosym:model common/verifrt.TempDir
func zzTempDir() string {
	tmps++
	d := "/vtmp/d" + strconv.Itoa(tmps)
	MkAll(d)
	return d
}
