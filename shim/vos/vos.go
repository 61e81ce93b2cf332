// Package vos replaces package os for the code under test: a model file system (executed symbolically),
// or natively the real one inside a scratch directory. Both honour the same fault and interference hooks.
package vos

import (
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sort"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs/zzverif/vrt"
)

// ---- hooks ----

// Before is called before every operation on a path; an error it returns is the operation's error.
var Before func(op, path string) error

// OnRead limits a read of n bytes to m bytes and may fail it (after delivering m bytes).
var OnRead func(path string, n int) (m int, err error)

// OnWrite limits a write of n bytes to m bytes and may fail it.
var OnWrite func(path string, n int) (m int, err error)

// MaxOps bounds the number of operations; beyond it the run is judged non-terminating.
var MaxOps = 400

// MaxSize is the largest size a file can have.
var MaxSize int64 = 1 << 24

var ops int
var inHook bool

// Opened and Closed count file descriptors.
var Opened, Closed int

// ExitPanic is the panic value that stands for process exit.
type ExitPanic struct{ Code int }

func Exit(code int) { panic(ExitPanic{code}) }

func before(op, path string) error {
	if inHook {
		return nil
	}
	ops++
	if ops > MaxOps {
		vrt.Assert(false, "terminates")
		vrt.Assume(false)
	}
	if Before == nil {
		return nil
	}
	inHook = true
	err := Before(op, path)
	inHook = false
	if err != nil {
		return &os.PathError{Op: op, Path: path, Err: err}
	}
	return nil
}

// ---- model ----

type node struct {
	path string
	data []byte
	dir  bool
}

var nodes []*node

func find(path string) *node {
	for _, n := range nodes {
		if n != nil && n.path == path {
			return n
		}
	}
	return nil
}

func unlink(path string) {
	for i, n := range nodes {
		if n != nil && n.path == path {
			nodes[i] = nil
		}
	}
}

func parentOf(path string) string {
	k := -1
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			k = i
		}
	}
	if k <= 0 {
		return ""
	}
	return path[:k]
}

func hasParent(path string) bool {
	p := parentOf(path)
	if p == "" {
		return true
	}
	n := find(p)
	return n != nil && n.dir
}

// ---- harness side access (no hooks) ----

var root string

func rp(path string) string {
	if root == "" {
		root = os.Getenv("VERIF_ROOT")
		if root == "" {
			panic("VERIF_ROOT not set")
		}
		os.MkdirAll(root+"/"+cwd, 0755)
	}
	// a ".." is a name like any other, as it is for the nodes
	l := strings.Split(path, "/")
	for i, e := range l {
		if e == ".." {
			l[i] = "..up"
		}
	}
	top := root
	if path != "" && path[0] != '/' {
		top += "/" + cwd
	}
	return filepath.Join(top, filepath.Clean("/"+strings.Join(l, "/")))
}

// cwd is where relative paths lead to.
const cwd = "..cwd"

// Put creates or replaces a file and its parent directories.
func Put(path string, data []byte) {
	if !vrt.Symbolic() {
		os.MkdirAll(filepath.Dir(rp(path)), 0755)
		if err := ioutil.WriteFile(rp(path), data, 0644); err != nil {
			panic(err)
		}
		return
	}
	mkdirs(parentOf(path))
	n := find(path)
	if n == nil {
		n = &node{path: path}
		nodes = append(nodes, n)
	}
	n.data = append([]byte(nil), data...)
}

func mkdirs(p string) {
	for p != "" {
		if find(p) != nil {
			return
		}
		nodes = append(nodes, &node{path: p, dir: true})
		p = parentOf(p)
	}
}

// PutDir creates a directory and its parents.
func PutDir(path string) {
	if !vrt.Symbolic() {
		os.MkdirAll(rp(path), 0755)
		return
	}
	mkdirs(path)
}

// Get returns the content of a file.
func Get(path string) ([]byte, bool) {
	if !vrt.Symbolic() {
		b, err := ioutil.ReadFile(rp(path))
		return b, err == nil
	}
	n := find(path)
	if n == nil || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Has tells whether a path exists.
func Has(path string) bool {
	if !vrt.Symbolic() {
		_, err := os.Lstat(rp(path))
		return err == nil
	}
	return find(path) != nil
}

// Paths lists the files and directories there are.
func Paths() (l []string) {
	if !vrt.Symbolic() {
		top := rp("/")
		filepath.Walk(top, func(p string, i os.FileInfo, err error) error {
			if err == nil && len(p) > len(top) && p != top+"/"+cwd {
				l = append(l, strings.TrimPrefix(p[len(top):], "/"+cwd+"/"))
			}
			return nil
		})
		return l
	}
	for _, n := range nodes {
		if n != nil {
			l = append(l, n.path)
		}
	}
	return l
}

// Count is the number of regular files under a directory prefix.
func Count(prefix string) int {
	c := 0
	if !vrt.Symbolic() {
		filepath.Walk(rp(prefix), func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() {
				c++
			}
			return nil
		})
		return c
	}
	for _, n := range nodes {
		if n != nil && !n.dir && len(n.path) > len(prefix) && n.path[:len(prefix)] == prefix && n.path[len(prefix)] == '/' {
			c++
		}
	}
	return c
}

// Append adds data to a file, as another process would.
func Append(path string, data []byte) {
	if !vrt.Symbolic() {
		f, err := os.OpenFile(rp(path), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err != nil {
			panic(err)
		}
		f.Write(data)
		f.Close()
		return
	}
	n := find(path)
	if n == nil {
		Put(path, data)
		return
	}
	n.data = append(n.data[:len(n.data):len(n.data)], data...)
}

// ---- package os API ----

type File struct {
	f      *os.File // native
	n      *node
	off    int64
	flag   int
	name   string
	closed bool
	fd     int
}

var opened []*File

// ByFd finds an open file of the model.
func ByFd(fd int) (data []byte, flag int, ok bool) {
	for _, f := range opened {
		if f.fd == fd && !f.closed && f.n != nil {
			return f.n.data, f.flag, true
		}
	}
	return nil, 0, false
}

// Room gives an open file of the model room for n bytes without changing its length: the rest of its last page.
func Room(fd int, n int) (data []byte) {
	for _, f := range opened {
		if f.fd == fd && !f.closed && f.n != nil {
			if cap(f.n.data) < n {
				x := make([]byte, n)
				copy(x, f.n.data)
				f.n.data = x[:len(f.n.data)]
			}
			return f.n.data[:n]
		}
	}
	return nil
}

// ---- advisory locks ----

// Actor names the process which is running.
var Actor int

// OnLock is called before every attempt to lock; an error it returns is the attempt's error.
var OnLock func(path string) error

// Refused tells that somebody who would not wait was refused a lock.
var Refused bool

// NoWait makes an attempt to lock which would have to wait fail.
var NoWait bool

type lock struct {
	f         *File
	exclusive bool
	actor     int
}

var locks []lock

func release(f *File) {
	var l []lock
	for _, k := range locks {
		if k.f != f {
			l = append(l, k)
		}
	}
	locks = l
}

// Locked tells whether somebody holds a lock of the file.
func Locked(path string) bool {
	for _, k := range locks {
		if k.f.name == path {
			return true
		}
	}
	return false
}

// Flock locks a file for an actor. One which would have to wait for another actor ends the run: its own
// attempt after the other's release is another schedule. One which waits for itself waits forever.
func Flock(fd int, how int) error {
	var f *File
	for _, x := range opened {
		if x.fd == fd && !x.closed {
			f = x
		}
	}
	if f == nil {
		return syscall.EBADF
	}
	if how&syscall.LOCK_UN != 0 {
		release(f)
		return nil
	}
	if OnLock != nil && !inHook {
		inHook = true
		err := OnLock(f.name)
		inHook = false
		if err != nil {
			return err
		}
	}
	ex := how&syscall.LOCK_EX != 0
	for _, k := range locks {
		if k.f != f && k.f.name == f.name && (ex || k.exclusive) {
			if how&syscall.LOCK_NB != 0 || NoWait {
				Refused = true
				return syscall.EWOULDBLOCK
			}
			vrt.Assert(k.actor != Actor, "no-deadlock")
			vrt.Assume(false)
		}
	}
	release(f)
	locks = append(locks, lock{f, ex, Actor})
	return nil
}

var Args = []string{"prog"}

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

// fix strips the scratch prefix from native errors.
func fix(err error, path string) error {
	if err == nil {
		return nil
	}
	if pe, ok := err.(*os.PathError); ok {
		return &os.PathError{Op: pe.Op, Path: path, Err: pe.Err}
	}
	return err
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if err := before("open", name); err != nil {
		return nil, err
	}
	if !vrt.Symbolic() {
		f, err := os.OpenFile(rp(name), flag, perm)
		if err != nil {
			return nil, fix(err, name)
		}
		Opened++
		return &File{f: f, name: name, flag: flag}, nil
	}
	n := find(name)
	if n == nil {
		if flag&os.O_CREATE == 0 || !hasParent(name) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &node{path: name}
		nodes = append(nodes, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = nil
		}
	}
	Opened++
	return &File{n: n, name: name, flag: flag}, nil
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return before(op, f.name)
}

func (f *File) canRead() bool  { return f.flag&(os.O_WRONLY|os.O_RDWR) != os.O_WRONLY }
func (f *File) canWrite() bool { return f.flag&(os.O_WRONLY|os.O_RDWR) != 0 }

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr {
	if f.f != nil {
		if f.fd == 0 {
			opened = append(opened, f)
			f.fd = int(f.f.Fd())
		}
		return uintptr(f.fd)
	}
	if f.fd == 0 {
		opened = append(opened, f)
		f.fd = 2 + len(opened)
	}
	return uintptr(f.fd)
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	Closed++
	release(f)
	if f.f != nil {
		return fix(f.f.Close(), f.name)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	n, err := f.pread(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) pread(b []byte, off int64) (int, error) {
	lim := len(b)
	var herr error
	if OnRead != nil && !inHook {
		inHook = true
		lim, herr = OnRead(f.name, len(b))
		inHook = false
		if herr != nil {
			herr = perr("read", f.name, herr)
		}
	}
	if f.f != nil {
		if lim == 0 && herr != nil {
			return 0, herr
		}
		n, err := f.f.ReadAt(b[:lim], off)
		if n > 0 && err == io.EOF {
			err = nil
		}
		if err == nil {
			err = herr
		}
		return n, fix(err, f.name)
	}
	if !f.canRead() {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if lim == 0 && herr != nil {
		return 0, herr
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b[:lim], f.n.data[off:])
	return n, herr
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	t := 0
	for len(b) > 0 {
		if err := f.check("read"); err != nil {
			return t, err
		}
		n, err := f.pread(b, off)
		t += n
		b = b[n:]
		off += int64(n)
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, err := f.pwrite(b, f.off, f.flag&os.O_APPEND != 0)
	if f.n != nil && f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	} else {
		f.off += int64(n)
	}
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return n, err
}

func (f *File) pwrite(b []byte, off int64, app bool) (int, error) {
	lim := len(b)
	if off >= MaxSize && !app {
		return 0, perr("write", f.name, syscall.EFBIG)
	}
	var herr error
	if OnWrite != nil && !inHook {
		inHook = true
		lim, herr = OnWrite(f.name, len(b))
		inHook = false
		if herr != nil {
			herr = perr("write", f.name, herr)
		}
	}
	if f.f != nil {
		if lim == 0 && herr != nil {
			return 0, herr
		}
		var n int
		var err error
		if app {
			n, err = f.f.Write(b[:lim])
		} else {
			n, err = f.f.WriteAt(b[:lim], off)
		}
		if err == nil {
			err = herr
		}
		return n, fix(err, f.name)
	}
	if !f.canWrite() {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if lim == 0 {
		return 0, herr
	}
	nd := f.n
	if app {
		nd.data = append(nd.data[:len(nd.data):len(nd.data)], b[:lim]...)
		return lim, herr
	}
	end := off + int64(lim)
	if end > int64(len(nd.data)) {
		x := make([]byte, end)
		copy(x, nd.data)
		nd.data = x
	}
	copy(nd.data[off:], b[:lim])
	return lim, herr
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, err := f.pwrite(b, off, false)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) size() int64 {
	if f.f != nil {
		st, err := f.f.Stat()
		if err != nil {
			return 0
		}
		return st.Size()
	}
	return int64(len(f.n.data))
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	var o int64
	switch whence {
	case 0:
		o = offset
	case 1:
		o = f.off + offset
	case 2:
		o = f.size() + offset
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if o < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = o
	return o, nil
}

func (f *File) Sync() error { return f.check("sync") }

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.f != nil {
		return fix(f.f.Truncate(size), f.name)
	}
	if size < 0 || !f.canWrite() {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	f.n.resize(size)
	return nil
}

func (n *node) resize(size int64) {
	x := make([]byte, size)
	copy(x, n.data)
	n.data = x
}

func (f *File) Chmod(os.FileMode) error { return f.check("chmod") }

type info struct {
	name string
	size int64
	dir  bool
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (i *info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return nil }

func base(p string) string {
	d := parentOf(p)
	if d == "" {
		return p
	}
	return p[len(d)+1:]
}

func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.f != nil {
		st, err := f.f.Stat()
		return st, fix(err, f.name)
	}
	return &info{base(f.name), int64(len(f.n.data)), f.n.dir}, nil
}

func Stat(name string) (os.FileInfo, error) {
	if err := before("stat", name); err != nil {
		return nil, err
	}
	if !vrt.Symbolic() {
		st, err := os.Stat(rp(name))
		return st, fix(err, name)
	}
	n := find(name)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{base(name), int64(len(n.data)), n.dir}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	if err := before("remove", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.Remove(rp(name)), name)
	}
	n := find(name)
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir {
		for _, m := range nodes {
			if m != nil && parentOf(m.path) == name {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	unlink(name)
	return nil
}

func RemoveAll(name string) error {
	if err := before("remove", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.RemoveAll(rp(name)), name)
	}
	for i, m := range nodes {
		if m != nil && (m.path == name || len(m.path) > len(name) && m.path[:len(name)+1] == name+"/") {
			nodes[i] = nil
		}
	}
	return nil
}

func Rename(a, b string) error {
	if err := before("rename", a); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return os.Rename(rp(a), rp(b))
	}
	n := find(a)
	if n == nil || !hasParent(b) {
		return perr("rename", a, syscall.ENOENT)
	}
	unlink(b)
	n.path = b
	return nil
}

func Truncate(name string, size int64) error {
	if err := before("truncate", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.Truncate(rp(name), size), name)
	}
	n := find(name)
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	n.resize(size)
	return nil
}

func Chmod(name string, mode os.FileMode) error {
	if err := before("chmod", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.Chmod(rp(name), mode), name)
	}
	if find(name) == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	return nil
}

func Chtimes(name string, atime, mtime time.Time) error {
	if err := before("chtimes", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.Chtimes(rp(name), atime, mtime), name)
	}
	if find(name) == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	return nil
}

// Link makes a copy: the model has no files with two names, which matters only when one of them is written.
func Link(a, b string) error {
	if err := before("link", a); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return os.Link(rp(a), rp(b))
	}
	n := find(a)
	if n == nil || n.dir || !hasParent(b) {
		return perr("link", a, syscall.ENOENT)
	}
	if find(b) != nil {
		return perr("link", b, syscall.EEXIST)
	}
	nodes = append(nodes, &node{path: b, data: append([]byte(nil), n.data...)})
	return nil
}

func Getpagesize() int { return 4096 }

func Getpid() int { return 4242 }

func Mkdir(name string, perm os.FileMode) error {
	if err := before("mkdir", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.Mkdir(rp(name), perm), name)
	}
	if find(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !hasParent(name) {
		return perr("mkdir", name, syscall.ENOENT)
	}
	nodes = append(nodes, &node{path: name, dir: true})
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	if err := before("mkdir", name); err != nil {
		return err
	}
	if !vrt.Symbolic() {
		return fix(os.MkdirAll(rp(name), perm), name)
	}
	mkdirs(name)
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	for {
		if err := f.check("read"); err != nil {
			return out, err
		}
		buf := make([]byte, 512)
		n, err := f.pread(buf, f.off)
		f.off += int64(n)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// TempFile creates a new file dir/pattern+number.
func CreateTemp(dir, pattern string) (*File, error) {
	k := len(pattern)
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			k = i
			break
		}
	}
	suffix := ""
	if k < len(pattern) {
		suffix = pattern[k+1:]
	}
	name := dir + "/" + pattern[:k] + "t0" + suffix
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// DescriptorsClosed tells whether every opened file was closed.
func DescriptorsClosed() bool { return Opened == Closed }

var _ = sort.Strings
