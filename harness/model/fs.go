package model

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/bab-sh/bab/internal/zzverif/sym"
)

// entry is a file or directory of the modelled tree.
type entry struct {
	path    string
	dir     bool
	data    string
	durable string // what survives a power failure
	synced  bool
	mtime   time.Time
	mode    fs.FileMode
	link    string // where a symbolic link leads
}

type handle struct {
	f      *os.File
	path   string
	e      *entry
	pos    int
	write  bool
	app    bool
	closed bool
}

var (
	entries []*entry
	handles []*handle
	cwd     string
	temps   int
	links   int

	stdoutBuf, stderrBuf string

	// Faults is the number of file operations that may still fail.
	Faults int
	// CrashAt is the number of changing operations after which the process is dead (-1: never).
	CrashAt = -1
	// FSSteps makes changing operations scheduling points.
	FSSteps bool
	// Changes counts the changing operations.
	Changes  int
	dead     bool
	FSLog    []string
	FaultLog []string
)

// Root is the directory a harness may use.
func Root() string {
	if !sym.Symbolic() {
		return os.Getenv("ZZSCRATCH")
	}
	return "/w"
}

// P is a path below Root.
func P(rel string) string { return filepath.Join(Root(), rel) }

// Rel removes Root from every place in a text.
func Rel(s string) string { return strings.ReplaceAll(s, Root(), "") }

func init() {
	if !sym.Symbolic() {
		return
	}
	entries = append(entries, &entry{path: "/", dir: true}, &entry{path: "/w", dir: true})
	cwd = "/w"
}

func find(p string) *entry {
	for _, e := range entries {
		if e.path == p {
			return e
		}
	}
	return nil
}

func abs(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = cwd + "/" + p
	}
	return filepath.Clean(p)
}

// Mkdir creates a directory and its parents.
func Mkdir(p string) {
	if !sym.Symbolic() {
		must(os.MkdirAll(p, 0o755))
		return
	}
	p = abs(p)
	if find(p) != nil {
		return
	}
	Mkdir(filepath.Dir(p))
	entries = append(entries, &entry{path: p, dir: true, mode: fs.ModeDir | 0o755})
}

// Write creates a file with its parent directories.
func Write(p, data string) {
	Mkdir(filepath.Dir(p))
	if !sym.Symbolic() {
		must(os.WriteFile(p, []byte(data), 0o644))
		return
	}
	p = abs(p)
	if e := find(p); e != nil {
		e.data, e.durable, e.synced = data, data, true
		return
	}
	entries = append(entries, &entry{path: p, data: data, durable: data, synced: true, mode: 0o644})
}

// Link creates a symbolic link with its parent directories.
func Link(p, target string) {
	Mkdir(filepath.Dir(p))
	if !sym.Symbolic() {
		must(os.Symlink(target, p))
		return
	}
	links++
	entries = append(entries, &entry{path: abs(p), link: target, mode: fs.ModeSymlink | 0o777})
}

// resolve follows the symbolic links of an absolute path, the last one only if wanted.
func resolve(op, p, a string, last bool) (string, error) {
	if links == 0 {
		return a, nil
	}
	for n := 0; n < 40; n++ {
		again := false
		for i := 1; i <= len(a); i++ {
			if i < len(a) && a[i] != '/' || i == len(a) && !last {
				continue
			}
			e := find(a[:i])
			if e == nil || e.link == "" {
				continue
			}
			t := e.link
			if t[0] != '/' {
				t = filepath.Dir(e.path) + "/" + t
			}
			a = filepath.Clean(t + a[i:])
			again = true
			break
		}
		if !again {
			return a, nil
		}
	}
	return "", &fs.PathError{Op: op, Path: p, Err: syscall.ELOOP}
}

// SetModTime sets the modification time of a file.
func SetModTime(p string, t time.Time) {
	if !sym.Symbolic() {
		must(os.Chtimes(p, t, t))
		return
	}
	find(abs(p)).mtime = t
}

// Delete removes a file.
func Delete(p string) {
	if !sym.Symbolic() {
		_ = os.Remove(p)
		return
	}
	p = abs(p)
	for i, e := range entries {
		if e.path == p {
			entries = append(entries[:i:i], entries[i+1:]...)
			return
		}
	}
}

// Read returns the content of a file, and whether it exists.
func Read(p string) (string, bool) {
	if !sym.Symbolic() {
		b, err := os.ReadFile(p)
		return string(b), err == nil
	}
	e := find(abs(p))
	if e == nil || e.dir {
		return "", false
	}
	return e.data, true
}

// Names lists a directory.
func Names(p string) []string {
	var r []string
	if !sym.Symbolic() {
		es, _ := os.ReadDir(p)
		for _, e := range es {
			r = append(r, e.Name())
		}
		return r
	}
	for _, e := range children(abs(p)) {
		r = append(r, filepath.Base(e.path))
	}
	return r
}

// Chdir changes the working directory.
func Chdir(p string) {
	if !sym.Symbolic() {
		must(os.Chdir(p))
		return
	}
	cwd = abs(p)
}

func must(err error) {
	if err != nil {
		panic("zz model: " + err.Error())
	}
}

// Crash ends the process: nothing it does from here on has an effect.
func Crash() { dead = true }

// Dead reports whether the process has crashed.
func Dead() bool { return dead }

// Restart begins a new process on the same disk. With power set, only what was made durable
// is left of file contents.
func Restart(power bool) {
	dead = false
	CrashAt = -1
	Changes = 0
	handles = nil
	if !power {
		return
	}
	for _, e := range entries {
		if !e.dir && !e.synced {
			e.data = e.durable
			e.synced = true
		}
	}
}

// change is called before every changing operation; it reports whether it takes effect.
func change(what string) bool {
	if FSSteps {
		sym.Yield()
	}
	if dead {
		return false
	}
	if CrashAt >= 0 && Changes >= CrashAt {
		dead = true
		return false
	}
	Changes++
	FSLog = append(FSLog, what)
	return true
}

var errDead = errors.New("process is dead")

// fault decides whether this operation fails.
func fault(op, path string) error {
	if Faults <= 0 {
		return nil
	}
	if !sym.Flag("fault." + op) {
		return nil
	}
	Faults--
	FaultLog = append(FaultLog, op)
	return &fs.PathError{Op: op, Path: path, Err: syscall.EIO}
}

func notExist(op, p string) error { return &fs.PathError{Op: op, Path: p, Err: syscall.ENOENT} }

type info struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime time.Time
	dir   bool
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.mode }
func (i info) ModTime() time.Time         { return i.mtime }
func (i info) IsDir() bool                { return i.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

type dirEntry struct {
	info
	path string
}

func (d dirEntry) Info() (fs.FileInfo, error) {
	if find(d.path) == nil {
		return nil, notExist("lstat", d.path)
	}
	return d.info, nil
}

func (e *entry) info() info {
	m := e.mode
	if e.dir {
		m |= fs.ModeDir
	}
	return info{name: filepath.Base(e.path), size: int64(len(e.data)), mode: m, mtime: e.mtime, dir: e.dir}
}

// lookup is find with the errors of a path walk.
func lookup(op, p string) (*entry, error) {
	if p == "" {
		return nil, notExist(op, p)
	}
	a, err := resolve(op, p, abs(p), op != "lstat" && op != "readlink")
	if err != nil {
		return nil, err
	}
	if e := find(a); e != nil {
		if !e.dir && strings.HasSuffix(p, "/") {
			return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOTDIR}
		}
		return e, nil
	}
	for d := filepath.Dir(a); ; d = filepath.Dir(d) {
		if e := find(d); e != nil {
			if !e.dir {
				return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOTDIR}
			}
			break
		}
		if d == "/" {
			break
		}
	}
	return nil, notExist(op, p)
}

//zz:replace os.Stat
func Stat(p string) (os.FileInfo, error) { return stat("stat", p) }

//zz:replace os.Lstat
func Lstat(p string) (os.FileInfo, error) { return stat("lstat", p) }

func stat(op, p string) (os.FileInfo, error) {
	e, err := lookup(op, p)
	if err != nil {
		return nil, err
	}
	if err := fault(op, p); err != nil {
		return nil, err
	}
	i := e.info()
	i.name = filepath.Base(abs(p))
	return i, nil
}

//zz:replace os.Readlink
func Readlink(p string) (string, error) {
	e, err := lookup("readlink", p)
	if err != nil {
		return "", err
	}
	if e.link == "" {
		return "", &fs.PathError{Op: "readlink", Path: p, Err: syscall.EINVAL}
	}
	return e.link, nil
}

//zz:replace os.ReadFile
func ReadFile(p string) ([]byte, error) {
	e, err := lookup("open", p)
	if err != nil {
		return nil, err
	}
	if err := fault("open", p); err != nil {
		return nil, err
	}
	if e.dir {
		return nil, &fs.PathError{Op: "read", Path: p, Err: syscall.EISDIR}
	}
	return []byte(e.data), nil
}

//zz:replace os.Getwd syscall.Getwd
func Getwd() (string, error) { return cwd, nil }

//zz:replace os.Chdir
func osChdir(p string) error {
	e, err := lookup("chdir", p)
	if err != nil {
		return err
	}
	if !e.dir {
		return &fs.PathError{Op: "chdir", Path: p, Err: syscall.ENOTDIR}
	}
	cwd = e.path
	return nil
}

func children(p string) []*entry {
	var r []*entry
	for _, e := range entries {
		if e.path != "/" && filepath.Dir(e.path) == p {
			i := len(r)
			for i > 0 && r[i-1].path > e.path {
				i--
			}
			r = append(r, nil)
			copy(r[i+1:], r[i:])
			r[i] = e
		}
	}
	return r
}

//zz:replace os.ReadDir
func ReadDir(p string) ([]os.DirEntry, error) {
	e, err := lookup("open", p)
	if err != nil {
		return nil, err
	}
	if err := fault("readdir", p); err != nil {
		return nil, err
	}
	if !e.dir {
		return nil, &fs.PathError{Op: "readdirent", Path: p, Err: syscall.ENOTDIR}
	}
	var r []os.DirEntry
	for _, c := range children(e.path) {
		r = append(r, dirEntry{c.info(), c.path})
	}
	return r, nil
}

//zz:replace path/filepath.Glob
func Glob(pattern string) ([]string, error) {
	var r []string
	for _, c := range children(abs(filepath.Dir(pattern))) {
		ok, err := filepath.Match(filepath.Base(pattern), filepath.Base(c.path))
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, filepath.Join(filepath.Dir(pattern), filepath.Base(c.path)))
		}
	}
	return r, nil
}

func mkdirAll(p string) error {
	a := abs(p)
	if e := find(a); e != nil {
		if !e.dir {
			return &fs.PathError{Op: "mkdir", Path: p, Err: syscall.ENOTDIR}
		}
		return nil
	}
	if err := mkdirAll(filepath.Dir(a)); err != nil {
		return err
	}
	if !change("mkdir") {
		return errDead
	}
	entries = append(entries, &entry{path: a, dir: true, mode: fs.ModeDir | 0o755})
	return nil
}

//zz:replace os.MkdirAll
func MkdirAll(p string, perm os.FileMode) error {
	if err := fault("mkdir", p); err != nil {
		return err
	}
	return mkdirAll(p)
}

//zz:replace os.Mkdir
func osMkdir(p string, perm os.FileMode) error {
	a := abs(p)
	if find(a) != nil {
		return &fs.PathError{Op: "mkdir", Path: p, Err: syscall.EEXIST}
	}
	if find(filepath.Dir(a)) == nil {
		return notExist("mkdir", p)
	}
	return mkdirAll(p)
}

//zz:replace os.Remove
func Remove(p string) error {
	a := abs(p)
	e := find(a)
	if e == nil {
		return notExist("remove", p)
	}
	if e.dir && len(children(a)) > 0 {
		return &fs.PathError{Op: "remove", Path: p, Err: syscall.ENOTEMPTY}
	}
	if err := fault("remove", p); err != nil {
		return err
	}
	if !change("remove") {
		return errDead
	}
	drop(e)
	return nil
}

func drop(e *entry) {
	for i, x := range entries {
		if x == e {
			entries = append(entries[:i:i], entries[i+1:]...)
			return
		}
	}
}

//zz:replace os.RemoveAll
func RemoveAll(p string) error {
	a := abs(p)
	var keep []*entry
	for _, e := range entries {
		if e.path != a && !strings.HasPrefix(e.path, a+"/") {
			keep = append(keep, e)
		}
	}
	if !change("removeall") {
		return errDead
	}
	entries = keep
	return nil
}

//zz:replace os.Rename
func Rename(from, to string) error {
	link := func(err error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: err} }
	e := find(abs(from))
	if e == nil {
		return link(syscall.ENOENT)
	}
	b := abs(to)
	if p := find(filepath.Dir(b)); p == nil || !p.dir {
		return link(syscall.ENOENT)
	}
	if err := fault("rename", from); err != nil {
		return link(syscall.EIO)
	}
	t := find(b)
	if t != nil && t.dir {
		return link(syscall.EEXIST)
	}
	if t == e {
		return nil
	}
	if !change("rename") {
		return errDead
	}
	if t != nil {
		drop(t)
	}
	e.path = b
	return nil
}

//zz:replace os.Chmod
func Chmod(p string, m os.FileMode) error {
	e, err := lookup("chmod", p)
	if err != nil {
		return err
	}
	if !change("chmod") {
		return errDead
	}
	e.mode = m
	return nil
}

//zz:replace os.Chtimes
func Chtimes(p string, a, m time.Time) error {
	e, err := lookup("chtimes", p)
	if err != nil {
		return err
	}
	if !change("chtimes") {
		return errDead
	}
	e.mtime = m
	return nil
}

//zz:replace os.TempDir
func TempDir() string { return "/w" }

//zz:replace os.UserHomeDir
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "/w", nil
}

//zz:replace os.UserCacheDir
func UserCacheDir() (string, error) { return "/w/cache", nil }

func newHandle(e *entry, p string, write bool) *handle {
	h := &handle{f: new(os.File), path: p, e: e, write: write}
	handles = append(handles, h)
	return h
}

//zz:replace os.CreateTemp
func CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/w"
	}
	if p := find(abs(dir)); p == nil || !p.dir {
		return nil, notExist("open", dir)
	}
	if err := fault("create", dir); err != nil {
		return nil, err
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	temps++
	p := filepath.Join(dir, prefix+strconv.Itoa(1000+temps)+suffix)
	if !change("create") {
		return nil, errDead
	}
	e := &entry{path: abs(p), mode: 0o600, mtime: time.Now()}
	entries = append(entries, e)
	return newHandle(e, p, true).f, nil
}

//zz:replace os.OpenFile
func OpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	e, err := lookup("open", p)
	if err != nil && (flag&os.O_CREATE == 0 || !errors.Is(err, fs.ErrNotExist)) {
		return nil, err
	}
	if err := fault("open", p); err != nil {
		return nil, err
	}
	if e == nil {
		if a, err := resolve("open", p, abs(p), true); err == nil {
			p = a
		}
		if d := find(filepath.Dir(abs(p))); d == nil || !d.dir {
			return nil, notExist("open", p)
		}
		if !change("create") {
			return nil, errDead
		}
		e = &entry{path: abs(p), mode: perm, mtime: time.Now()}
		entries = append(entries, e)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: p, Err: syscall.EEXIST}
	}
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if e.dir && write {
		return nil, &fs.PathError{Op: "open", Path: p, Err: syscall.EISDIR}
	}
	if flag&os.O_TRUNC != 0 && e.data != "" {
		if !change("truncate") {
			return nil, errDead
		}
		e.data = ""
		e.synced = false
		e.durable = ""
	}
	h := newHandle(e, p, write)
	h.app = flag&os.O_APPEND != 0
	return h.f, nil
}

//zz:replace os.Open
func Open(p string) (*os.File, error) { return OpenFile(p, os.O_RDONLY, 0) }

//zz:replace os.Create
func Create(p string) (*os.File, error) {
	return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//zz:replace os.WriteFile
func WriteFile(p string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	if err1 := fileClose(f); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func handleOf(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

//zz:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f == os.Stdout {
		stdoutBuf += string(b)
		return len(b), nil
	}
	if f == os.Stderr {
		stderrBuf += string(b)
		return len(b), nil
	}
	h := handleOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	if !h.write {
		return 0, &fs.PathError{Op: "write", Path: h.path, Err: syscall.EBADF}
	}
	n := len(b)
	err := fault("write", h.path)
	if err != nil {
		n = len(b) / 2
	}
	half := -1
	if CrashAt >= 0 && Changes == CrashAt && !dead {
		half = len(b) / 2 // a crash in the middle of a write leaves a part of it
	}
	if !change("write") {
		if half >= 0 {
			h.put(b[:half])
		}
		return 0, errDead
	}
	h.put(b[:n])
	return n, err
}

func (h *handle) put(b []byte) {
	if h.app {
		h.pos = len(h.e.data)
	}
	d := h.e.data
	for len(d) < h.pos {
		d += "\x00"
	}
	tail := ""
	if h.pos+len(b) < len(d) {
		tail = d[h.pos+len(b):]
	}
	h.e.data = d[:h.pos] + string(b) + tail
	h.e.synced = false
	h.pos += len(b)
}

//zz:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//zz:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f == os.Stdin {
		return 0, io.EOF
	}
	h := handleOf(f)
	if h == nil || h.closed {
		return 0, os.ErrClosed
	}
	if h.e.dir {
		return 0, &fs.PathError{Op: "read", Path: h.path, Err: syscall.EISDIR}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.e.data) {
		return 0, io.EOF
	}
	if err := fault("read", h.path); err != nil {
		return 0, err
	}
	n := copy(b, h.e.data[h.pos:])
	h.pos += n
	return n, nil
}

//zz:replace (*os.File).Close
func fileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	h := handleOf(f)
	if h == nil {
		return nil
	}
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	return fault("close", h.path)
}

//zz:replace (*os.File).Sync
func fileSync(f *os.File) error {
	h := handleOf(f)
	if h == nil || h.closed {
		return os.ErrClosed
	}
	if err := fault("sync", h.path); err != nil {
		return err
	}
	if !change("sync") {
		return errDead
	}
	h.e.synced = true
	h.e.durable = h.e.data
	return nil
}

//zz:replace (*os.File).Name
func fileName(f *os.File) string {
	switch f {
	case os.Stdin:
		return "/dev/stdin"
	case os.Stdout:
		return "/dev/stdout"
	case os.Stderr:
		return "/dev/stderr"
	}
	if h := handleOf(f); h != nil {
		return h.path
	}
	return ""
}

//zz:replace (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	if h := handleOf(f); h != nil {
		return h.e.info(), nil
	}
	return info{name: fileName(f), mode: fs.ModeDevice | fs.ModeCharDevice}, nil
}

//zz:replace (*os.File).Chmod
func fileChmod(f *os.File, m os.FileMode) error {
	if h := handleOf(f); h != nil {
		if !change("chmod") {
			return errDead
		}
		h.e.mode = m
	}
	return nil
}

//zz:replace (*os.File).Fd
func fileFd(f *os.File) uintptr {
	switch f {
	case os.Stdin:
		return 0
	case os.Stdout:
		return 1
	case os.Stderr:
		return 2
	}
	for i, h := range handles {
		if h.f == f {
			return uintptr(i + 3)
		}
	}
	return ^uintptr(0)
}

//zz:replace os.NewFile
func newFile(fd uintptr, name string) *os.File { return new(os.File) }

//zz:replace os.Pipe
func pipe() (*os.File, *os.File, error) { return nil, nil, errors.New("zz: pipes are not modelled") }
