// Package gworld simulates what the generators depend on: a disk, the network, the end of the process.
package gworld

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

// Fault hits the Nth operation of its kind (all from then on if Sticky).
//
// Kinds: open, create, read, write, close, readdir, rename, sync, mkdir: errors.
// crash: the process and the machine stop at the Nth operation on the disk.
type Fault struct {
	Op     string `json:"op"`
	Nth    int    `json:"nth"`
	Sticky bool   `json:"sticky,omitempty"`
	Arg    int    `json:"arg,omitempty"` // write: bytes written before the error; close: bytes lost
	Err    int    `json:"err,omitempty"` // kind of error
}

// NetFault hits the Nth request (all from then on if Sticky).
//
// Kinds: refuse (no response), status (Arg), cut (the connection is lost after Arg bytes), reset (read error after Arg bytes),
// chunk (reads give at most Arg bytes), empty (a read of no bytes after Arg bytes), late (the last bytes come with the end).
type NetFault struct {
	Op     string `json:"op"`
	Nth    int    `json:"nth"`
	Sticky bool   `json:"sticky,omitempty"`
	Arg    int    `json:"arg,omitempty"`
	Err    int    `json:"err,omitempty"` // kind of error
}

// Node is a file or a directory.
type Node struct {
	Data  []byte
	Dir   bool
	Link  string // a symbolic link to there
	Mtime int64
	mode  fs.FileMode
	safe  int // bytes which are on the disk for sure
}

// World is all there is.
type World struct {
	Nodes     map[string]*Node
	Faults    []Fault
	Chunked   bool // bodies come in chunks, without a length
	NetFaults []NetFault
	Chunk     int // reads from the disk give at most that many bytes
	Pages     map[string]string
	Fired     func(kind string)

	Hits     []string // errors that the generator must report
	NetHits  []string
	ReadEnds map[string]int // files read to their end
	Exited   bool
	Code     int
	Crashed  bool
	Panicked string
	dead     bool
	clock    int64
	counts   map[string]int
	requests int
	kind     int // of the last error
}

// W is the current world.
var W *World

var (
	errIO   = errors.New("input/output error")
	errFull = errors.New("no space left on device")
)

// New world.
func New(fired func(string)) *World {
	return &World{Nodes: map[string]*Node{"/": {Dir: true}}, Pages: map[string]string{}, Fired: fired}
}

// Boot starts a new process.
func (w *World) Boot() {
	w.Hits, w.NetHits, w.ReadEnds, w.counts = nil, nil, map[string]int{}, map[string]int{}
	w.Exited, w.Code, w.Crashed, w.dead, w.requests, w.Panicked = false, 0, false, false, 0, ""
}

// End of the process.
func (w *World) End() { w.dead = true }

// Dead tells that the process is no more.
func (w *World) Dead() bool { return w.dead }

// Put a file.
func (w *World) Put(name, data string) {
	name = clean(name)
	for d := path.Dir(name); d != "/"; d = path.Dir(d) {
		if w.Nodes[d] == nil {
			w.Nodes[d] = &Node{Dir: true}
		}
	}
	w.clock++
	w.Nodes[name] = &Node{Data: []byte(data), Mtime: w.clock, safe: len(data)}
}

// PutLink puts a symbolic link.
func (w *World) PutLink(name, to string) {
	w.Put(name, "")
	w.Nodes[clean(name)].Link = clean(to)
}

// Resolve follows symbolic links.
func (w *World) Resolve(key string) string {
	for i := 0; i < 10; i++ {
		n := w.Nodes[key]
		if n == nil || n.Link == "" {
			break
		}
		key = n.Link
	}
	return key
}

// Get the content of a file.
func (w *World) Get(name string) (string, bool) {
	n := w.Nodes[w.Resolve(clean(name))]
	if n == nil || n.Dir {
		return "", false
	}
	return string(n.Data), true
}

func clean(name string) string { return path.Clean("/" + name) }

// Exit ends the process.
func Exit(code int) {
	if !W.dead {
		W.Exited, W.Code, W.dead = true, code, true
	}
	simrt.Die()
}

// op is an operation on the disk: it tells whether it fails.
func (w *World) op(kind string) *Fault {
	simrt.YH(-50)
	if w.dead {
		simrt.Die()
	}
	w.clock++
	w.counts["crash"]++
	w.counts[kind]++
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Op == "crash" && f.Nth == w.counts["crash"] {
			w.Fired("crash-during-" + kind)
			w.crash()
		}
	}
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Op == kind && (f.Nth == w.counts[kind] || f.Sticky && f.Nth <= w.counts[kind]) {
			w.kind = f.Err
			return f
		}
	}
	return nil
}

// crash loses, for each file, some of what is not on the disk for sure.
func (w *World) crash() {
	w.Crashed, w.dead = true, true
	var names []string
	for n := range w.Nodes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := w.Nodes[n]
		if lost := len(f.Data) - f.safe; lost > 0 {
			keep := int(simrt.Draw(uint64(lost + 1)))
			f.Data = f.Data[:f.safe+keep]
			f.safe = len(f.Data)
		}
	}
	simrt.Die()
}

func (w *World) hit(kind, name string) {
	w.Fired(kind + "-error")
	w.Hits = append(w.Hits, kind+" "+name)
}

// File is an open file.
type File struct {
	name   string
	key    string
	node   *Node
	pos    int
	flags  int
	closed bool
	bad    bool
	listed bool
	std    bool
}

// Flags of OpenFile.
const (
	RDONLY = 0x0
	WRONLY = 0x1
	RDWR   = 0x2
	APPEND = 0x400
	CREATE = 0x40
	EXCL   = 0x80
	SYNC   = 0x101000
	TRUNC  = 0x200
)

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

// Std is a standard stream.
func Std(name string) *File { return &File{name: name, std: true} }

// OpenFile opens a file.
func OpenFile(name string, flags int, mode fs.FileMode) (*File, error) {
	w := W
	kind := "open"
	if flags&CREATE != 0 {
		kind = "create"
	}
	key := clean(name)
	if w.op(kind) != nil {
		w.hit(kind, name)
		return nil, perr("open", name, simrt.ErrOf(w.kind, errIO))
	}
	if flags&EXCL == 0 {
		if to := w.Resolve(key); to != key {
			w.Fired("symbolic-link")
			key = to
		}
	}
	n := w.Nodes[key]
	switch {
	case n == nil && flags&CREATE == 0:
		return nil, perr("open", name, fs.ErrNotExist)
	case n != nil && flags&CREATE != 0 && flags&EXCL != 0:
		return nil, perr("open", name, fs.ErrExist)
	case n != nil && n.Dir && flags&(WRONLY|RDWR) != 0:
		return nil, perr("open", name, errors.New("is a directory"))
	case n == nil:
		if d := w.Nodes[path.Dir(key)]; d == nil || !d.Dir {
			return nil, perr("open", name, fs.ErrNotExist)
		}
		n = &Node{Mtime: w.clock, mode: mode}
		w.Nodes[key] = n
	case flags&TRUNC != 0:
		n.Data, n.safe, n.Mtime = nil, 0, w.clock
	}
	return &File{name: name, key: key, node: n, flags: flags}, nil
}

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, fs.ErrClosed)
	}
	return nil
}

// Name of the file.
func (f *File) Name() string { return f.name }

// Fd is of no use.
func (f *File) Fd() uintptr { return 99 }

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std || len(p) == 0 {
		return 0, io.EOF
	}
	w := W
	flt := w.op("read")
	if flt != nil || f.bad {
		f.bad = true
		w.hit("read", f.name)
		return 0, perr("read", f.name, simrt.ErrOf(w.kind, errIO))
	}
	if f.node.Dir {
		return 0, perr("read", f.name, errors.New("is a directory"))
	}
	if f.pos >= len(f.node.Data) {
		w.ReadEnds[f.key]++
		return 0, io.EOF
	}
	if w.Chunk > 0 && len(p) > w.Chunk {
		p = p[:w.Chunk]
		w.Fired("short-read")
	}
	n := copy(p, f.node.Data[f.pos:])
	f.pos += n
	return n, nil
}

// ReadAt reads at a place.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	keep := f.pos
	defer func() { f.pos = keep }()
	f.pos = int(off)
	return io.ReadFull(onlyReader{f}, p)
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func (f *File) Write(p []byte) (int, error) {
	if f != nil && f.std {
		return len(p), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flags&(WRONLY|RDWR) == 0 {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	if len(p) == 0 {
		return 0, nil
	}
	w := W
	flt := w.op("write")
	n := len(p)
	if flt != nil {
		if n = flt.Arg; n >= len(p) {
			n = len(p) - 1
		}
		if n > 0 {
			w.Fired("short-write")
		}
	}
	if f.flags&APPEND != 0 {
		f.pos = len(f.node.Data)
	}
	for f.pos > len(f.node.Data) {
		f.node.Data = append(f.node.Data, 0)
	}
	f.node.Data = append(f.node.Data, p[copy(f.node.Data[f.pos:], p[:n]):n]...)
	if f.pos < f.node.safe {
		f.node.safe = f.pos
	}
	f.pos += n
	f.node.Mtime = w.clock
	if flt != nil {
		w.hit("write", f.name)
		return n, perr("write", f.name, simrt.ErrOf(w.kind, errFull))
	}
	return n, nil
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom copies.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, struct{ io.Reader }{r})
}

// WriteAt writes at a place.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	keep := f.pos
	defer func() { f.pos = keep }()
	f.pos = int(off)
	return f.Write(p)
}

// Seek moves.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, fs.ErrInvalid)
	}
	f.pos = int(off)
	return off, nil
}

// Truncate the file.
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	for int64(len(f.node.Data)) < n {
		f.node.Data = append(f.node.Data, 0)
	}
	f.node.Data = f.node.Data[:n:n]
	if f.node.safe > int(n) {
		f.node.safe = int(n)
	}
	return nil
}

// Sync puts the file on the disk.
func (f *File) Sync() error {
	if f != nil && f.std {
		return nil
	}
	if err := f.check("sync"); err != nil {
		return err
	}
	if W.op("sync") != nil {
		W.hit("sync", f.name)
		return perr("sync", f.name, simrt.ErrOf(W.kind, errIO))
	}
	f.node.safe = len(f.node.Data)
	return nil
}

// Close the file.
func (f *File) Close() error {
	if f != nil && f.std {
		return nil
	}
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.flags&(WRONLY|RDWR) == 0 {
		return nil
	}
	if flt := W.op("close"); flt != nil {
		W.hit("close", f.name)
		if lost := flt.Arg; lost > 0 && len(f.node.Data)-f.node.safe > 0 {
			if lost > len(f.node.Data)-f.node.safe {
				lost = len(f.node.Data) - f.node.safe
			}
			f.node.Data = f.node.Data[:len(f.node.Data)-lost]
			W.Fired("lost-write")
		}
		return perr("close", f.name, simrt.ErrOf(W.kind, errFull))
	}
	return nil
}

// Chmod does nothing.
func (f *File) Chmod(fs.FileMode) error { return f.check("chmod") }

// Stat tells about the file.
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return info{path.Base(clean(f.name)), f.node}, nil
}

// ReadDir lists the directory.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.listed {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.listed = true
	return ReadDir(f.name)
}

// Readdir lists the directory.
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

// Readdirnames lists the directory.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	switch {
	case i.n.Dir:
		return fs.ModeDir | 0o755
	case i.n.Link != "":
		return fs.ModeSymlink | 0o777
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Unix(1e9+i.n.Mtime, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() interface{}   { return nil }

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.DirEntry, error) {
	w := W
	if w.op("readdir") != nil {
		w.hit("readdir", name)
		return nil, perr("readdir", name, simrt.ErrOf(w.kind, errIO))
	}
	key := w.Resolve(clean(name))
	n := w.Nodes[key]
	if n == nil {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	if !n.Dir {
		return nil, perr("readdir", name, errors.New("not a directory"))
	}
	var names []string
	for k := range w.Nodes {
		if k != "/" && path.Dir(k) == key {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	out := make([]fs.DirEntry, 0, len(names))
	for _, k := range names {
		out = append(out, fs.FileInfoToDirEntry(info{path.Base(k), w.Nodes[k]}))
	}
	return out, nil
}

// Stat tells about a file.
func Stat(name string) (fs.FileInfo, error) {
	W.op("stat")
	n := W.Nodes[W.Resolve(clean(name))]
	if n == nil {
		return nil, perr("stat", name, fs.ErrNotExist)
	}
	return info{path.Base(clean(name)), n}, nil
}

// Lstat tells about a file, perhaps a link.
func Lstat(name string) (fs.FileInfo, error) {
	W.op("stat")
	n := W.Nodes[clean(name)]
	if n == nil {
		return nil, perr("lstat", name, fs.ErrNotExist)
	}
	return info{path.Base(clean(name)), n}, nil
}

// Readlink tells where a link leads to.
func Readlink(name string) (string, error) {
	W.op("stat")
	n := W.Nodes[clean(name)]
	switch {
	case n == nil:
		return "", perr("readlink", name, fs.ErrNotExist)
	case n.Link == "":
		return "", perr("readlink", name, fs.ErrInvalid)
	}
	return n.Link, nil
}

// EvalSymlinks follows links.
func EvalSymlinks(name string) (string, error) {
	_, err := Stat(name)
	if err != nil {
		return "", err
	}
	if to := W.Resolve(clean(name)); to != clean(name) {
		return to, nil
	}
	return path.Clean(name), nil
}

// Remove a file.
func Remove(name string) error {
	W.op("remove")
	key := clean(name)
	if W.Nodes[key] == nil {
		return perr("remove", name, fs.ErrNotExist)
	}
	for k := range W.Nodes {
		if strings.HasPrefix(k, key+"/") {
			return perr("remove", name, errors.New("directory not empty"))
		}
	}
	delete(W.Nodes, key)
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	W.op("remove")
	key := clean(name)
	for k := range W.Nodes {
		if k == key || strings.HasPrefix(k, key+"/") {
			delete(W.Nodes, k)
		}
	}
	return nil
}

// Rename a file.
func Rename(from, to string) error {
	if W.op("rename") != nil {
		W.hit("rename", from)
		return &fs.PathError{Op: "rename", Path: from, Err: simrt.ErrOf(W.kind, errIO)}
	}
	a, b := clean(from), clean(to)
	n := W.Nodes[a]
	if n == nil || n.Dir {
		return perr("rename", from, fs.ErrNotExist)
	}
	W.Nodes[b] = n
	if a != b {
		delete(W.Nodes, a)
	}
	return nil
}

// Mkdir makes a directory.
func Mkdir(name string, all bool) error {
	if W.op("mkdir") != nil {
		W.hit("mkdir", name)
		return perr("mkdir", name, simrt.ErrOf(W.kind, errIO))
	}
	key := clean(name)
	if n := W.Nodes[key]; n != nil {
		if all && n.Dir {
			return nil
		}
		return perr("mkdir", name, fs.ErrExist)
	}
	for d := path.Dir(key); all && d != "/"; d = path.Dir(d) {
		if W.Nodes[d] == nil {
			W.Nodes[d] = &Node{Dir: true}
		}
	}
	if n := W.Nodes[path.Dir(key)]; n == nil || !n.Dir {
		return perr("mkdir", name, fs.ErrNotExist)
	}
	W.Nodes[key] = &Node{Dir: true}
	return nil
}

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name, RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	return b, err
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, mode fs.FileMode) error {
	f, err := OpenFile(name, WRONLY|CREATE|TRUNC, mode)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Chtimes sets times.
func Chtimes(name string, t time.Time) error {
	n := W.Nodes[W.Resolve(clean(name))]
	if n == nil {
		return perr("chtimes", name, fs.ErrNotExist)
	}
	n.Mtime = t.Unix() - 1e9
	return nil
}

// Temp makes a new file.
func Temp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
		if W.Nodes[dir] == nil {
			W.Nodes[dir] = &Node{Dir: true}
		}
	}
	for {
		n := tempName(pattern)
		f, err := OpenFile(path.Join(dir, n), RDWR|CREATE|EXCL, 0o600)
		if err != nil && errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

// TempDir makes a new directory.
func TempDir(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
		if W.Nodes[dir] == nil {
			W.Nodes[dir] = &Node{Dir: true}
		}
	}
	name := path.Join(dir, tempName(pattern))
	return name, Mkdir(name, false)
}

func tempName(pattern string) string {
	W.clock++
	num := ""
	for v := W.clock*7919 + 1e6; v > 0; v /= 10 {
		num = string(rune('0'+v%10)) + num
	}
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i] + num + pattern[i+1:]
	}
	return pattern + num
}

// FS is a view of a directory.
type FS struct{ Root string }

func (f FS) Open(name string) (fs.File, error) {
	return OpenFile(path.Join(f.Root, name), RDONLY, 0)
}
func (f FS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(path.Join(f.Root, name)) }
func (f FS) ReadFile(name string) ([]byte, error)       { return ReadFile(path.Join(f.Root, name)) }
func (f FS) Stat(name string) (fs.FileInfo, error)      { return Stat(path.Join(f.Root, name)) }

// ---- network

// Reply is a response of the simulated network.
type Reply struct {
	Status int
	Size   int64
	Body   io.ReadCloser
}

// Request a page; cancelled tells why the request was cancelled, if it was.
func Request(method, url string, cancelled func() error) (*Reply, error) {
	w := W
	simrt.YH(-51)
	if w.dead {
		simrt.Die()
	}
	w.requests++
	w.clock++
	faults := map[string]*NetFault{}
	for i := range w.NetFaults {
		f := &w.NetFaults[i]
		if f.Nth == w.requests || f.Sticky && f.Nth <= w.requests {
			faults[f.Op] = f
		}
	}
	if faults["refuse"] != nil {
		w.netHit("refused-connection", url)
		return nil, simrt.ErrOf(faults["refuse"].Err, errors.New("dial tcp: connection refused"))
	}
	page, ok := w.Pages[url]
	status := 200
	if !ok {
		status, page = 404, "<html>not found</html>"
	} else if f := faults["status"]; f != nil {
		status = f.Arg
		w.netHit("error-status", url)
		if f.Arg == 206 {
			page = page[:len(page)*(f.Err+1)/(simrt.ErrKinds+2)] // a part
		} else if f.Arg == 204 {
			page = ""
		} else if f.Arg%2 == 0 {
			page = "<html>sorry</html>"
		} // else the page itself, as some proxies do
	}
	size := int64(len(page))
	if w.Chunked && method != "HEAD" {
		size = -1 // in chunks: the length is not known beforehand, but a body cut short is
		w.Fired("length-not-known")
	}
	if method == "HEAD" {
		page = ""
		for _, f := range []string{"cut", "reset"} {
			delete(faults, f)
		}
	}
	return &Reply{Status: status, Size: size, Body: &body{url: url, data: page, faults: faults, cancelled: cancelled}}, nil
}

func (w *World) netHit(kind, url string) {
	w.Fired(kind)
	w.NetHits = append(w.NetHits, kind+" "+url)
}

type body struct {
	url    string
	data   string
	pos    int
	faults map[string]*NetFault
	gap    bool
	closed bool
	broken error

	cancelled func() error
}

func (b *body) Read(p []byte) (int, error) {
	w := W
	simrt.YH(-52)
	if w.dead {
		simrt.Die()
	}
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if b.broken != nil {
		return 0, b.broken
	}
	if err := b.cancelled(); err != nil {
		b.broken = err
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(b.data)
	var stop error
	kind := ""
	if f := b.faults["cut"]; f != nil {
		end, stop, kind = min(f.Arg, max(end-1, 0)), io.ErrUnexpectedEOF, "cut-download"
	} else if f := b.faults["reset"]; f != nil {
		end, stop, kind = min(f.Arg, max(end-1, 0)), simrt.ErrOf(f.Err, errors.New("read tcp: connection reset by peer")), "reset-connection"
	}
	if f := b.faults["empty"]; f != nil && !b.gap && b.pos >= f.Arg {
		b.gap = true
		w.Fired("empty-read")
		return 0, nil
	}
	if f := b.faults["chunk"]; f != nil && f.Arg > 0 && len(p) > f.Arg {
		p = p[:f.Arg]
		w.Fired("short-read")
	}
	n := 0
	if b.pos < end {
		n = copy(p, b.data[b.pos:end])
		b.pos += n
	}
	if b.pos < end {
		return n, nil
	}
	if n > 0 && b.faults["late"] == nil {
		return n, nil
	}
	if n > 0 {
		w.Fired("end-with-data")
	}
	if stop != nil {
		w.netHit(kind, b.url)
		b.broken = stop
		return n, stop
	}
	b.broken = io.EOF
	return n, io.EOF
}

func (b *body) Close() error { b.closed = true; return nil }
