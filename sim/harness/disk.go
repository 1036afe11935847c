package main

import (
	"errors"
	"io"
	"io/fs"
	"sort"
	"strings"
	"time"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

// Fault of the simulated storage: the Nth opening of File (any opening from Nth on if Sticky).
type Fault struct {
	File   string `json:"file"`
	Nth    int    `json:"nth"`
	Sticky bool   `json:"sticky,omitempty"`
	Kind   string `json:"kind"` // open, read, readn, short, zero, eofn, close, dir
	At     int    `json:"at,omitempty"`
	Chunk  int    `json:"chunk,omitempty"`
	Err    int    `json:"err,omitempty"` // kind of error
}

//go:norace
func (f *Fault) err(plain error) error { return simrt.ErrOf(f.Err, plain) }

// fail is the error of a read: as it is, or with the path as os does.
//
//go:norace
func (f *Fault) fail(name string) error {
	if f.Err%2 == 1 {
		return f.err(errDisk)
	}
	return &fs.PathError{Op: "read", Path: name, Err: f.err(errDisk)}
}

var (
	errDisk = errors.New("simulated disk error")
	errOpen = errors.New("simulated open error")
)

const maxFiles = 16

// SimDisk is the storage of rules files. Its own state is invisible to the race detector.
type SimDisk struct {
	env    *Env
	names  [maxFiles]string
	data   [maxFiles]string
	n      int
	faults []Fault
	off    bool // no more faults

	opens     [maxFiles]int
	complete  [maxFiles]int   // number of times the file was read to its end
	lastFault [maxFiles]int64 // step of the last error injected on this file
	served    [maxFiles]bool  // a hyphenator got these rules
	dirOpens  int
	dirFault  int64
	taskErr   [64]bool
	inflight  [maxFiles]int
}

func newDisk(e *Env, files map[string]string, faults []Fault) *SimDisk {
	d := &SimDisk{env: e, faults: faults}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		d.names[i], d.data[i] = n, files[n]
		d.lastFault[i] = -1
		d.n++
	}
	d.dirFault = -1
	return d
}

//go:norace
func (d *SimDisk) index(name string) int {
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	for i := 0; i < d.n; i++ {
		if d.names[i] == name {
			return i
		}
	}
	return -1
}

// serve tells that a hyphenator got rules; wasServed tells if some other did before.
//
//go:norace
func (d *SimDisk) serve(cands []string) {
	if len(cands) == 1 {
		if i := d.index(cands[0]); i >= 0 {
			d.served[i] = true
		}
	}
}

//go:norace
func (d *SimDisk) wasServed(cands []string) bool {
	if len(cands) != 1 {
		return false
	}
	i := d.index(cands[0])
	return i >= 0 && d.served[i]
}

//go:norace
func (d *SimDisk) fault(name string, nth int, kind string) *Fault {
	if d.off {
		return nil
	}
	for i := range d.faults {
		f := &d.faults[i]
		if f.Kind == kind && f.File == name && (f.Nth == nth || f.Sticky && f.Nth <= nth) {
			return f
		}
	}
	return nil
}

//go:norace
func (d *SimDisk) hit(i int, kind string) {
	d.env.Fired(kind)
	if i >= 0 {
		d.lastFault[i] = simrt.Step()
	} else {
		d.dirFault = simrt.Step()
	}
	if t := simrt.TaskID(); t >= 0 {
		d.taskErr[t%64] = true
	}
}

//go:norace
func (d *SimDisk) clearTask() {
	if t := simrt.TaskID(); t >= 0 {
		d.taskErr[t%64] = false
	}
}

//go:norace
func (d *SimDisk) taskHit() bool {
	t := simrt.TaskID()
	return t >= 0 && d.taskErr[t%64]
}

//go:norace
func (d *SimDisk) lastFaultOf(name string) int64 {
	if i := d.index(name); i >= 0 {
		return d.lastFault[i]
	}
	return -1
}

// Open is a slow operation: other tasks may run meanwhile.
//
//go:norace
func (d *SimDisk) Open(name string) (fs.File, error) {
	simrt.YH(-20)
	i := d.index(name)
	if i < 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	d.opens[i]++
	nth := d.opens[i]
	d.inflight[i]++
	if d.inflight[i] > 1 {
		d.env.Probe("same-file-opened-twice-at-once")
	}
	if f := d.fault(d.names[i], nth, "open"); f != nil {
		d.hit(i, "open-error")
		d.inflight[i]--
		return nil, &fs.PathError{Op: "open", Path: name, Err: f.err(errOpen)}
	}
	return &simFile{d: d, i: i, nth: nth}, nil
}

// ReadDir lists the files.
//
//go:norace
func (d *SimDisk) ReadDir(name string) ([]fs.DirEntry, error) {
	simrt.YH(-21)
	d.dirOpens++
	if f := d.fault("", d.dirOpens, "dir"); f != nil {
		d.hit(-1, "readdir-error")
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: f.err(errDisk)}
	}
	out := make([]fs.DirEntry, d.n)
	for i := 0; i < d.n; i++ {
		out[i] = dirEntry(d.names[i])
	}
	return out, nil
}

// ReadFile is Open, Read to the end, Close.
func (d *SimDisk) ReadFile(name string) ([]byte, error) {
	f, err := d.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

type simFile struct {
	d      *SimDisk
	i      int
	nth    int
	pos    int
	zeroed bool
	failed bool
	eof    bool
	closed bool
}

//go:norace
func (f *simFile) Read(p []byte) (int, error) {
	simrt.YH(-22)
	d := f.d
	if f.closed {
		return 0, fs.ErrClosed
	}
	name := d.names[f.i]
	data := d.data[f.i]
	if len(p) == 0 {
		return 0, nil
	}
	end := len(data)
	n := len(p)
	if s := d.fault(name, f.nth, "short"); s != nil && s.Chunk > 0 && n > s.Chunk {
		n = s.Chunk
		d.env.Fired("short-read")
	}
	if z := d.fault(name, f.nth, "zero"); z != nil && !f.zeroed && f.pos >= z.At {
		f.zeroed = true
		d.env.Fired("empty-read")
		return 0, nil
	}
	bad := d.fault(name, f.nth, "read")
	badn := d.fault(name, f.nth, "readn")
	if bad == nil {
		bad = badn
	}
	if bad != nil {
		at := bad.At
		if at > len(data) {
			at = len(data) // an error in place of the end of file
		}
		if f.pos >= at || f.failed {
			f.failed = true
			d.hit(f.i, "read-error")
			return 0, bad.fail(name)
		}
		end = at
	}
	if f.pos >= end {
		f.done()
		return 0, io.EOF
	}
	if n > end-f.pos {
		n = end - f.pos
	}
	for k := 0; k < n; k++ {
		p[k] = data[f.pos+k]
	}
	markWritten(p[:n])
	f.pos += n
	if f.pos == end {
		if badn != nil && bad == badn {
			f.failed = true
			d.hit(f.i, "read-error-with-data")
			return n, bad.fail(name)
		}
		if bad == nil && d.fault(name, f.nth, "eofn") != nil {
			d.env.Fired("eof-with-data")
			f.done()
			return n, io.EOF
		}
	}
	return n, nil
}

//go:norace
func (f *simFile) done() {
	if !f.eof {
		f.eof = true
		f.d.complete[f.i]++
	}
}

// markWritten makes the race detector see the write into the caller's buffer.
func markWritten(p []byte) {
	for i := range p {
		p[i] = p[i]
	}
}

//go:norace
func (f *simFile) Close() error {
	simrt.YH(-23)
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.d.inflight[f.i]--
	if c := f.d.fault(f.d.names[f.i], f.nth, "close"); c != nil {
		f.d.env.Fired("close-error")
		return c.err(errDisk)
	}
	return nil
}

func (f *simFile) Stat() (fs.FileInfo, error) {
	return fileInfo{f.d.names[f.i], int64(len(f.d.data[f.i]))}, nil
}

type fileInfo struct {
	name string
	size int64
}

func (f fileInfo) Name() string       { return f.name }
func (f fileInfo) Size() int64        { return f.size }
func (f fileInfo) Mode() fs.FileMode  { return 0o444 }
func (f fileInfo) ModTime() time.Time { return time.Time{} }
func (f fileInfo) IsDir() bool        { return false }
func (f fileInfo) Sys() interface{}   { return nil }

type dirEntry string

func (d dirEntry) Name() string               { return string(d) }
func (d dirEntry) IsDir() bool                { return false }
func (d dirEntry) Type() fs.FileMode          { return 0 }
func (d dirEntry) Info() (fs.FileInfo, error) { return fileInfo{name: string(d)}, nil }

// realFiles are the rules files of the tree under test.
func realFiles() map[string]string {
	out := map[string]string{}
	for _, e := range simrt.Embedded {
		entries, err := e.Real.ReadDir("languages")
		if err != nil {
			continue
		}
		for _, x := range entries {
			if b, err := e.Real.ReadFile("languages/" + x.Name()); err == nil && !x.IsDir() {
				out[x.Name()] = string(b)
			}
		}
	}
	return out
}
