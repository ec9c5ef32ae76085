// Package simos replaces the file related parts of packages os, syscall and
// io/ioutil in the instrumented library: an in-memory file system with a page
// cache, durable state, memory mappings and injected faults.
package simos

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifrt"
)

const chunk = 4096

var zeros [chunk]byte

// blob is the content of a file: chunks are immutable, absent ones are zero.
type blob struct {
	size   int64
	chunks map[int64][]byte
}

func (b *blob) clone() blob {
	c := blob{b.size, make(map[int64][]byte, len(b.chunks))}
	for k, v := range b.chunks {
		c.chunks[k] = v
	}
	return c
}

func (b *blob) readAt(p []byte, off int64) int {
	if off >= b.size {
		return 0
	}
	if int64(len(p)) > b.size-off {
		p = p[:b.size-off]
	}
	for n := 0; n < len(p); {
		ci, co := (off+int64(n))/chunk, (off+int64(n))%chunk
		m := int(chunk - co)
		if m > len(p)-n {
			m = len(p) - n
		}
		if c := b.chunks[ci]; c != nil {
			copy(p[n:n+m], c[co:])
		} else {
			copy(p[n:n+m], zeros[:m])
		}
		n += m
	}
	return len(p)
}

func (b *blob) writeAt(p []byte, off int64) {
	for n := 0; n < len(p); {
		ci, co := (off+int64(n))/chunk, (off+int64(n))%chunk
		m := int(chunk - co)
		if m > len(p)-n {
			m = len(p) - n
		}
		old := b.chunks[ci]
		if old != nil || !bytes.Equal(p[n:n+m], zeros[:m]) {
			c := make([]byte, chunk)
			copy(c, old)
			copy(c[co:], p[n:n+m])
			b.chunks[ci] = c
		}
		n += m
	}
	if e := off + int64(len(p)); e > b.size {
		b.size = e
	}
}

func (b *blob) truncate(n int64) {
	if n < b.size {
		for ci := range b.chunks {
			if ci*chunk >= n {
				delete(b.chunks, ci)
			}
		}
		if co := n % chunk; co != 0 {
			if c := b.chunks[n/chunk]; c != nil {
				d := make([]byte, chunk)
				copy(d, c[:co])
				b.chunks[n/chunk] = d
			}
		}
	}
	b.size = n
}

type inode struct {
	id      int
	cur     blob // page cache
	durable blob // what survives a power loss for sure
	dirty   bool
	maps    []*mapping
}

type nsOp struct {
	kind string // create, rename, remove
	a, b string
	ino  *inode
}

type mapping struct {
	region []byte // the real memory, including the guard page
	length int
	ino    *inode
	off    int64
	write  bool
	dead   bool
}

type ofile struct {
	ino    *inode
	dir    bool
	pos    int64
	append bool
	fd     int
	name   string
	rd, wr bool
}

// Fault is an injected fault: operation number At (of the armed window) fails.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // error, short, eof, crash
	Arg  uint64 `json:"arg"`
}

// Crash is the panic value of a simulated crash of the process.
type Crash struct{}

// SimCrash marks the panic as crash of the simulated process.
func (Crash) SimCrash() {}

// FS is the (only) simulated file system.
type FS struct {
	names         map[string]*inode
	durable       map[string]*inode
	pending       []nsOp
	fds           map[int]*ofile
	maps          map[uintptr]*mapping
	grave         []*mapping
	nextIno       int
	frozen        bool
	armed         []Fault
	ops           int
	trace         []string
	tmp           int
	hb            uint64
	Fired         map[string]int // per kind:operation
	FiredIn       map[int]int    // per thread, since Arm
	Ops           map[string]int // operations executed
	FailedRelease int            // munmap calls that were made to fail
	LiveFD        int
	MaxFD         int
}

// Disk is the file system used by the library.
var Disk = NewFS()

// NewFS creates an empty file system.
func NewFS() *FS {
	return &FS{
		names: map[string]*inode{}, durable: map[string]*inode{},
		fds: map[int]*ofile{}, maps: map[uintptr]*mapping{},
		Fired: map[string]int{}, Ops: map[string]int{},
	}
}

// Reset makes Disk a fresh file system, memory of old mappings is released.
func Reset() {
	for _, m := range Disk.maps {
		realMunmap(m)
	}
	for _, m := range Disk.grave {
		realMunmap(m)
	}
	fired, ops := Disk.Fired, Disk.Ops
	Disk = NewFS()
	Disk.Fired, Disk.Ops = fired, ops
}

func realMunmap(m *mapping) {
	if m.region != nil {
		syscall.Munmap(m.region)
		m.region = nil
	}
}

func clean(p string) string { return filepath.Clean(p) }

// Arm activates faults, operations are counted from now on.
func (d *FS) Arm(f []Fault) {
	d.armed = f
	d.FiredIn = map[int]int{}
	d.ops = 0
	d.trace = nil
}

// Disarm deactivates faults and returns the operations since Arm.
func (d *FS) Disarm() []string {
	d.armed = nil
	t := d.trace
	d.trace = nil
	return t
}

// Count is the number of operations since Arm.
func (d *FS) Count() int { return d.ops }

func (d *FS) enter() {
	rt.SyncPoint()
	rt.RaceAcquire(unsafe.Pointer(&d.hb))
}

func (d *FS) leave() { rt.RaceReleaseMerge(unsafe.Pointer(&d.hb)) }

// point is called by each operation: it returns the fault to apply.
func (d *FS) point(op, what string) *Fault {
	rt.Advance(50)
	rt.Mix(uint64(len(what))*131 + uint64(op[0]) + uint64(d.ops)<<16)
	d.Ops[op]++
	i := d.ops
	d.ops++
	if len(d.trace) < 200 {
		d.trace = append(d.trace, op+" "+what)
	}
	for k := range d.armed {
		f := &d.armed[k]
		if f.At != i {
			continue
		}
		switch f.Kind {
		case "short":
			if op != "write" && op != "read" {
				continue
			}
		case "eof":
			if op != "read" {
				continue
			}
		}
		d.Fired[f.Kind+":"+op]++
		d.FiredIn[rt.Cur()]++
		return f
	}
	return nil
}

func (d *FS) crash() {
	d.frozen = true
	d.leave()
	panic(Crash{})
}

// Dead is true after a crash.
func (d *FS) Dead() bool { return d.frozen }

// Restart is the start of a new process after a crash; power: only what was
// durable survives, everything else is decided by r.
func (d *FS) Restart(power bool, r *rt.Prng) {
	d.frozen = false
	d.armed = nil
	for fd := range d.fds {
		delete(d.fds, fd)
	}
	for a, m := range d.maps {
		protect(m.region, syscall.PROT_NONE)
		m.dead = true
		d.grave = append(d.grave, m)
		delete(d.maps, a)
	}
	for _, i := range d.names {
		i.maps = nil
	}
	d.LiveFD = 0
	if !power {
		return
	}
	d.Fired["powerloss"]++
	// The journal persisted a prefix of the name space operations
	n := r.Intn(len(d.pending) + 1)
	for _, o := range d.pending[:n] {
		apply(d.durable, o)
	}
	d.pending = nil
	d.names = map[string]*inode{}
	var names []string
	for p := range d.durable {
		names = append(names, p)
	}
	sort.Strings(names)
	seen := map[*inode]bool{}
	for _, p := range names {
		i := d.durable[p]
		d.names[p] = i
		if i.dirty && !seen[i] {
			seen[i] = true
			i.cur = torn(&i.durable, &i.cur, r)
			i.durable = i.cur.clone()
			i.dirty = false
		}
	}
}

// torn is what may be on disk of a file that was written but not synced.
func torn(old, cur *blob, r *rt.Prng) blob {
	res := old.clone()
	switch r.Intn(4) {
	case 0: // nothing of it
		return res
	case 1: // the size only: zeros
		res.size = cur.size
		if cur.size < old.size {
			res = cur.clone()
		}
		return res
	}
	if cur.size != old.size {
		lo, hi := old.size, cur.size
		if lo > hi {
			lo, hi = hi, lo
		}
		switch r.Intn(3) {
		case 0:
			res.truncate(lo)
		case 1:
			res.truncate(hi)
		default:
			res.truncate(lo + int64(r.Intn(int(hi-lo)+1)))
		}
	}
	nc := (res.size + chunk - 1) / chunk
	for ci := int64(0); ci < nc; ci++ {
		if r.Chance(0.5) {
			if c := cur.chunks[ci]; c != nil {
				res.chunks[ci] = c
			} else {
				delete(res.chunks, ci)
			}
		}
	}
	return res
}

func apply(ns map[string]*inode, o nsOp) {
	switch o.kind {
	case "create":
		ns[o.a] = o.ino
	case "remove":
		delete(ns, o.a)
	case "rename":
		if i := ns[o.a]; i != nil {
			delete(ns, o.a)
			ns[o.b] = i
		}
	}
}

func (d *FS) commitNS() {
	for _, o := range d.pending {
		apply(d.durable, o)
	}
	d.pending = nil
}

func (d *FS) do(o nsOp) {
	apply(d.names, o)
	d.pending = append(d.pending, o)
}

// SyncAll makes everything durable (used to set up a scenario).
func (d *FS) SyncAll() {
	d.commitNS()
	for _, i := range d.names {
		i.durable = i.cur.clone()
		i.dirty = false
	}
}

// Content returns the content of a file, nil and false if there is none.
func (d *FS) Content(p string) ([]byte, bool) {
	i := d.names[clean(p)]
	if i == nil {
		return nil, false
	}
	b := make([]byte, i.cur.size)
	i.cur.readAt(b, 0)
	return b, true
}

// Size returns the size of a file (-1: none).
func (d *FS) Size(p string) int64 {
	if i := d.names[clean(p)]; i != nil {
		return i.cur.size
	}
	return -1
}

// Put creates a file with some (durable) content.
func (d *FS) Put(p string, data []byte) {
	d.nextIno++
	i := &inode{id: d.nextIno, cur: blob{chunks: map[int64][]byte{}}}
	i.cur.writeAt(data, 0)
	i.durable = i.cur.clone()
	d.names[clean(p)] = i
	d.durable[clean(p)] = i
}

// Drop removes a file (durably).
func (d *FS) Drop(p string) {
	delete(d.names, clean(p))
	delete(d.durable, clean(p))
}

// Files lists all files.
func (d *FS) Files() []string {
	var r []string
	for p := range d.names {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// OpenFDs is the number of open file descriptors.
func (d *FS) OpenFDs() int { return len(d.fds) }

// LiveMaps is the number of live mappings.
func (d *FS) LiveMaps() int { return len(d.maps) }

// OpenNames lists what is open or mapped (for messages).
func (d *FS) OpenNames() string {
	var r []string
	for _, o := range d.fds {
		r = append(r, fmt.Sprintf("fd of %s", o.name))
	}
	for _, m := range d.maps {
		r = append(r, fmt.Sprintf("mapping of %d bytes", m.length))
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func protect(b []byte, prot int) {
	if len(b) > 0 {
		if err := syscall.Mprotect(b, prot); err != nil {
			panic(fmt.Sprintf("simos: mprotect: %v", err))
		}
	}
}

const page = 4096

func roundUp(n int64) int64 { return (n + page - 1) / page * page }

// refresh brings the memory of a mapping in line with the file.
func (m *mapping) refresh() {
	if m.dead {
		return
	}
	total := roundUp(int64(m.length))
	avail := roundUp(m.ino.cur.size - m.off)
	if avail < 0 {
		avail = 0
	}
	if avail > total {
		avail = total
	}
	if avail > 0 {
		r := m.region[:avail]
		protect(r, syscall.PROT_READ|syscall.PROT_WRITE)
		for p := int64(0); p < avail; p += page {
			c := m.ino.cur.chunks[(m.off+p)/chunk]
			if c != nil {
				copy(r[p:p+page], c)
			} else if !bytes.Equal(r[p:p+page], zeros[:]) {
				copy(r[p:p+page], zeros[:])
			}
		}
		if !m.write {
			protect(r, syscall.PROT_READ)
		}
	}
	protect(m.region[avail:], syscall.PROT_NONE)
}

func (i *inode) changed() {
	i.dirty = true
	for _, m := range i.maps {
		m.refresh()
	}
}

func (d *FS) newFD(o *ofile) int {
	for fd := 3; ; fd++ {
		if d.fds[fd] == nil {
			d.fds[fd] = o
			o.fd = fd
			if len(d.fds) > d.MaxFD {
				d.MaxFD = len(d.fds)
			}
			return fd
		}
	}
}

// File replaces os.File.
type File struct {
	o      *ofile
	name   string
	closed bool
	term   *bytes.Buffer // standard output
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

func (d *FS) isDir(p string) bool {
	p = clean(p)
	if p == "." || p == "/" || p == ".." {
		return true
	}
	for n := range d.names {
		if strings.HasPrefix(n, p+"/") {
			return true
		}
	}
	return p == clean(Dir)
}

// Dir is the directory that exists in the simulated file system.
const Dir = "/sim"

var openErrs = []error{syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.ENFILE}
var createErrs = []error{syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.EROFS, syscall.EIO}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	d := Disk
	d.enter()
	defer d.leave()
	if d.frozen {
		return nil, perr("open", name, syscall.EIO)
	}
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if f := d.point(op, name); f != nil {
		switch f.Kind {
		case "crash":
			d.crash()
		default:
			if op == "create" {
				return nil, perr("open", name, createErrs[f.Arg%uint64(len(createErrs))])
			}
			return nil, perr("open", name, openErrs[f.Arg%uint64(len(openErrs))])
		}
	}
	p := clean(name)
	i := d.names[p]
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	o := &ofile{name: p, append: flag&os.O_APPEND != 0, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY}
	if i == nil {
		if d.isDir(p) {
			if acc != os.O_RDONLY {
				return nil, perr("open", name, syscall.EISDIR)
			}
			o.dir = true
			d.newFD(o)
			return &File{o: o, name: name}, nil
		}
		if flag&os.O_CREATE == 0 || !d.isDir(filepath.Dir(p)) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d.nextIno++
		i = &inode{id: d.nextIno, cur: blob{chunks: map[int64][]byte{}}}
		i.durable = i.cur.clone()
		d.do(nsOp{kind: "create", a: p, ino: i})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if flag&os.O_TRUNC != 0 && o.wr {
			i.cur.truncate(0)
			i.changed()
		}
	}
	o.ino = i
	d.newFD(o)
	return &File{o: o, name: name}, nil
}

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = Dir
	}
	d := Disk
	d.enter()
	d.tmp++
	n := fmt.Sprintf("%09d", d.tmp)
	d.leave()
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		n = pattern[:i] + n + pattern[i+1:]
	} else {
		n = pattern + n
	}
	return OpenFile(filepath.Join(dir, n), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// NewFile is os.NewFile.
func NewFile(fd uintptr, name string) *File {
	d := Disk
	d.enter()
	defer d.leave()
	if o := d.fds[int(fd)]; o != nil {
		return &File{o: o, name: name}
	}
	return nil
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	if f.term != nil {
		return perr(op, f.name, syscall.EINVAL)
	}
	if Disk.frozen || Disk.fds[f.o.fd] != f.o {
		return perr(op, f.name, syscall.EBADF)
	}
	return nil
}

// Name is os.File.Name.
func (f *File) Name() string { return f.name }

// Fd is os.File.Fd.
func (f *File) Fd() uintptr {
	d := Disk
	d.enter()
	defer d.leave()
	if f == nil || f.closed || f.term != nil {
		return ^uintptr(0)
	}
	return uintptr(f.o.fd)
}

// read reads at pos or, if that is negative, at the position of the file.
func (f *File) read(p []byte, pos int64) (n int, err error) {
	d := Disk
	d.enter()
	defer d.leave()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.o.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if pos < 0 {
		pos = f.o.pos
		defer func() { f.o.pos += int64(n) }()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if fl := d.point("read", fmt.Sprintf("%s [%d,+%d)", f.name, pos, len(p))); fl != nil {
		switch fl.Kind {
		case "crash":
			d.crash()
		case "short":
			p = p[:1+int(fl.Arg%uint64(len(p)))]
		case "eof":
			return 0, io.EOF
		default:
			return 0, perr("read", f.name, syscall.EIO)
		}
	}
	n = f.o.ino.cur.readAt(p, pos)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// Read is os.File.Read.
func (f *File) Read(p []byte) (int, error) {
	return f.read(p, -1)
}

// ReadAt is os.File.ReadAt.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	t := 0
	for t < len(p) {
		n, err := f.read(p[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

// write writes at pos or, if that is negative, at the position of the file.
func (f *File) write(p []byte, pos int64) (n int, err error) {
	d := Disk
	d.enter()
	defer d.leave()
	if f != nil && f.term != nil {
		if Exited < 0 {
			f.term.Write(p)
		}
		return len(p), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if !f.o.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if pos < 0 {
		if f.o.append {
			f.o.pos = f.o.ino.cur.size
		}
		pos = f.o.pos
		defer func() { f.o.pos += int64(n) }()
	}
	var rerr error
	crash := false
	if fl := d.point("write", fmt.Sprintf("%s [%d,+%d)", f.name, pos, len(p))); fl != nil {
		n := 0
		if len(p) > 0 {
			n = int(fl.Arg % uint64(len(p)))
			if rec := fl.Arg >> 40 % 4; rec == 0 {
				n = n / 16 * 16
			} else if rec == 1 {
				n = 0
			}
		}
		p = p[:n]
		switch fl.Kind {
		case "crash":
			crash = true
		case "short":
			rerr = perr("write", f.name, syscall.ENOSPC)
		default:
			rerr = perr("write", f.name, syscall.EIO)
		}
	}
	if len(p) > 0 {
		f.o.ino.cur.writeAt(p, pos)
		f.o.ino.changed()
	}
	if crash {
		d.crash()
	}
	return len(p), rerr
}

// Write is os.File.Write.
func (f *File) Write(p []byte) (int, error) {
	return f.write(p, -1)
}

// WriteString is os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt is os.File.WriteAt.
func (f *File) WriteAt(p []byte, off int64) (int, error) { return f.write(p, off) }

// Seek is os.File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	d := Disk
	d.enter()
	defer d.leave()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.o.pos
	case io.SeekEnd:
		if f.o.dir {
			return math.MaxInt64, nil
		}
		off += f.o.ino.cur.size
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.o.pos = off
	return off, nil
}

// Sync is os.File.Sync.
func (f *File) Sync() error {
	d := Disk
	d.enter()
	defer d.leave()
	if err := f.check("sync"); err != nil {
		return err
	}
	if fl := d.point("fsync", f.name); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return perr("sync", f.name, syscall.EIO)
	}
	d.commitNS()
	if !f.o.dir {
		f.o.ino.durable = f.o.ino.cur.clone()
		f.o.ino.dirty = false
	}
	return nil
}

// Truncate is os.File.Truncate.
func (f *File) Truncate(n int64) error {
	d := Disk
	d.enter()
	defer d.leave()
	if err := f.check("truncate"); err != nil {
		return err
	}
	if !f.o.wr || f.o.dir || n < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if fl := d.point("truncate", f.name); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return perr("truncate", f.name, syscall.EIO)
	}
	f.o.ino.cur.truncate(n)
	f.o.ino.changed()
	return nil
}

// Close is os.File.Close.
func (f *File) Close() error {
	d := Disk
	d.enter()
	defer d.leave()
	if f == nil {
		return os.ErrInvalid
	}
	if f.term != nil {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	if d.frozen {
		return perr("close", f.name, syscall.EIO)
	}
	f.closed = true
	if d.fds[f.o.fd] != f.o {
		return perr("close", f.name, syscall.EBADF)
	}
	fl := d.point("close", f.name)
	if fl != nil && fl.Kind == "crash" {
		d.crash()
	}
	delete(d.fds, f.o.fd)
	if fl != nil {
		return perr("close", f.name, syscall.EIO)
	}
	return nil
}

// Chmod is os.File.Chmod.
func (f *File) Chmod(os.FileMode) error { return nil }

// Chown is os.File.Chown.
func (f *File) Chown(int, int) error { return nil }

// SetDeadline is os.File.SetDeadline.
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }

// ReadFrom is os.File.ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo is os.File.WriteTo.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// ReadDir is os.File.ReadDir (all at once).
func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	e, err := ReadDir(f.name)
	if n > 0 && err == nil {
		if f.o.pos > 0 {
			return nil, io.EOF
		}
		f.o.pos = 1
	}
	return e, err
}

// Readdir is os.File.Readdir.
func (f *File) Readdir(n int) (res []os.FileInfo, err error) {
	e, err := f.ReadDir(n)
	for _, e := range e {
		i, _ := e.Info()
		res = append(res, i)
	}
	return
}

// Readdirnames is os.File.Readdirnames.
func (f *File) Readdirnames(n int) (res []string, err error) {
	e, err := f.ReadDir(n)
	for _, e := range e {
		res = append(res, e.Name())
	}
	return
}

// ReadDir is os.ReadDir.
func ReadDir(name string) (res []os.DirEntry, err error) {
	d := Disk
	d.enter()
	defer d.leave()
	if d.frozen {
		return nil, perr("open", name, syscall.EIO)
	}
	if fl := d.point("readdir", name); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return nil, perr("open", name, syscall.EIO)
	}
	p := clean(name)
	if d.names[p] != nil {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	if !d.isDir(p) {
		return nil, perr("open", name, syscall.ENOENT)
	}
	seen := map[string]bool{}
	for _, n := range d.Files() {
		if !strings.HasPrefix(n, p+"/") {
			continue
		}
		n = n[len(p)+1:]
		if i := strings.IndexByte(n, '/'); i >= 0 {
			if n = n[:i]; !seen[n] {
				seen[n] = true
				res = append(res, fs.FileInfoToDirEntry(info{n, 4096, true, nil}))
			}
			continue
		}
		i := d.names[p+"/"+n]
		res = append(res, fs.FileInfoToDirEntry(info{n, i.cur.size, false, i}))
	}
	return res, nil
}

// Glob is filepath.Glob.
func Glob(pattern string) (res []string, err error) {
	d := Disk
	d.enter()
	defer d.leave()
	d.point("glob", pattern)
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	for _, n := range d.Files() {
		if ok, _ := filepath.Match(clean(pattern), n); ok && !d.frozen {
			res = append(res, n)
		}
	}
	return res, nil
}

// SameFile is os.SameFile.
func SameFile(a, b os.FileInfo) bool {
	i, ok := a.(info)
	j, ok2 := b.(info)
	return ok && ok2 && i.ino != nil && i.ino == j.ino
}

// Link is os.Link.
func Link(a, b string) error {
	d := Disk
	d.enter()
	defer d.leave()
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: e} }
	if d.frozen {
		return lerr(syscall.EIO)
	}
	if fl := d.point("link", a+" "+b); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return lerr(createErrs[fl.Arg%uint64(len(createErrs))])
	}
	i := d.names[clean(a)]
	if i == nil || !d.isDir(filepath.Dir(clean(b))) {
		return lerr(syscall.ENOENT)
	}
	if d.names[clean(b)] != nil || d.isDir(b) {
		return lerr(syscall.EEXIST)
	}
	d.do(nsOp{kind: "create", a: clean(b), ino: i})
	return nil
}

type info struct {
	name string
	size int64
	dir  bool
	ino  *inode
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return i.size }
func (i info) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return 0644
}

// Stat is os.File.Stat.
func (f *File) Stat() (os.FileInfo, error) {
	d := Disk
	d.enter()
	defer d.leave()
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if fl := d.point("stat", f.name); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return nil, perr("stat", f.name, syscall.EIO)
	}
	if f.o.dir {
		return info{f.name, 4096, true, nil}, nil
	}
	return info{f.name, f.o.ino.cur.size, false, f.o.ino}, nil
}

// Stat is os.Stat.
func Stat(name string) (os.FileInfo, error) {
	d := Disk
	d.enter()
	defer d.leave()
	if d.frozen {
		return nil, perr("stat", name, syscall.EIO)
	}
	if fl := d.point("stat", name); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return nil, perr("stat", name, syscall.EIO)
	}
	if i := d.names[clean(name)]; i != nil {
		return info{name, i.cur.size, false, i}, nil
	}
	if d.isDir(name) {
		return info{name, 4096, true, nil}, nil
	}
	return nil, perr("stat", name, syscall.ENOENT)
}

// Lstat is os.Lstat.
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// Rename is os.Rename.
func Rename(a, b string) error {
	d := Disk
	d.enter()
	defer d.leave()
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	if d.frozen {
		return lerr(syscall.EIO)
	}
	if fl := d.point("rename", a+" "+b); fl != nil {
		if fl.Kind == "crash" {
			if fl.Arg&1 == 1 && d.names[clean(a)] != nil {
				d.do(nsOp{kind: "rename", a: clean(a), b: clean(b)})
			}
			d.crash()
		}
		return lerr(createErrs[fl.Arg%uint64(len(createErrs))])
	}
	if d.names[clean(a)] == nil {
		return lerr(syscall.ENOENT)
	}
	if !d.isDir(filepath.Dir(clean(b))) {
		return lerr(syscall.ENOENT)
	}
	if d.names[clean(b)] == nil && d.isDir(b) {
		return lerr(syscall.EEXIST)
	}
	if d.names[clean(a)] == d.names[clean(b)] {
		return nil // links of the same file
	}
	d.do(nsOp{kind: "rename", a: clean(a), b: clean(b)})
	return nil
}

// Remove is os.Remove.
func Remove(name string) error {
	d := Disk
	d.enter()
	defer d.leave()
	if d.frozen {
		return perr("remove", name, syscall.EIO)
	}
	if fl := d.point("remove", name); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		return perr("remove", name, syscall.EIO)
	}
	if d.names[clean(name)] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	d.do(nsOp{kind: "remove", a: clean(name)})
	return nil
}

// RemoveAll is os.RemoveAll.
func RemoveAll(name string) error {
	if err := Remove(name); err != nil && !os.IsNotExist(err) {
		return err
	}
	return nil
}

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

// Mkdir, MkdirAll and Chmod do nothing.
func Mkdir(string, os.FileMode) error    { return nil }
func MkdirAll(string, os.FileMode) error { return nil }
func Chmod(string, os.FileMode) error    { return nil }

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Mmap is syscall.Mmap.
func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	d := Disk
	d.enter()
	defer d.leave()
	if d.frozen {
		return nil, syscall.EBADF
	}
	o := d.fds[fd]
	if flags&syscall.MAP_ANON == 0 && (o == nil || o.dir) {
		return nil, syscall.EBADF
	}
	if length <= 0 || offset%page != 0 {
		return nil, syscall.EINVAL
	}
	if fl := d.point("mmap", fmt.Sprintf("+%d", length)); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		if fl.Arg&1 == 0 {
			return nil, syscall.ENOMEM
		}
		return nil, syscall.EAGAIN
	}
	total := int(roundUp(int64(length)))
	region, err := syscall.Mmap(-1, 0, total+page, syscall.PROT_READ|syscall.PROT_WRITE,
		syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(fmt.Sprintf("simos: mmap of %d bytes: %v", total, err))
	}
	m := &mapping{region: region, length: length, off: offset, write: prot&syscall.PROT_WRITE != 0}
	if flags&syscall.MAP_ANON != 0 {
		m.ino = &inode{cur: blob{size: int64(length), chunks: map[int64][]byte{}}}
	} else {
		m.ino = o.ino
		o.ino.maps = append(o.ino.maps, m)
	}
	m.refresh()
	d.maps[uintptr(unsafe.Pointer(&region[0]))] = m
	return region[:length:length], nil
}

// Munmap is syscall.Munmap.
func Munmap(b []byte) error {
	d := Disk
	d.enter()
	defer d.leave()
	if d.frozen {
		return syscall.EINVAL
	}
	if len(b) == 0 {
		return syscall.EINVAL
	}
	a := uintptr(unsafe.Pointer(&b[0]))
	m := d.maps[a]
	if m == nil || m.length != len(b) {
		return syscall.EINVAL
	}
	if fl := d.point("munmap", fmt.Sprintf("+%d", len(b))); fl != nil {
		if fl.Kind == "crash" {
			d.crash()
		}
		d.FailedRelease++
		return syscall.EINVAL
	}
	if m.write && len(m.ino.maps) > 0 {
		n := m.ino.cur.size - m.off
		if n > int64(m.length) {
			n = int64(m.length)
		}
		if n > 0 {
			m.ino.cur.writeAt(m.region[:n], m.off)
			m.ino.dirty = true
		}
	}
	protect(m.region, syscall.PROT_NONE)
	m.dead = true
	delete(d.maps, a)
	d.grave = append(d.grave, m)
	for i, x := range m.ino.maps {
		if x == m {
			m.ino.maps = append(m.ino.maps[:i:i], m.ino.maps[i+1:]...)
			break
		}
	}
	return nil
}

// Madvise, Msync-like calls have no effect.
func Madvise([]byte, int) error { return nil }
func Mlock([]byte) error        { return nil }
func Munlock([]byte) error      { return nil }
func Flock(int, int) error      { return nil }

func byFD(fd int) *File {
	Disk.enter()
	defer Disk.leave()
	if o := Disk.fds[fd]; o != nil {
		return &File{o: o, name: o.name}
	}
	return nil
}

// Fsync is syscall.Fsync.
func Fsync(fd int) error {
	if f := byFD(fd); f != nil {
		return f.Sync()
	}
	return syscall.EBADF
}

// Ftruncate is syscall.Ftruncate.
func Ftruncate(fd int, n int64) error {
	if f := byFD(fd); f != nil {
		return f.Truncate(n)
	}
	return syscall.EBADF
}

// WriteFD is syscall.Write.
func WriteFD(fd int, p []byte) (int, error) {
	if f := byFD(fd); f != nil {
		return f.Write(p)
	}
	return -1, syscall.EBADF
}

// Pwrite is syscall.Pwrite.
func Pwrite(fd int, p []byte, off int64) (int, error) {
	if f := byFD(fd); f != nil {
		return f.WriteAt(p, off)
	}
	return -1, syscall.EBADF
}

// ReadFD is syscall.Read.
func ReadFD(fd int, p []byte) (int, error) {
	if f := byFD(fd); f != nil {
		n, err := f.Read(p)
		if err == io.EOF {
			err = nil
		}
		return n, err
	}
	return -1, syscall.EBADF
}

// Pread is syscall.Pread.
func Pread(fd int, p []byte, off int64) (int, error) {
	if f := byFD(fd); f != nil {
		n, err := f.read(p, off)
		if err == io.EOF {
			err = nil
		}
		return n, err
	}
	return -1, syscall.EBADF
}

// Fstat is syscall.Fstat.
func Fstat(fd int, st *syscall.Stat_t) error {
	f := byFD(fd)
	if f == nil {
		return syscall.EBADF
	}
	i, err := f.Stat()
	if err == nil {
		*st = syscall.Stat_t{Size: i.Size(), Mode: syscall.S_IFREG | 0644}
		if i.IsDir() {
			st.Mode = syscall.S_IFDIR | 0755
		}
	}
	return err
}

// CloseFD is syscall.Close.
func CloseFD(fd int) error {
	if f := byFD(fd); f != nil {
		return f.Close()
	}
	return syscall.EBADF
}

// HostileRegion is real memory for a build allocator that moves memory at
// each reallocation and makes the old memory inaccessible.
func HostileRegion(n int) []byte {
	if n <= 0 {
		n = 1
	}
	b, err := syscall.Mmap(-1, 0, int(roundUp(int64(n)))+page, syscall.PROT_READ|syscall.PROT_WRITE,
		syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(fmt.Sprintf("simos: mmap of %d bytes: %v", n, err))
	}
	protect(b[len(b)-page:], syscall.PROT_NONE)
	return b
}

// Poison makes a region inaccessible until the end of the run.
func Poison(b []byte) {
	protect(b, syscall.PROT_NONE)
	Disk.grave = append(Disk.grave, &mapping{region: b, dead: true})
}

// Keep registers a region to be released at the end of the run.
func Keep(b []byte) { Disk.grave = append(Disk.grave, &mapping{region: b, dead: true}) }
