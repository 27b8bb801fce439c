//go:build go1.22

// Package vos is the simulated operating system seen by the code under test:
// standard streams, exit, and a small file system with injected faults.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/TooManySugar/ll1parser/vsim"
)

// FileState is one file of the simulated disk, or one fault on it.
type FileState struct {
	Data    []byte
	OpenErr error // error of opening the file
	ReadErr error // error after ReadOK bytes
	ReadOK  int
	Chunk   int // largest number of bytes one Read returns (0: no limit)
	EINTR   int
	Stall   int
}

// World is the simulated machine; it is set up before a run and inspected
// after it.
type World struct {
	Files    map[string]*FileState
	OutBuf   []byte
	ErrBuf   []byte
	OutErr   error // error of writes to standard output once OutRoom is used up
	OutRoom  int   // -1: no limit
	Fired    map[string]int
	OutBytes int
	Args     []string
}

var W = NewWorld()

func NewWorld() *World {
	return &World{Files: map[string]*FileState{}, OutRoom: -1, Fired: map[string]int{}}
}

// ExitCode is the panic that stands for os.Exit.
type ExitCode int

// Exit never returns.
func Exit(code int) { panic(ExitCode(code)) }

// File stands for *os.File.
type File struct {
	name string
	std  int // 1 stdout, 2 stderr
	st   *FileState
	off  int
	pipe io.Reader // what comes out of it, if it is a pipe or terminal
}

// NewFile is an open file of which the first off bytes have been read
// already. There is no file of that name any more.
func NewFile(name string, st *FileState, off int) *File { return &File{name: name, st: st, off: off} }

// NewPipe is the read end of a pipe.
func NewPipe(name string, r io.Reader) *File { return &File{name: name, pipe: r} }

// Info describes a simulated file.
type Info struct {
	name string
	size int64
	mode fs.FileMode
}

func (i Info) Name() string       { return i.name }
func (i Info) Size() int64        { return i.size }
func (i Info) Mode() fs.FileMode  { return i.mode }
func (i Info) ModTime() time.Time { return time.Unix(1e9, 0) }
func (i Info) IsDir() bool        { return false }
func (i Info) Sys() any           { return nil }

func info(name string, st *FileState) fs.FileInfo {
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	if st == nil {
		return Info{name, 0, fs.ModeNamedPipe | 0o600}
	}
	return Info{name, int64(len(st.Data)), 0o644}
}

func (f *File) Stat() (fs.FileInfo, error) { return info(f.name, f.st), nil }

func Stat(name string) (fs.FileInfo, error) {
	vsim.Y(8)
	st := W.Files[name]
	if st == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return info(name, st), nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	at := offset
	switch {
	case f.st == nil:
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	case whence == io.SeekCurrent:
		at += int64(f.off)
	case whence == io.SeekEnd:
		at += int64(len(f.st.Data))
	}
	if at < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.off = int(at)
	return at, nil
}

func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	if f.st == nil {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.ESPIPE}
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	g := *f
	g.off = int(off)
	for n < len(p) && err == nil {
		var k int
		k, err = g.Read(p[n:])
		n += k
	}
	return n, err
}

var (
	Stdin  = &File{name: "/dev/stdin", st: &FileState{}}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return uintptr(f.std) }

// put appends without append, whose growth the race detector would see: the
// operating system's side of a stream is nobody's data race.
//
//go:norace
func put(b *[]byte, p []byte) {
	n := len(*b)
	if n+len(p) > cap(*b) {
		nb := make([]byte, n, 2*(n+len(p))+256)
		for i := 0; i < n; i++ {
			nb = nb[:n]
			nb[i] = (*b)[i]
		}
		*b = nb
	}
	*b = (*b)[:n+len(p)]
	for i := range p {
		(*b)[n+i] = p[i]
	}
}

//go:norace
func (f *File) Write(p []byte) (int, error) {
	switch f.std {
	case 1:
		n := len(p)
		if W.OutRoom >= 0 && W.OutBytes+n > W.OutRoom {
			n = W.OutRoom - W.OutBytes
			W.Fired["stdout_error"]++
			put(&W.OutBuf, p[:n])
			W.OutBytes += n
			return n, &fs.PathError{Op: "write", Path: f.name, Err: W.OutErr}
		}
		W.OutBytes += n
		put(&W.OutBuf, p)
		return n, nil
	case 2:
		put(&W.ErrBuf, p)
		return len(p), nil
	}
	return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(p []byte) (int, error) {
	if f.pipe != nil {
		return f.pipe.Read(p)
	}
	vsim.Y(8)
	if f.st == nil {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	if f.st.Stall > 0 {
		vsim.Sleep(uint64(f.st.Stall))
		W.Fired["disk_stall"]++
	}
	if f.st.ReadErr != nil && f.off >= f.st.ReadOK {
		W.Fired["disk_read_error"]++
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: f.st.ReadErr}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= len(f.st.Data) {
		return 0, io.EOF
	}
	n := len(p)
	if f.st.Chunk > 0 && n > f.st.Chunk {
		n = f.st.Chunk
		W.Fired["disk_short_read"]++
	}
	if f.st.ReadErr != nil && f.off+n > f.st.ReadOK {
		n = f.st.ReadOK - f.off
	}
	n = copy(p[:n], f.st.Data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) Close() error { return nil }

func (f *File) Sync() error { return nil }

// Open opens a simulated file.
func Open(name string) (*File, error) {
	vsim.Y(8)
	st := W.Files[name]
	if st == nil {
		W.Fired["disk_missing_file"]++
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if st.OpenErr != nil {
		W.Fired["disk_open_error"]++
		return nil, &fs.PathError{Op: "open", Path: name, Err: st.OpenErr}
	}
	return &File{name: name, st: st}, nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EROFS}
	}
	return Open(name)
}

// ReadFile has the behaviour of os.ReadFile: what was read before an error is
// returned with it.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	var res []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		res = append(res, buf[:n]...)
		if err == io.EOF {
			return res, nil
		}
		if err != nil {
			return res, err
		}
	}
}

var errRO = errors.New("simulated disk is read-only")

func WriteFile(name string, data []byte, perm os.FileMode) error {
	return &fs.PathError{Op: "open", Path: name, Err: errRO}
}
func Create(name string) (*File, error) {
	return nil, &fs.PathError{Op: "open", Path: name, Err: errRO}
}

// fmt functions that print to standard output.
func Print(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }

// log functions that end the process.
func Fatal(a ...any)            { fmt.Fprint(Stderr, a...); Exit(1) }
func Fatalln(a ...any)          { fmt.Fprintln(Stderr, a...); Exit(1) }
func Fatalf(f string, a ...any) { fmt.Fprintf(Stderr, f, a...); Exit(1) }
