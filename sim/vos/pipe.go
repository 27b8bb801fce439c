//go:build go1.22

package vos

import (
	"fmt"
	"io"

	"github.com/TooManySugar/ll1parser/vsim"
	"github.com/TooManySugar/ll1parser/vsync"
)

// Pipe stands for io.Pipe (the same algorithm on simulated primitives).
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{
		wrCh: vsim.MakeChan(make(chan []byte)),
		rdCh: vsim.MakeChan(make(chan int)),
		done: vsim.MakeChan(make(chan struct{})),
	}
	return &PipeReader{p}, &PipeWriter{p}
}

type pipe struct {
	wrMu       vsync.Mutex
	wrCh       chan []byte
	rdCh       chan int
	once       vsync.Once
	done       chan struct{}
	mu         vsync.Mutex
	rerr, werr error
}

func (p *pipe) set(e *error, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if *e == nil {
		*e = err
	}
}

func (p *pipe) get(e *error) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return *e
}

func (p *pipe) isDone() bool {
	return vsim.Select(true, vsim.RecvCase((<-chan struct{})(p.done))) == 0
}

func (p *pipe) end() { p.once.Do(func() { vsim.Close((chan<- struct{})(p.done)) }) }

func (p *pipe) readCloseError() error {
	r := p.get(&p.rerr)
	if w := p.get(&p.werr); r == nil && w != nil {
		return w
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	w := p.get(&p.werr)
	if r := p.get(&p.rerr); w == nil && r != nil {
		return r
	}
	return io.ErrClosedPipe
}

type PipeReader struct{ p *pipe }

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.isDone() {
		return 0, p.readCloseError()
	}
	k := vsim.RecvCase((<-chan []byte)(p.wrCh))
	if vsim.Select(false, k, vsim.RecvCase((<-chan struct{})(p.done))) == 0 {
		n := copy(b, k.Val)
		vsim.SendTo((chan<- int)(p.rdCh))(n)
		return n, nil
	}
	return 0, p.readCloseError()
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.set(&r.p.rerr, err)
	r.p.end()
	return nil
}

type PipeWriter struct{ p *pipe }

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	if p.isDone() {
		return 0, p.writeCloseError()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if vsim.Select(false, vsim.SendCase((chan<- []byte)(p.wrCh))(b), vsim.RecvCase((<-chan struct{})(p.done))) == 0 {
			nw := vsim.Recv((<-chan int)(p.rdCh))
			b = b[nw:]
			n += nw
		} else {
			return n, p.writeCloseError()
		}
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.set(&w.p.werr, err)
	w.p.end()
	return nil
}

// Builtinprint and Builtinprintln stand for the builtin functions, which write
// to standard error.
func Builtinprint(a ...any)   { fmt.Fprint(Stderr, a...) }
func Builtinprintln(a ...any) { fmt.Fprintln(Stderr, a...) }

func Log(a ...any)            { fmt.Fprintln(Stderr, fmt.Sprint(a...)) }
func Logln(a ...any)          { fmt.Fprint(Stderr, fmt.Sprintln(a...)) }
func Logf(f string, a ...any) { fmt.Fprintln(Stderr, fmt.Sprintf(f, a...)) }
func Panic(a ...any)          { Log(a...); panic(fmt.Sprint(a...)) }
func Panicln(a ...any)        { Logln(a...); panic(fmt.Sprintln(a...)) }
func Panicf(f string, a ...any) {
	Logf(f, a...)
	panic(fmt.Sprintf(f, a...))
}
