package gen

import (
	"io"
	"runtime"
	"sync"

	"verif/harness/mon"
)

// Pipe is an in-memory one-way stream between two goroutines, with random chunks and scheduling points.
type Pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
	max    int       // buffer limit; a writer waits for a reader
	rr, rw *mon.Rand // owned by a reader and a writer
}

// NewPipe makes a pipe.
func NewPipe(r *mon.Rand) *Pipe {
	p := &Pipe{rr: r.Fork(), rw: r.Fork(), max: mon.Pick(r, 1, 100, 5000, 1<<20)}
	p.cond = sync.NewCond(&p.mu)
	return p
}

// Read implements io.Reader.
func (p *Pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.rr.P(1, 4) {
		runtime.Gosched()
	}
	n := len(b)
	if p.rr.P(1, 3) {
		n = 1 + p.rr.Intn(100)
	}
	if n > len(b) {
		n = len(b)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
	n = copy(b[:n], p.buf)
	p.buf = p.buf[n:]
	p.cond.Broadcast()
	return n, nil
}

// Write implements io.Writer.
func (p *Pipe) Write(b []byte) (int, error) {
	if p.rw.P(1, 4) {
		runtime.Gosched()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) > p.max {
		p.cond.Wait()
	}
	p.buf = append(p.buf, b...)
	p.cond.Broadcast()
	return len(b), nil
}

// Close ends the stream; a reader gets EOF after the rest of data. It is called by a writer.
func (p *Pipe) Close() error {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

// Discard drops the rest of the stream. It is called when a reader stops.
func (p *Pipe) Discard() {
	p.mu.Lock()
	p.max = 1 << 30
	p.cond.Broadcast()
	p.mu.Unlock()
}
