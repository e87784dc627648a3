// Package gen makes hostile inputs and transports.
package gen

import (
	"bytes"
	"errors"
	"io"

	"verif/harness/mon"
)

// Spin is a panic value of a transport that is read in a loop after it ended.
type Spin struct{ Reads int }

// ErrTransport is a failure injected by a transport.
var ErrTransport = errors.New("verif: injected transport failure")

// ErrTimeout is a failure injected by a timeout callback.
var ErrTimeout = errors.New("verif: injected timeout failure")

// Chunking is a plan of splitting a stream.
type Chunking int

const (
	ChunkAll Chunking = iota
	ChunkOne
	ChunkSmall
	ChunkBuf // around the size of the reader buffer
	ChunkMixed
	ChunkZero // with empty reads in between
	ChunkMax
)

func (c Chunking) String() string {
	return [...]string{"all", "one", "small", "buf", "mixed", "zero"}[c]
}

// RandChunking picks a plan.
func RandChunking(r *mon.Rand) Chunking { return Chunking(r.Intn(int(ChunkMax))) }

// Reader is an in-memory transport with a chunking plan.
type Reader struct {
	Data  []byte
	Plan  Chunking
	R     *mon.Rand
	Err   error // returned at the end; io.EOF by default
	EOFIn bool  // return the error together with the last bytes

	Pos   int // bytes handed out
	Reads int
	after int

	// OnRead is called before each read with a position of the stream.
	OnRead func(pos int)

	zeros int
}

// NewReader makes a transport with a random plan.
func NewReader(r *mon.Rand, data []byte) *Reader {
	return &Reader{Data: data, Plan: RandChunking(r), R: r.Fork(), EOFIn: r.P(1, 3)}
}

func (t *Reader) end() error {
	if t.Err != nil {
		return t.Err
	}
	return io.EOF
}

func (t *Reader) size() int {
	r := t.R
	switch t.Plan {
	case ChunkAll:
		return 1 << 30
	case ChunkOne:
		return 1
	case ChunkSmall:
		return 1 + r.Intn(16)
	case ChunkBuf:
		return mon.Pick(r, 2047, 2048, 2049, 1024, 4096)
	}
	switch r.Intn(4) {
	case 0:
		return 1
	case 1:
		return 1 + r.Intn(64)
	case 2:
		return mon.Pick(r, 1, 2047, 2048, 2049)
	}
	return 1 + r.Intn(5000)
}

// Read implements io.Reader.
func (t *Reader) Read(p []byte) (int, error) {
	t.Reads++
	if t.OnRead != nil {
		t.OnRead(t.Pos)
	}
	if t.Pos >= len(t.Data) {
		t.after++
		if t.after > 10000 {
			panic(&mon.Failure{Sig: "read-spin", Msg: "the transport is read in a loop after its end"})
		}
		return 0, t.end()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if t.Plan == ChunkZero && t.zeros < 3 && t.R.P(1, 2) {
		t.zeros++
		// the whole buffer may be used as a scratch space
		for i := range p {
			p[i] = '|'
			if i > 64 {
				break
			}
		}
		return 0, nil
	}
	t.zeros = 0
	n := t.size()
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], t.Data[t.Pos:])
	t.Pos += n
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = "|\n$x"[i%4] // scratch
	}
	if t.EOFIn && t.Pos >= len(t.Data) {
		return n, t.end()
	}
	return n, nil
}

// Writer records writes, and may fail.
type Writer struct {
	Buf   bytes.Buffer
	Calls int

	FailAt   int // index of the call that fails; -1 for never
	FailKeep int // bytes accepted by the failing call
	Failed   bool
	After    int // bytes handed over after the failure

	// OnWrite is called for each write.
	OnWrite func(p []byte)
}

// NewWriter makes a writer that never fails.
func NewWriter() *Writer { return &Writer{FailAt: -1} }

// Write implements io.Writer.
func (w *Writer) Write(p []byte) (int, error) {
	i := w.Calls
	w.Calls++
	if w.OnWrite != nil {
		w.OnWrite(p)
	}
	if w.Failed {
		w.After += len(p)
		return 0, ErrTransport
	}
	if i == w.FailAt {
		w.Failed = true
		n := w.FailKeep
		if n > len(p) {
			n = len(p)
		}
		w.Buf.Write(p[:n])
		return n, ErrTransport
	}
	w.Buf.Write(p)
	return len(p), nil
}

// Bytes returns accepted bytes.
func (w *Writer) Bytes() []byte { return w.Buf.Bytes() }
