package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c01() mon.Property {
	return mon.Property{
		ID: "C01",
		Rule: "A case is a random byte stream (lines of 0..32767 bytes around the buffer sizes, any delimiter, binary payloads, unterminated tails), a transport chunking " +
			"(whole, byte by byte, buffer-sized, empty reads, data with EOF, scribbling over the spare buffer) and a random program of ReadLine/Read/Binary calls; a position model of the stream decides each result. " +
			"Non-trivial: at least one line was returned; distinct by stream, chunking and program.",
		Assume: []string{"transports obey the io.Reader contract", "line lengths stay within the limit (C02 covers the limit)"},
		Monitors: []mon.Monitor{
			{Name: "line-position-model", Quick: 48000, Thorough: 300000, Run: c01Lines},
			{Name: "latency", Quick: 12000, Thorough: 60000, Run: c01Latency},
			{Name: "protocol-readers", Quick: 12000, Thorough: 60000, Run: c01Proto},
			{Name: "compressed-sections", Quick: 4000, Thorough: 60000, Run: c03Peer},
			{Name: "huge-sections", Quick: 60, Thorough: 2000, Run: c01Huge},
			{Name: "boundaries-exhaustive", Quick: c01Grid, Thorough: c01Grid, Run: c01Boundary},
		},
	}
}

type lineRd interface {
	ReadLine() ([]byte, error)
	Read([]byte) (int, error)
	Binary(uint64) (io.ReadCloser, error)
	SetMaxLine(int)
	OnLine(func([]byte) (bool, error))
	EnableZlib() error
	Close() error
}

func newLineReader(r *mon.Rand, rd io.Reader) (lineRd, byte, string) {
	switch r.Intn(5) {
	case 0:
		return nmdc.NewReader(rd), '|', "nmdc"
	case 1:
		return adc.NewReader(rd), '\n', "adc"
	}
	d := mon.Pick(r, byte('|'), '\n', 0, 'x', 0xff, byte(r.Intn(256)))
	return lineproto.NewReader(rd, d), d, "lineproto"
}

// fillNo fills the buffer with random bytes other than the delimiter; some of them are close to it.
func fillNo(r *mon.Rand, p []byte, delim byte) {
	mode := r.Intn(3)
	for i := range p {
		var b byte
		switch mode {
		case 0:
			b = byte(r.U64() >> 20)
		case 1:
			b = "$|\n\r \x00\x05ab"[r.Intn(9)]
		default:
			b = delim + byte(r.Intn(5)) - 2
		}
		if b == delim {
			b++
		}
		p[i] = b
	}
}

// posModel predicts results of reads from a known stream.
type posModel struct {
	t     *mon.T
	data  []byte
	pos   int
	delim byte
	rd    lineRd
	lines int
}

func (m *posModel) readLine() bool {
	t := m.t
	i := bytes.IndexByte(m.data[m.pos:], m.delim)
	line, err := m.rd.ReadLine()
	t.Eval(1)
	t.Logf("ReadLine at %d -> %d bytes, %v", m.pos, len(line), err)
	if i < 0 {
		if err == nil {
			t.Failf("tail-as-line", "unterminated tail of %d bytes at offset %d was returned as a line of %d bytes: %s", len(m.data)-m.pos, m.pos, len(line), q(line))
		}
		m.pos = len(m.data)
		return false
	}
	want := m.data[m.pos : m.pos+i+1]
	if err != nil {
		t.Failf("line-error", "line of %d bytes at offset %d failed: %v", len(want), m.pos, err)
	}
	if !bytes.Equal(line, want) {
		t.Failf("line-bytes", "line at offset %d: %s", m.pos, diff(line, want))
	}
	m.pos += len(want)
	m.lines++
	t.Ev("lines", 1)
	return true
}

func (m *posModel) readRaw(rd io.Reader, n, limit int, what string) (int, error) {
	t := m.t
	buf := make([]byte, n+3)
	k, err := rd.Read(buf[:n:n])
	t.Eval(1)
	t.Logf("%s.Read(%d) at %d -> %d, %v", what, n, m.pos, k, err)
	if k < 0 || k > n || k > limit {
		t.Failf("read-count", "%s.Read(%d) returned %d (at most %d expected)", what, n, k, limit)
	}
	if m.pos+k > len(m.data) || !bytes.Equal(buf[:k], m.data[m.pos:m.pos+k]) {
		end := m.pos + k
		if end > len(m.data) {
			end = len(m.data)
		}
		t.Failf("read-bytes", "%s.Read(%d) at offset %d: %s", what, n, m.pos, diff(buf[:k], m.data[m.pos:end]))
	}
	m.pos += k
	t.Ev("raw-bytes", k)
	return k, err
}

func (m *posModel) read(n int) {
	for i := 0; ; i++ {
		k, err := m.readRaw(m.rd, n, n, "reader")
		if err != nil {
			if m.pos != len(m.data) {
				m.t.Failf("read-error", "Read failed at offset %d of %d: %v", m.pos, len(m.data), err)
			}
			return
		}
		if k > 0 || n == 0 {
			return
		}
		if i > 100000 {
			m.t.Failf("read-stuck", "Read(%d) makes no progress at offset %d", n, m.pos)
		}
	}
}

func (m *posModel) binary(sz int) {
	t := m.t
	rc, err := m.rd.Binary(uint64(sz))
	if err != nil || rc == nil {
		t.Failf("binary-open", "Binary(%d): %v", sz, err)
	}
	start := m.pos
	end := start + sz
	t.Logf("Binary(%d) at %d", sz, m.pos)
	toRead := t.R.Intn(sz + 2)
	switch t.R.Intn(4) {
	case 0:
		toRead = 0
	case 1:
		toRead = sz + 10
	}
	for m.pos-start < toRead {
		n := 1 + t.R.Intn(64)
		if t.R.Bool() {
			n = 1 + t.R.Intn(5000)
		}
		left := end - m.pos
		k, err := m.readRaw(rc, n, left, "binary")
		if m.pos == end && k == 0 {
			if err == nil {
				// no data without an error is only valid for a limited number of times
				for i := 0; i < 100 && err == nil; i++ {
					k, err = m.readRaw(rc, n, 0, "binary")
				}
			}
			if err != io.EOF {
				t.Failf("binary-eof", "the end of the binary section was reported as (%d, %v)", k, err)
			}
			break
		}
		if err != nil && m.pos != len(m.data) && m.pos != end {
			t.Failf("binary-error", "binary read failed at offset %d: %v", m.pos, err)
		}
		if err != nil {
			break
		}
	}
	err = rc.Close()
	t.Ev("binary-sections", 1)
	t.Logf("binary.Close at %d -> %v", m.pos, err)
	if end > len(m.data) {
		m.pos = len(m.data)
		return
	}
	// a transport may report its failure together with the last bytes
	if err != nil && !(end == len(m.data) && errors.Is(err, gen.ErrTransport)) {
		t.Failf("binary-close", "closing a binary section: %v", err)
	}
	m.pos = end
}

func c01Lines(t *mon.T) {
	r := t.R
	var data []byte
	tr := gen.NewReader(r, nil)
	rd, delim, kind := newLineReader(r, tr)
	size := gen.Size
	if r.P(1, 4) {
		max := mon.Pick(r, 0, -1, 40000)
		if rd.SetMaxLine(max); max <= 0 {
			size = gen.Big
		}
	}
	n := gen.Count(r, 12)
	small := tr.Plan == gen.ChunkOne
	for i := 0; i < n; i++ {
		max := 32767
		if small {
			max = 4200
		}
		sz := size(r, max)
		p := make([]byte, sz, sz+1)
		fillNo(r, p, delim)
		data = append(data, append(p, delim)...)
	}
	switch r.Intn(3) {
	case 0:
		p := make([]byte, gen.Size(r, 5000))
		fillNo(r, p, delim)
		data = append(data, p...)
	}
	tr.Data = data
	if r.P(1, 5) {
		tr.Err = gen.ErrTransport
	}
	m := &posModel{t: t, data: data, delim: delim, rd: rd}
	onlyLines := r.Bool()
	prog := ""
	for step := 0; m.pos < len(data) && step < 3*n+20; step++ {
		op := 0
		if !onlyLines {
			op = r.Intn(5)
		}
		switch op {
		case 0, 1, 2:
			prog += "L"
			m.readLine()
		case 3:
			sz := mon.Pick(r, 0, 1, 10, 2047, 2048, 2049, r.Intn(6000), gen.Big(r, 6000))
			prog += fmt.Sprintf("R%d", sz)
			m.read(sz)
		case 4:
			sz := mon.Pick(r, 0, 1, 10, 2048, r.Intn(100), r.Intn(9000), gen.Big(r, 9000))
			prog += fmt.Sprintf("B%d", sz)
			m.binary(sz)
		}
	}
	// the rest of the stream
	for m.pos < len(data) {
		if !m.readLine() {
			break
		}
	}
	for i := 0; i < 2; i++ {
		if line, err := rd.ReadLine(); err == nil {
			t.Failf("line-after-end", "a line was returned after the end of the stream: %s", q(line))
		}
	}
	if m.lines > 0 {
		t.Seen(fmt.Sprint(kind, tr.Plan, prog, len(data), mon.HashStr(string(data))))
	}
	t.Ev("chunking-"+tr.Plan.String(), 1)
	t.Sample(func() string {
		return fmt.Sprintf("%s reader, chunking %v, %d bytes, program %s, %d lines: %s", kind, tr.Plan, len(data), prog, m.lines, q(data))
	})
}

// c01Latency checks that a line is returned without touching the transport once its delimiter has arrived.
func c01Latency(t *mon.T) {
	r := t.R
	tr := gen.NewReader(r, nil)
	rd, delim, kind := newLineReader(r, tr)
	var data []byte
	n := 1 + gen.Count(r, 10)
	rd.SetMaxLine(0)
	for i := 0; i < n; i++ {
		p := make([]byte, gen.Big(r, 4200))
		fillNo(r, p, delim)
		data = append(data, append(p, delim)...)
	}
	tr.Data = data
	pos, inLine := 0, false
	tr.OnRead = func(got int) {
		if !inLine {
			return
		}
		if bytes.IndexByte(data[pos:got], delim) >= 0 {
			t.Failf("waits-for-more", "the transport was read while a complete line was already received: line starts at %d, received %d bytes", pos, got)
		}
	}
	for pos < len(data) {
		if r.P(1, 6) {
			buf := make([]byte, r.Intn(50))
			k, _ := rd.Read(buf)
			if k < 0 || pos+k > len(data) {
				t.Failf("read-count", "Read returned %d", k)
			}
			pos += k
			continue
		}
		i := bytes.IndexByte(data[pos:], delim)
		inLine = true
		line, err := rd.ReadLine()
		inLine = false
		t.Eval(1)
		if i < 0 {
			break
		}
		if err != nil || !bytes.Equal(line, data[pos:pos+i+1]) {
			t.Failf("line-bytes", "line at %d: %v, %s", pos, err, diff(line, data[pos:pos+i+1]))
		}
		pos += i + 1
		t.Ev("lines-without-waiting", 1)
	}
	t.Seen(fmt.Sprint(kind, tr.Plan, mon.HashStr(string(data))))
	t.Sample(func() string { return fmt.Sprintf("%s, %d lines, chunking %v", kind, n, tr.Plan) })
}

// c01Proto mixes messages, raw lines and file transfers on protocol readers.
func c01Proto(t *mon.T) {
	r := t.R
	type item struct {
		kind int // 0 message, 1 line, 2 binary
		data []byte
	}
	isADC := r.Bool()
	delim := byte('|')
	if isADC {
		delim = '\n'
	}
	var (
		items []item
		data  []byte
	)
	for i, n := 0, 1+gen.Count(r, 12); i < n; i++ {
		it := item{kind: r.Intn(3)}
		switch it.kind {
		case 0:
			body := make([]byte, gen.Size(r, 4200))
			for j := range body {
				body[j] = "abc XYZ$\\0+"[r.Intn(11)]
			}
			if isADC {
				it.data = append([]byte("HZZZ "), append(body, '\n')...)
			} else {
				it.data = append([]byte("$Zzz "), append(body, '|')...)
			}
		case 1:
			p := make([]byte, gen.Size(r, 5000))
			fillNo(r, p, delim)
			it.data = append(p, delim)
		case 2:
			it.data = r.Bytes(gen.Big(r, 9000))
		}
		items = append(items, it)
		data = append(data, it.data...)
	}
	tr := gen.NewReader(r, data)
	var (
		nr *nmdc.Reader
		ar *adc.Reader
		lr lineRd
	)
	if isADC {
		ar = adc.NewReader(tr)
		lr = ar
	} else {
		nr = nmdc.NewReader(tr)
		lr = nr
	}
	for i, it := range items {
		t.Eval(1)
		switch it.kind {
		case 0:
			var got []byte
			if isADC {
				p, err := ar.ReadPacket()
				if err != nil {
					t.Failf("message-error", "item %d of %d: %v", i, len(items), err)
				}
				if m, ok := p.Message().(*adc.RawMessage); ok {
					got = m.Data
				}
			} else {
				m, err := nr.ReadMsg()
				if err != nil {
					t.Failf("message-error", "item %d of %d: %v", i, len(items), err)
				}
				if m, ok := m.(*nmdc.RawMessage); ok {
					got = m.Data
				}
			}
			want := it.data[5 : len(it.data)-1]
			if !bytes.Equal(got, want) {
				t.Failf("message-bytes", "item %d: %s", i, diff(got, want))
			}
		case 1:
			line, err := lr.ReadLine()
			if err != nil || !bytes.Equal(line, it.data) {
				t.Failf("line-bytes", "item %d: %v, %s", i, err, diff(line, it.data))
			}
		case 2:
			rc, err := lr.Binary(uint64(len(it.data)))
			if err != nil || rc == nil {
				t.Failf("binary-open", "item %d: %v", i, err)
			}
			buf := make([]byte, r.Intn(len(it.data)+1))
			if r.P(1, 2) {
				buf = make([]byte, len(it.data))
			}
			if _, err := io.ReadFull(rc, buf); err != nil {
				t.Failf("binary-error", "item %d: %v", i, err)
			}
			if !bytes.Equal(buf, it.data[:len(buf)]) {
				t.Failf("binary-bytes", "item %d: %s", i, diff(buf, it.data[:len(buf)]))
			}
			if err := rc.Close(); err != nil {
				t.Failf("binary-close", "item %d: %v", i, err)
			}
		}
		t.Ev([]string{"messages", "lines", "binary-sections"}[it.kind], 1)
	}
	t.Seen(fmt.Sprint(isADC, tr.Plan, mon.HashStr(string(data))))
	t.Sample(func() string {
		return fmt.Sprintf("adc=%v, %d items, %d bytes, chunking %v", isADC, len(items), len(data), tr.Plan)
	})
}

// c01Grid: line lengths around the buffer size x lengths of the previous line x chunk sizes.
const c01Grid = 9 * 9 * 5

func c01Boundary(t *mon.T) {
	i := t.Index
	base := []int{0, 1, 2045, 2046, 2047, 2048, 2049, 4095, 4096}
	a, b := base[i%9], base[i/9%9]
	chunk := []int{1 << 20, 1, 2047, 2048, 2049}[i/81%5]
	mk := func(n int, c byte) []byte {
		return append(bytes.Repeat([]byte{c}, n), '|')
	}
	data := append(append(mk(a, 'a'), mk(b, 'b')...), "tail"...)
	tr := &fixedChunks{data: data, n: chunk}
	rd := lineproto.NewReader(tr, '|')
	m := &posModel{t: t, data: data, delim: '|', rd: rd}
	m.readLine()
	m.readLine()
	m.readLine()
	t.Seen(fmt.Sprint(a, b, chunk))
	t.Sample(func() string { return fmt.Sprintf("lines of %d and %d bytes in chunks of %d", a, b, chunk) })
}

type fixedChunks struct {
	data []byte
	n    int
}

func (f *fixedChunks) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := f.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.data)
	f.data = f.data[n:]
	return n, nil
}

// hugeReader is a transport with a given head, a long run of arbitrary bytes, and a tail.
type hugeReader struct {
	head, tail []byte
	n          uint64
	max        int
	reads      int
}

func (h *hugeReader) Read(p []byte) (int, error) {
	h.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(h.head) > 0 {
		n := copy(p, h.head)
		h.head = h.head[n:]
		return n, nil
	}
	if h.n > 0 {
		n := len(p)
		if n > h.max {
			n = h.max
		}
		if uint64(n) > h.n {
			n = int(h.n)
		}
		h.n -= uint64(n)
		p[0], p[n-1] = 1, 2 // the other bytes are not important
		return n, nil
	}
	if len(h.tail) > 0 {
		n := copy(p, h.tail)
		h.tail = h.tail[n:]
		return n, nil
	}
	return 0, io.EOF
}

// c01Huge skips binary sections with sizes around powers of two that do not fit into smaller integers.
func c01Huge(t *mon.T) {
	r := t.R
	size := mon.Pick[uint64](r, 1<<16, 1<<24, 1<<31, 1<<31, 1<<32, 1<<32, 1<<33) + uint64(r.Intn(5)) - 2
	if r.P(1, 4) {
		size = r.U64() >> uint(31+r.Intn(30))
	}
	h := &hugeReader{max: mon.Pick(r, 1<<20, 8192, 100000)}
	rd, delim, kind := newLineReader(r, h)
	line := []byte{delim + 1, delim + 2, delim}
	if kind == "adc" {
		line = []byte{'a', 'b', delim}
	}
	k := uint64(r.Intn(3000))
	if k > size {
		k = size
	}
	part := make([]byte, k)
	for i := range part {
		part[i] = delim
	}
	h.head = append(append([]byte{}, line...), part...)
	h.n = size - k
	h.tail = append(append([]byte{}, line...), line...)
	if got, err := rd.ReadLine(); err != nil || !bytes.Equal(got, line) {
		t.Failf("line", "%q, %v", got, err)
	}
	b, err := rd.Binary(size)
	if err != nil {
		t.Failf("binary", "size %d: %v", size, err)
	}
	var read uint64
	buf := make([]byte, mon.Pick(r, 1, 100, 5000, 1<<20))
	for i, n := 0, r.Intn(50); i < n && read < size; i++ {
		n, err := b.Read(buf)
		read += uint64(n)
		if err != nil && (err != io.EOF || read != size) {
			t.Failf("read", "section of %d bytes, after %d bytes: %v", size, read, err)
		}
	}
	if read > size {
		t.Failf("read-more", "section of %d bytes: read %d", size, read)
	}
	if err := b.Close(); err != nil {
		t.Failf("close", "section of %d bytes, %d read: %v", size, read, err)
	}
	t.Eval(2)
	for i := 0; i < 2; i++ {
		if h.n > 0 {
			t.Failf("skip", "section of %d bytes: %d of them are not read when it is closed", size, h.n)
		}
		if got, err := rd.ReadLine(); err != nil || !bytes.Equal(got, line) {
			t.Failf("after", "section of %d bytes: %s, %v instead of the next line", size, q(got), err)
		}
	}
	if _, err := rd.ReadLine(); err != io.EOF {
		t.Failf("end", "%v", err)
	}
	t.Ev("huge sections", b2i(size >= 1<<31-2))
	t.Seen(fmt.Sprint(kind, size, k, len(buf), read))
	t.Sample(func() string {
		return fmt.Sprintf("section of %d bytes, %d read, closed after %d reads of the transport", size, read, h.reads)
	})
}
