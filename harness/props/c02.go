package props

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"runtime"

	"github.com/direct-connect/go-dc/lineproto"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c02() mon.Property {
	return mon.Property{
		ID: "C02",
		Rule: "A case is a line limit (tiny, around the 2048-byte buffer and its multiples, default, unlimited), a stream with lines of exactly limit-1, limit, limit+1 and random lengths, plain or compressed, and a chunking; " +
			"acceptance is compared with length <= limit, and a counting transport (plus allocation accounting for compression bombs) observes how much is consumed before an endless line fails. Non-trivial: at least one accept/reject decision; distinct by limit, length, compression and chunking.",
		Assume: []string{"fixed overhead is taken as 256 KiB of input and 1 MiB + 16 times the limit of allocations"},
		Monitors: []mon.Monitor{
			{Name: "limit-model", Quick: 6000, Thorough: 200000, Run: c02Limit},
			{Name: "after-refusal", Quick: 2000, Thorough: 200000, Run: c02After},
			{Name: "endless-line", Quick: 600, Thorough: 10000, Run: c02Endless},
			{Name: "memory", Quick: 40, Thorough: 400, Serial: true, Run: c02Memory},
		},
	}
}

func zcompress(data []byte, lvl int) []byte {
	var buf bytes.Buffer
	w, err := zlib.NewWriterLevel(&buf, lvl)
	if err != nil {
		panic(err)
	}
	_, _ = w.Write(data)
	_ = w.Close()
	return buf.Bytes()
}

func c02Limit(t *mon.T) {
	r := t.R
	const def = 32768
	tr := gen.NewReader(r, nil)
	rd, delim, kind := newLineReader(r, tr)
	limit, set := def, false
	switch r.Intn(10) {
	case 0, 1:
		// default
	case 2:
		limit, set = mon.Pick(r, 0, -1, -32768), true
	case 3, 4:
		limit, set = 1+r.Intn(12), true
	case 5, 6:
		limit, set = mon.Pick(r, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 6144), true
	case 7:
		limit, set = mon.Pick(r, 32767, 32768, 32769, 65536, 70000), true
	default:
		limit, set = 1+r.Intn(9000), true
		if r.P(1, 10) {
			limit = 1 + gen.Scale(r, 1<<20)
		}
	}
	if tr.Plan == gen.ChunkOne && limit > 9000 {
		tr.Plan = gen.ChunkMixed
	}
	if set {
		rd.SetMaxLine(limit)
	}
	// some lines that fit, then the decisive one, then something else
	var lens []int // including the delimiter
	fit := func() int {
		max := limit
		if max <= 0 {
			max = 50000
		}
		n := 1 + r.Intn(max)
		if r.Bool() {
			n = 1 + r.Intn(20)
		}
		if n > max {
			n = max
		}
		return n
	}
	for i, n := 0, gen.Count(r, 4); i < n; i++ {
		lens = append(lens, fit())
	}
	last := fit()
	if limit > 0 {
		switch r.Intn(6) {
		case 0:
			last = limit
		case 1:
			last = limit + 1
		case 2:
			if limit > 1 {
				last = limit - 1
			}
		case 3:
			last = limit + 2 + r.Intn(5)
		case 4:
			last = limit + 1 + r.Intn(3*limit)
		case 5:
			last = limit + 2048 + r.Intn(3)
		}
	} else {
		last = mon.Pick(r, 32768, 32769, 65536, 200000, 1+r.Intn(100000))
	}
	lens = append(lens, last)
	for i, n := 0, r.Intn(3); i < n; i++ {
		lens = append(lens, fit())
	}
	var data []byte
	var lines [][]byte
	for _, n := range lens {
		p := make([]byte, n)
		fillNo(r, p[:n-1], delim)
		p[n-1] = delim
		lines = append(lines, p)
		data = append(data, p...)
	}
	comp := r.P(1, 3)
	tr.Data = data
	if comp {
		tr.Data = zcompress(data, r.Intn(10))
	}
	if comp {
		if err := rd.EnableZlib(); err != nil {
			t.Failf("enable", "%v", err)
		}
	}
	for i, want := range lines {
		got, err := rd.ReadLine()
		t.Eval(1)
		t.Logf("limit %d, line %d of %d bytes: %d bytes, %v", limit, i, len(want), len(got), err)
		ok := limit <= 0 || len(want) <= limit
		if ok {
			if err != nil {
				t.Failf("refused", "limit %d: a line of %d bytes (with the delimiter) was refused: %v", limit, len(want), err)
			}
			if !bytes.Equal(got, want) {
				t.Failf("line-bytes", "limit %d: %s", limit, diff(got, want))
			}
			t.Ev("accepted", 1)
			continue
		}
		if err == nil {
			t.Failf("accepted", "limit %d: a line of %d bytes (with the delimiter) was accepted as %d bytes", limit, len(want), len(got))
		}
		t.Ev("refused", 1)
		// whatever is read later must not be a part of the refused line
		for k := 0; k < 4; k++ {
			got, err := rd.ReadLine()
			if err != nil {
				break
			}
			found := false
			for _, l := range lines[i+1:] {
				if bytes.Equal(got, l) {
					found = true
				}
			}
			if !found {
				t.Failf("part-as-line", "limit %d: a part of the refused line of %d bytes was returned as a line: %s", limit, len(want), q(got))
			}
		}
		break
	}
	t.Ev("compressed", b2i(comp))
	t.Seen(fmt.Sprint(kind, limit, lens, comp, tr.Plan))
	t.Sample(func() string {
		return fmt.Sprintf("limit %d (explicit %v), line lengths %v, compressed %v, chunking %v", limit, set, lens, comp, tr.Plan)
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// chunks is a transport that returns given chunks, one for each read.
type chunks struct{ list [][]byte }

func (c *chunks) Read(p []byte) (int, error) {
	for len(c.list) > 0 && len(c.list[0]) == 0 {
		c.list = c.list[1:]
	}
	if len(c.list) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.list[0])
	c.list[0] = c.list[0][n:]
	return n, nil
}

// c02After keeps using a reader that refused a line: nothing of the line is returned, whatever is called.
func c02After(t *mon.T) {
	r := t.R
	limit := 1 + r.Intn(1500)
	tr := &chunks{}
	rd, delim, kind := newLineReader(r, tr)
	rd.SetMaxLine(limit)
	line := make([]byte, limit+r.Intn(400))
	fillNo(r, line, delim)
	// parts of the same line; one of them looks like a compressed section
	inner := make([]byte, 1+r.Intn(20))
	fillNo(r, inner, delim)
	var z []byte
	for i := 0; i < 4 && delim != 0x78; i++ {
		z = zcompress(bytes.Repeat(append(inner[:len(inner):len(inner)], delim), 1+r.Intn(3)), r.Intn(10))
		if bytes.IndexByte(z, delim) < 0 {
			break
		}
		z = nil
		inner[r.Intn(len(inner))] = delim + 1 + byte(r.Intn(100))
	}
	rest := make([]byte, r.Intn(300))
	fillNo(r, rest, delim)
	full := append(append(append(line[:len(line):len(line)], z...), rest...), delim)
	tail := append([]byte("next line"), delim)
	if bytes.IndexByte(tail, delim) != len(tail)-1 {
		tail = []byte{delim}
	}
	tr.list = [][]byte{line, z, append(rest, delim), tail, append(tail[:len(tail):len(tail)], tail...)}
	if r.P(1, 3) {
		tr.list = [][]byte{line, z, append(append(rest[:len(rest):len(rest)], delim), tail...)}
	}
	if got, err := rd.ReadLine(); err == nil {
		t.Failf("accepted", "limit %d: a line of %d bytes is read as %d bytes", limit, len(full), len(got))
	}
	var ops []string
	for i, n := 0, 1+r.Intn(8); i < n; i++ {
		op := r.Intn(6)
		if i == 0 {
			op = r.Intn(4)
		}
		switch op {
		case 0:
			err := rd.EnableZlib()
			ops = append(ops, fmt.Sprintf("EnableZlib (%v)", err))
			t.Ev("compression enabled", b2i(err == nil))
		case 1:
			n := mon.Pick(r, 0, 1<<20, limit+1, len(full))
			rd.SetMaxLine(n)
			ops = append(ops, fmt.Sprintf("SetMaxLine(%d)", n))
		case 2:
			rd.OnLine(func([]byte) (bool, error) { return true, nil })
			ops = append(ops, "OnLine")
		default:
			got, err := rd.ReadLine()
			ops = append(ops, fmt.Sprintf("ReadLine (%v)", err))
			t.Eval(1)
			if err == nil && !bytes.Equal(got, tail) && !bytes.Equal(got, full) {
				t.Failf("part-as-line", "limit %d: a part of the refused line of %d bytes was returned as a line after %v: %s", limit, len(full), ops, q(got))
			}
		}
	}
	t.Ev("operations after a refusal", len(ops))
	t.Seen(fmt.Sprint(kind, limit, len(line), len(rest), ops))
	t.Sample(func() string { return fmt.Sprintf("limit %d, line of %d bytes, then %v", limit, len(full), ops) })
}

// endless is a transport that never sends a delimiter.
type endless struct {
	r     *mon.Rand
	plan  gen.Chunking
	total int
	max   int
	pref  []byte
}

func (e *endless) Read(p []byte) (int, error) {
	if len(e.pref) > 0 {
		n := copy(p, e.pref)
		e.pref = e.pref[n:]
		return n, nil
	}
	n := len(p)
	switch e.plan {
	case gen.ChunkOne:
		n = 1
	case gen.ChunkSmall:
		n = 1 + e.r.Intn(64)
	case gen.ChunkMixed:
		n = 1 + e.r.Intn(4000)
	}
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		p[i] = 'a'
	}
	e.total += n
	if e.total > e.max {
		return n, io.EOF
	}
	return n, nil
}

func c02Endless(t *mon.T) {
	r := t.R
	limit := mon.Pick(r, 1, 10, 2047, 2048, 2049, 4096, 32768, 65536, 1+r.Intn(20000))
	const slack = 256 << 10
	e := &endless{r: r.Fork(), plan: mon.Pick(r, gen.ChunkAll, gen.ChunkOne, gen.ChunkSmall, gen.ChunkMixed), max: limit + slack + 100000}
	rd, delim, kind := newLineReader(r, e)
	if delim == 'a' {
		return
	}
	if limit != 32768 || r.Bool() {
		rd.SetMaxLine(limit)
	}
	for i, n := 0, r.Intn(3); i < n; i++ {
		p := bytes.Repeat([]byte{'b'}, r.Intn(limit))
		if delim == 'b' {
			p = nil
		}
		e.pref = append(e.pref, append(p, delim)...)
	}
	pref := bytes.Count(e.pref, []byte{delim})
	for i := 0; i < pref; i++ {
		if _, err := rd.ReadLine(); err != nil {
			t.Failf("line-error", "%v", err)
		}
	}
	line, err := rd.ReadLine()
	t.Eval(1)
	t.Ev("bytes-consumed", e.total)
	if err == nil {
		t.Failf("accepted", "endless line was accepted with %d bytes", len(line))
	}
	if e.total > limit+slack {
		t.Failf("consumes-without-bound", "limit %d: %d bytes of an endless line were consumed before the failure", limit, e.total)
	}
	t.Seen(fmt.Sprint(kind, limit, e.plan, pref))
	t.Sample(func() string {
		return fmt.Sprintf("limit %d: failed after %d bytes of an endless line", limit, e.total)
	})
}

func c02Memory(t *mon.T) {
	r := t.R
	limit := mon.Pick(r, 100, 2048, 32768, 65536)
	size := 24 << 20
	// compression bomb: an endless line of zeroes
	data := zcompress(bytes.Repeat([]byte{'a'}, size), 9)
	tr := &gen.Reader{Data: data, Plan: gen.ChunkBuf, R: r.Fork()}
	rd := lineproto.NewReader(tr, '|')
	rd.SetMaxLine(limit)
	if err := rd.EnableZlib(); err != nil {
		t.Failf("enable", "%v", err)
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	line, err := rd.ReadLine()
	runtime.ReadMemStats(&b)
	t.Eval(1)
	if err == nil {
		t.Failf("accepted", "a line of %d bytes was accepted with the limit %d", len(line), limit)
	}
	alloc := int64(b.TotalAlloc - a.TotalAlloc)
	t.Ev("bytes-allocated", int(alloc))
	if max := int64(1<<20 + 16*limit); alloc > max {
		t.Failf("memory", "limit %d: %d bytes were allocated for a compressed line of %d bytes", limit, alloc, size)
	}
	t.Seen(fmt.Sprint(limit, t.Index))
	t.Sample(func() string {
		return fmt.Sprintf("limit %d, bomb of %d bytes: %d bytes allocated", limit, size, alloc)
	})
}
