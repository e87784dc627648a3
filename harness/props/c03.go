package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/lineproto"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c03() mon.Property {
	return mon.Property{
		ID: "C03",
		Rule: "A case is a random script of lines, direct writes, flushes, compression switches (all levels, refused ones included) on a lineproto, NMDC or ADC writer with a random buffer; the recorded wire is decoded by an independent inflate, " +
			"and a reader that switches at the same points reads it back under a random chunking. A second monitor feeds the reader with streams of an independent deflate encoder (stored, fixed, dynamic blocks, all window sizes), also damaged ones. " +
			"Non-trivial: at least one compressed section was decoded; distinct by script, configuration and chunking.",
		Assume: []string{"between two compressed sections there is at least one plain byte (the reader finds the end of a section when it reads on)"},
		Monitors: []mon.Monitor{
			{Name: "switching-roundtrip", Quick: 10000, Thorough: 120000, Run: c03Round},
			{Name: "independent-peer", Quick: 8000, Thorough: 100000, Run: c03Peer},
			{Name: "damaged-stream", Quick: 5000, Thorough: 60000, Run: c03Damaged},
		},
	}
}

// rdItem is what a reader should do.
type rdItem struct {
	on   bool
	raw  bool
	data []byte
}

func c03Round(t *mon.T) {
	r := t.R
	c := randWConfig(r)
	ops := genOps(t, c, wOpts{max: 24, size: 9000, zlib: true, sep: true, bad: true, closeAt: true, msgs: r.P(1, 3)})
	out := gen.NewWriter()
	w := c.open(out)
	var exp wStream
	var items []rdItem
	zsec := 0
	on := false
	for _, op := range ops {
		before := len(out.Bytes())
		werr := w.Err()
		err := w.do(t, op)
		t.Logf("%v -> %v", op, err)
		t.Eval(1)
		switch op.kind {
		case wBadLvl, wBadOn, wBadOff:
			if err == nil {
				t.Failf("accepted-switch", "a switch that must be refused succeeded: %v (compression on: %v)", op, on)
			}
			if w.Err() != werr {
				t.Failf("refusal-sticky", "a refused switch broke the writer: %v", w.Err())
			}
			if n, _, derr := exp.decode(out.Bytes()); derr != nil {
				t.Failf("refusal-emits", "after a refused switch %v: %v (%d bytes decoded)", op, derr, n)
			}
			t.Ev("refused-switches", 1)
			continue
		case wCheck:
			if len(out.Bytes()) != before {
				t.Failf("check-emits", "CheckZlibLevel wrote to the connection")
			}
			if ok := !on && op.lvl >= -2 && op.lvl <= 9; ok != (err == nil) {
				t.Failf("check-level", "CheckZlibLevel(%d) with compression on=%v: %v", op.lvl, on, err)
			}
			continue
		case wBadMsg:
			// either the valid part of the batch is written or nothing
			if err == nil {
				t.Failf("bad-message", "a message that cannot be encoded was written")
			}
			if err := w.Flush(); err != nil {
				t.Failf("healthy-error", "flush failed after an encoding error: %v", err)
			}
			exp2 := wStream{segs: append([]wSeg{}, exp.segs...)}
			exp2.cur().data = append(append([]byte{}, exp.cur().data...), op.data...)
			if n, _, derr := exp2.decode(out.Bytes()); derr == nil && n == exp2.size() {
				exp = exp2
				items = append(items, rdItem{raw: true, data: op.data})
			}
			continue
		}
		if err != nil {
			t.Failf("healthy-error", "%v failed on a healthy transport: %v", op, err)
		}
		exp.apply(op)
		switch op.kind {
		case wOn:
			on = true
			zsec++
			items = append(items, rdItem{on: true})
		case wZOn:
			on = true
			zsec++
			items = append(items, rdItem{data: []byte("$ZOn|")}, rdItem{on: true})
		case wOff:
			on = false
		case wLine, wKeep:
			items = append(items, rdItem{data: op.data})
		case wRaw, wMsg:
			items = append(items, rdItem{raw: true, data: op.data})
		}
	}
	wire := append([]byte{}, out.Bytes()...)
	n, complete, err := exp.decode(wire)
	t.Eval(1)
	if err != nil || n != exp.size() || !complete {
		t.Failf("not-standard", "the wire does not decode to what was written with an independent zlib: %d of %d bytes, complete=%v: %v\nscript: %s", n, exp.size(), complete, err, opsString(ops))
	}
	t.Ev("compressed-sections", zsec)
	t.Ev("wire-bytes", len(wire))

	// read it back
	tr := gen.NewReader(r, wire)
	var rd lineRd
	switch c.kind {
	case 1:
		rd = newReaderKind("nmdc", tr)
	case 2:
		rd = newReaderKind("adc", tr)
	default:
		rd = lineproto.NewReader(tr, c.delim())
	}
	rd.SetMaxLine(0)
	readItems(t, rd, items, c.delim())
	if line, err := rd.ReadLine(); err == nil {
		t.Failf("extra-data", "extra line after everything was read: %s", q(line))
	} else if err != io.EOF {
		t.Failf("end-error", "the end of the stream is reported as %v", err)
	}
	if zsec > 0 {
		t.Seen(fmt.Sprint(c, tr.Plan, opsString(ops), mon.HashStr(string(wire))))
	}
	t.Sample(func() string { return fmt.Sprintf("%v: %s", c, opsString(ops)) })
}

// readItems reads items; raw items may be read in any pieces.
func readItems(t *mon.T, rd lineRd, items []rdItem, delim byte) {
	r := t.R
	readRaw := func(want []byte) {
		if r.P(1, 3) {
			rc, err := rd.Binary(uint64(len(want)))
			if err != nil {
				t.Failf("binary-open", "Binary: %v", err)
			}
			// sometimes the rest of the section is skipped
			part := want
			if r.P(1, 3) {
				part = want[:r.Intn(len(want)+1)]
			}
			got := make([]byte, len(part))
			if n, err := io.ReadFull(rc, got); err != nil {
				t.Failf("raw-error", "binary section of %d bytes: %d read, %v", len(want), n, err)
			}
			if !eq(got, part) {
				t.Failf("raw-bytes", "binary section: %s", diff(got, part))
			}
			if err := rc.Close(); err != nil {
				t.Failf("raw-error", "binary close: %v", err)
			}
			return
		}
		got := make([]byte, 0, len(want))
		buf := make([]byte, 1+r.Intn(6000))
		for i := 0; len(got) < len(want); i++ {
			k := len(want) - len(got)
			if k > len(buf) {
				k = len(buf)
			}
			n, err := rd.Read(buf[:k])
			got = append(got, buf[:n]...)
			if err != nil && len(got) < len(want) {
				t.Failf("raw-error", "reading %d raw bytes: %d read, %v", len(want), len(got), err)
			}
			if i > 1000000 {
				t.Failf("raw-stuck", "no progress in Read")
			}
		}
		if !eq(got, want) {
			t.Failf("raw-bytes", "%s", diff(got, want))
		}
	}
	for i := 0; i < len(items); i++ {
		it := items[i]
		t.Eval(1)
		if !it.on && r.P(1, 8) {
			// read several as raw data, possibly across the end of a compressed section
			data := append([]byte{}, it.data...)
			for i+1 < len(items) && !items[i+1].on && r.P(2, 3) {
				i++
				data = append(data, items[i].data...)
			}
			readRaw(data)
			continue
		}
		switch {
		case it.on:
			if err := rd.EnableZlib(); err != nil {
				t.Failf("enable-error", "EnableZlib on a valid stream: %v", err)
			}
		case it.raw:
			// a line may start with raw data; read them together sometimes
			if j := i + 1; j < len(items) && !items[j].on && !items[j].raw && bytes.IndexByte(it.data, delim) < 0 && r.P(1, 3) {
				want := append(append([]byte{}, it.data...), items[j].data...)
				line, err := rd.ReadLine()
				if err != nil || !eq(line, want) {
					t.Failf("line-bytes", "line of %d bytes: %v, %s", len(want), err, diff(line, want))
				}
				i++
				continue
			}
			readRaw(it.data)
		default:
			if r.P(1, 6) {
				readRaw(it.data)
				continue
			}
			line, err := rd.ReadLine()
			if err != nil {
				t.Failf("line-error", "line of %d bytes: %v", len(it.data), err)
			}
			if !eq(line, it.data) {
				t.Failf("line-bytes", "%s", diff(line, it.data))
			}
		}
	}
}

// c03Peer reads streams of an independent encoder.
func c03Peer(t *mon.T) {
	r := t.R
	tr := gen.NewReader(r, nil)
	rd, delim, kind := newLineReader(r, tr)
	rd.SetMaxLine(0)
	var wire []byte
	zsec := 0
	type step struct {
		data []byte
		zlib bool
		next bool // there is more data in this section
		raw  bool // a part of a line, read as bytes
	}
	var steps []step
	cut := 0 // lines that begin and end with different compression
	for i, n := 0, 1+gen.Count(r, 4); i < n; i++ {
		for j, m := 0, 1+gen.Count(r, 3); j < m; j++ {
			p := make([]byte, gen.Big(r, 5000))
			fillNo(r, p, delim)
			p = append(p, delim)
			wire = append(wire, p...)
			steps = append(steps, step{data: p})
		}
		var z []byte
		m := gen.Count(r, 4)
		if m == 0 && i == 0 && r.Bool() {
			continue
		}
		if r.P(1, 5) {
			// the reader switches in the middle of a line
			p := make([]byte, 1+gen.Size(r, 3000))
			fillNo(r, p, delim)
			wire = append(wire, p...)
			steps = append(steps, step{data: p, raw: true})
		}
		// the section ends in the middle of a line
		var tail []byte
		if r.P(1, 3) {
			tail = make([]byte, 1+gen.Big(r, 9000))
			fillNo(r, tail, delim)
			tail = append(tail, delim)
		}
		steps = append(steps, step{zlib: true, next: m > 0 || tail != nil})
		for j := 0; j < m; j++ {
			p := make([]byte, gen.Big(r, 9000))
			fillNo(r, p, delim)
			if r.Bool() {
				for i := range p {
					p[i] = delim + 1 + byte(i%7)
				}
			}
			p = append(p, delim)
			z = append(z, p...)
			steps = append(steps, step{data: p, next: j+1 < m || tail != nil})
		}
		if tail != nil {
			steps = append(steps, step{data: tail})
			i := mon.Pick(r, 1, len(tail)-1, r.Range(1, len(tail)-1))
			z, tail = append(z, tail[:i]...), tail[i:]
			cut++
		}
		zsec++
		if r.P(1, 4) {
			wire = append(wire, zcompress(z, r.Range(-2, 9))...)
		} else {
			wire = append(wire, ref.ZlibEncode(r, z)...)
		}
		wire = append(wire, tail...)
	}
	for j, m := 0, 1+r.Intn(2); j < m; j++ {
		p := make([]byte, gen.Size(r, 3000))
		fillNo(r, p, delim)
		p = append(p, delim)
		wire = append(wire, p...)
		steps = append(steps, step{data: p})
	}
	tr.Data = wire
	inZ := false
	for i := 0; i < len(steps); i++ {
		s := steps[i]
		t.Eval(1)
		if s.zlib {
			if err := rd.EnableZlib(); err != nil {
				t.Failf("enable-error", "EnableZlib at step %d: %v", i, err)
			}
			inZ = s.next
			if inZ && r.P(1, 3) {
				if err := rd.EnableZlib(); err == nil {
					t.Failf("double-enable", "compression was enabled twice")
				}
				t.Ev("refused-switches", 1)
			}
			continue
		}
		if s.raw {
			readItems(t, rd, []rdItem{{raw: true, data: s.data}}, delim)
		} else if r.P(1, 6) {
			// read several lines as raw data, possibly across the end of the section
			items := []rdItem{{raw: true, data: s.data}}
			for i+1 < len(steps) && !steps[i+1].zlib && r.P(2, 3) {
				i++
				s = steps[i]
				items[0].data = append(append([]byte{}, items[0].data...), s.data...)
			}
			readItems(t, rd, items, delim)
			t.Ev("raw-sections", 1)
		} else {
			line, err := rd.ReadLine()
			if err != nil {
				t.Failf("line-error", "step %d (%s): line of %d bytes: %v", i, kind, len(s.data), err)
			}
			if !eq(line, s.data) {
				t.Failf("line-bytes", "step %d (%s): %s", i, kind, diff(line, s.data))
			}
		}
		if inZ && s.next && r.P(1, 6) {
			if err := rd.EnableZlib(); err == nil {
				t.Failf("double-enable", "compression was enabled twice")
			}
			t.Ev("refused-switches", 1)
		}
	}
	if line, err := rd.ReadLine(); err != io.EOF {
		t.Failf("end", "the end of the stream: %s, %v", q(line), err)
	}
	t.Ev("compressed-sections", zsec)
	t.Ev("lines-across-the-end", cut)
	if zsec > 0 {
		t.Seen(fmt.Sprint(kind, tr.Plan, mon.HashStr(string(wire))))
	}
	t.Sample(func() string {
		return fmt.Sprintf("%s, %d sections, %d bytes, chunking %v", kind, zsec, len(wire), tr.Plan)
	})
}

// c03Damaged checks that corrupt headers, sections and truncated sections are reported.
func c03Damaged(t *mon.T) {
	r := t.R
	tr := gen.NewReader(r, nil)
	rd, delim, kind := newLineReader(r, tr)
	rd.SetMaxLine(0)
	var z []byte
	var lines [][]byte
	for j, m := 0, 1+gen.Count(r, 4); j < m; j++ {
		p := make([]byte, gen.Big(r, 3000))
		fillNo(r, p, delim)
		p = append(p, delim)
		lines = append(lines, p)
		z = append(z, p...)
	}
	enc := zcompress(z, r.Range(-2, 9))
	if r.Bool() {
		enc = ref.ZlibEncode(r, z)
	}
	word := func(s string) []byte {
		b := []byte(s)
		for i := range b {
			if b[i] == delim {
				b[i]++
			}
		}
		return append(b, delim)
	}
	plain := word("plain")
	mode := r.Intn(4)
	if reuse := r.Bool(); reuse {
		// use the reader for a valid section first
		first := ref.ZlibEncode(r, word("ok"))
		tr.Data = append(append([]byte{}, first...), plain...)
		mustLine := func(want string) {
			line, err := rd.ReadLine()
			if err != nil || string(line) != want {
				t.Failf("line-error", "valid section: %s, %v", q(line), err)
			}
		}
		if err := rd.EnableZlib(); err != nil {
			t.Failf("enable-error", "valid section: %v", err)
		}
		mustLine(string(word("ok")))
		mustLine(string(plain))
	}
	switch mode {
	case 0: // header
		bad := append([]byte{}, enc...)
		for {
			i := r.Intn(2)
			bad[i] = byte(r.Intn(256))
			if bad[0]&0xf != 8 || bad[0]>>4 > 7 || (int(bad[0])<<8|int(bad[1]))%31 != 0 {
				break
			}
			if bad[1]&0x20 != 0 { // dictionary
				break
			}
		}
		tr.Data = append(append(tr.Data, bad...), plain...)
		if err := rd.EnableZlib(); err == nil {
			t.Failf("corrupt-header", "a corrupt zlib header %x was accepted", bad[:2])
		}
		t.Ev("corrupt-headers", 1)
	case 1: // empty input
		if err := rd.EnableZlib(); err == nil {
			t.Failf("corrupt-header", "compression was enabled at the end of the stream")
		}
		t.Ev("corrupt-headers", 1)
	case 2: // checksum
		bad := append([]byte{}, enc...)
		bad[len(bad)-1-r.Intn(4)] ^= byte(1 + r.Intn(255))
		tr.Data = append(append(tr.Data, bad...), plain...)
		if err := rd.EnableZlib(); err != nil {
			t.Failf("enable-error", "%v", err)
		}
		for _, l := range lines {
			line, err := rd.ReadLine()
			if err != nil {
				break
			}
			if !eq(line, l) {
				t.Failf("line-bytes", "%s", diff(line, l))
			}
		}
		if line, err := rd.ReadLine(); err == nil {
			t.Failf("corrupt-checksum", "a section with a wrong checksum was accepted and %s was returned", q(line))
		}
		t.Ev("corrupt-checksums", 1)
	case 3: // truncated
		cut := 2 + r.Intn(len(enc)-2)
		tr.Data = append(tr.Data, enc[:cut]...)
		if err := rd.EnableZlib(); err != nil {
			t.Failf("enable-error", "%v", err)
		}
		res, err := ref.Zlib(enc[:cut])
		if err != ref.ErrTruncated {
			panic("not truncated")
		}
		got := 0
		for {
			line, err := rd.ReadLine()
			if err != nil {
				if err == io.EOF {
					t.Failf("truncated-eof", "a truncated section is reported as a clean end of the stream")
				}
				break
			}
			if got+len(line) > len(res.Out) || !eq(line, res.Out[got:got+len(line)]) {
				t.Failf("line-bytes", "line at %d of a truncated section: %s", got, q(line))
			}
			got += len(line)
		}
		t.Ev("truncated-sections", 1)
	}
	t.Eval(1)
	t.Seen(fmt.Sprint(kind, mode, tr.Plan, mon.HashStr(string(tr.Data))))
	t.Sample(func() string { return fmt.Sprintf("%s, damage %d, %d bytes", kind, mode, len(tr.Data)) })
}
