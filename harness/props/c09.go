package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"golang.org/x/text/encoding"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c09() mon.Property {
	return mon.Property{
		ID: "C09",
		Rule: "stream: a stream of hostile segments (valid messages of this library and of a reference peer mutated by cuts, bit flips, tokens and repetitions; random bytes; arbitrary command names), each followed by a sentinel message, is read with random chunking, decoder, name limit, callbacks and read method; an independent splitter and framing classifier decides which reads must fail, which segment each result comes from and that the sentinel follows. " +
			"payload: the payload decoder of each registered type gets hostile bytes with each decoder; tokens: all strings of up to 3 tokens for each type; prefixes: every prefix of a valid message. After each successful decode the value is encoded again, printed, and keys are computed. Non-trivial: every case; distinct by input bytes.",
		Assume: []string{"command names with ASCII punctuation may be either accepted or refused"},
		Monitors: []mon.Monitor{
			{Name: "stream", Quick: 36000, Thorough: 500000, Run: c09Stream},
			{Name: "payload", Quick: 600000, Thorough: 8000000, Run: c09Payload},
			{Name: "tokens", Quick: c09Tokens, Thorough: c09Tokens, Run: c09Token},
			{Name: "prefixes", Quick: 12000, Thorough: 100000, Run: c09Prefixes},
		},
	}
}

// useNMDC exercises a decoded message: none of it may panic.
func useNMDC(t *mon.T, m nmdc.Message) {
	_ = m.Type()
	if s, ok := m.(fmt.Stringer); ok {
		_ = s.String()
	}
	_, _ = nmdc.Marshal(nil, m)
	if t.R.P(1, 4) {
		_, _ = nmdc.Marshal(c08Encs[t.R.Intn(len(c08Encs))].NewEncoder(), m)
	}
	switch m := m.(type) {
	case *nmdc.Lock:
		_ = m.Key()
		_ = m.CustomKey(byte(t.R.U64()), t.R.Bool())
		_ = m.LockString(true)
		_ = m.LockString(false)
		t.Ev("keys", 1)
	case *nmdc.MyINFO:
		_ = m.Flag.IsSet(nmdc.FlagTLS)
	case *nmdc.Supports:
		_ = m.Intersect(&nmdc.Supports{Ext: []string{"a"}})
	}
	_ = dump(m)
}

// nmdcClass tells if a segment must be reported as an error because of its framing.
func nmdcClass(seg []byte, maxCmd int) (name string, cmd bool, must string) {
	if bytes.IndexByte(seg, 0) >= 0 {
		must = "NUL"
	}
	if len(seg) == 0 || seg[0] != '$' {
		return "", false, must
	}
	n := seg[1:]
	if i := bytes.IndexByte(n, ' '); i >= 0 {
		n = n[:i]
	}
	if must == "" {
		switch {
		case len(n) == 0:
			must = "empty command name"
		case len(n) > maxCmd:
			must = "long command name"
		default:
			for _, c := range n {
				if c >= 0x80 {
					must = "non-ASCII command name"
				}
			}
		}
	}
	return string(n), true, must
}

func plainName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("/-_.:", c) >= 0) {
			return false
		}
	}
	return s != ""
}

func c09Stream(t *mon.T) {
	r := t.R
	var stream []byte
	nseg := 1 + r.Intn(12)
	type item struct {
		seg      []byte
		sentinel string
	}
	var items []item // non-empty segments
	keep := 0
	for i := 0; i < nseg; i++ {
		h := nmdcHostile(r)
		for _, s := range bytes.Split(h, []byte("|")) {
			if len(s) == 0 {
				keep++
				continue
			}
			items = append(items, item{seg: s})
		}
		stream = append(append(stream, h...), '|')
		s := fmt.Sprintf("s%dx", i)
		stream = append(stream, "$Hello "+s+"|"...)
		items = append(items, item{seg: []byte("$Hello " + s), sentinel: s})
	}
	tail := ""
	if r.Bool() {
		tail = mon.Pick(r, "$Hello x", "chat", "<", "$", "$Hello x\x00", "<a> b")
		stream = append(stream, tail...)
	}
	tr := gen.NewReader(r, stream)
	rd := nmdc.NewReader(tr)
	rd.SetMaxLine(mon.Pick(r, 0, -1, 1<<20))
	maxCmd := 32
	if r.P(1, 3) {
		maxCmd = mon.Pick(r, 1, 2, 5, 31, 33, 100)
		if maxCmd < 5 {
			maxCmd = 5 // sentinels
		}
		rd.SetMaxCmdName(maxCmd)
	}
	if r.P(1, 3) {
		rd.SetDecoder(c08Encs[r.Intn(len(c08Encs))].NewDecoder())
	}
	ukn := r.Intn(4)
	switch ukn {
	case 0:
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			t.Ev("unknown-encoding", 1)
			return c08Encs[r.Intn(2)].NewDecoder(), nil
		}
	case 1:
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) { return nil, errors.New("no") }
	case 2:
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) { return nil, nil }
	}
	var skipped [][]byte
	skip := r.P(1, 3)
	if skip {
		rd.OnUnmarshalError = func(text []byte, err error) (bool, error) {
			_ = err.Error()
			skipped = append(skipped, append([]byte{}, text...))
			return false, nil
		}
	}
	gotKeep := 0
	hasKeep := r.Bool()
	if hasKeep {
		rd.OnKeepAlive = func() error { gotKeep++; return nil }
	}
	i := 0
	for step := 0; ; step++ {
		if step > len(items)+8 {
			t.Failf("no-progress", "%d reads for %d messages: %s", step, len(items), q(stream))
		}
		skipped = skipped[:0]
		pos := i
		m, err := rd.ReadMsg()
		if err != nil {
			_ = err.Error()
		}
		for range skipped {
			if pos >= len(items) {
				t.Failf("extra", "a message is skipped after the end: %q: %s", skipped, q(stream))
			}
			it := items[pos]
			if it.sentinel != "" {
				t.Failf("disturbed", "valid message %q is reported as invalid: %q in %s", it.seg, skipped, q(stream))
			}
			pos++
		}
		if i = pos; i >= len(items) {
			if err == nil {
				t.Failf("phantom", "message after the end of data (tail %q): %s: %s", tail, dump(m), q(stream))
			}
			if tail == "" && err != io.EOF {
				t.Failf("end", "clean end is reported as %v: %s", err, q(stream))
			}
			break
		}
		it := items[i]
		i++
		name, cmd, must := nmdcClass(it.seg, maxCmd)
		t.Eval(1)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			t.Failf("early-end", "%v before message %q: %s", err, it.seg, q(stream))
		}
		if must != "" {
			if err == nil {
				t.Failf("framing", "%s is accepted: %q: %s", must, it.seg, dump(m))
			}
			t.Ev("refused-"+must, 1)
			continue
		}
		if it.sentinel != "" {
			if err != nil {
				t.Failf("disturbed", "valid message %q after %q cannot be read: %v: %s", it.seg, items[max0(i-2)].seg, err, q(stream))
			}
			h, ok := m.(*nmdc.Hello)
			if !ok || string(h.Name) != it.sentinel {
				t.Failf("disturbed", "expected %q after %q, got %s: %s", it.seg, items[max0(i-2)].seg, dump(m), q(stream))
			}
			continue
		}
		if err != nil {
			t.Ev("error", 1)
			if cmd && plainName(name) && !nmdc.IsRegistered(name) {
				t.Failf("unregistered", "message %q cannot be read: %v", it.seg, err)
			}
			continue
		}
		t.Ev("decoded", 1)
		if m == nil {
			t.Failf("nil", "no message and no error for %q", it.seg)
		}
		if cmd && m.Type() != name || !cmd && m.Type() != "" {
			t.Failf("type", "%q is decoded as %T %q", it.seg, m, m.Type())
		}
		if raw, ok := m.(*nmdc.RawMessage); ok {
			want := []byte{}
			if i := bytes.IndexByte(it.seg, ' '); i >= 0 {
				want = it.seg[i+1:]
			}
			if !bytes.Equal(raw.Data, want) {
				t.Failf("raw", "raw message has %q, expected %q", raw.Data, want)
			}
		}
		useNMDC(t, m)
	}
	if hasKeep && gotKeep != keep {
		t.Failf("keep-alive", "%d keep-alives, expected %d: %s", gotKeep, keep, q(stream))
	}
	// the end is stable
	for k := 0; k < 2; k++ {
		if m, err := rd.ReadMsg(); err == nil {
			t.Failf("phantom", "message after the end of data (tail %q): %s: %s", tail, dump(m), q(stream))
		}
	}
	t.Seen(string(stream))
	t.Sample(func() string { return fmt.Sprintf("%d messages: %s", len(items), q(stream)) })
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

// decodePayload runs the decoder of a type and checks that it does not keep or modify the input.
func decodePayload(t *mon.T, typ string, e encoding.Encoding, data []byte) {
	m := nmdc.NewMessage(typ)
	var d *nmdc.TextDecoder
	if e != nil {
		d = e.NewDecoder()
	}
	t.Eval(1)
	orig := string(data)
	err := m.UnmarshalNMDC(d, data)
	if string(data) != orig {
		t.Failf("modified", "decoding %s changed its input %q to %q", typ, orig, data)
	}
	if err != nil {
		_ = err.Error()
		t.Ev("payload-error", 1)
		return
	}
	t.Ev("payload-ok", 1)
	useNMDC(t, m)
}

func c09Payload(t *mon.T) {
	r := t.R
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	var data []byte
	switch r.Intn(4) {
	case 0:
		data = nmdcHostile(r)
		if i := bytes.IndexByte(data, ' '); i >= 0 && r.Bool() {
			data = data[i+1:]
		}
	case 1:
		for i, n := 0, r.Intn(10); i < n; i++ {
			data = append(data, mon.Pick(r, nmdcTokens...)...)
		}
	default:
		var buf bytes.Buffer
		if err := newNGen(r).pick(typ).in.MarshalNMDC(nil, &buf); err == nil {
			data = mutate(r, buf.Bytes(), nmdcTokens)
		}
	}
	var e encoding.Encoding
	if r.P(1, 3) {
		e = c08Encs[r.Intn(len(c08Encs))]
	}
	decodePayload(t, typ, e, data)
	// the whole line, terminated or not
	line := append([]byte("$"+typ+" "), data...)
	if typ == "" {
		line = append([]byte{}, data...)
	}
	if r.Bool() {
		line = append(line, '|')
	}
	if m, err := nmdc.Unmarshal(nil, line); err == nil {
		if bytes.IndexByte(line, '|') < 0 {
			t.Failf("unterminated", "Unmarshal accepts input without a delimiter: %s: %s", q(line), dump(m))
		}
		useNMDC(t, m)
	}
	t.Seen(typ + "\x00" + string(data))
	t.Sample(func() string { return typ + ": " + q(data) })
}

const (
	c09TokN   = 93
	c09Tokens = 1 + c09TokN + c09TokN*c09TokN + 40000
)

// c09Token tries strings of tokens as payloads of all the types: up to two exhaustively, a sample of three.
func c09Token(t *mon.T) {
	i := t.Index
	n := len(nmdcTokens)
	var s string
	switch {
	case i == 0:
	case i <= n:
		s = nmdcTokens[i-1]
	case i <= n+n*n:
		i -= n + 1
		s = nmdcTokens[i%n] + nmdcTokens[i/n]
	default:
		s = mon.Pick(t.R, nmdcTokens...) + mon.Pick(t.R, nmdcTokens...) + mon.Pick(t.R, nmdcTokens...)
	}
	for _, typ := range nmdcTypes {
		decodePayload(t, typ, nil, []byte(s))
	}
	t.Seen(s)
}

func c09Prefixes(t *mon.T) {
	r := t.R
	g := newNGen(r)
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	var buf bytes.Buffer
	if err := g.pick(typ).in.MarshalNMDC(nil, &buf); err != nil {
		return
	}
	b := buf.Bytes()
	if len(b) > 400 {
		b = b[:400]
	}
	for i := 0; i <= len(b); i++ {
		// exact capacity, so reading past the end is noticed
		decodePayload(t, typ, nil, append([]byte{}, b[:i]...)[:i:i])
		decodePayload(t, typ, nil, append([]byte{}, b[i:]...))
	}
	t.Seen(typ + "\x00" + string(b))
}
