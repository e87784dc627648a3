package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c07() mon.Property {
	return mon.Property{
		ID: "C07",
		Rule: "A case is a valid message of each registered NMDC type in turn (texts and names built of markup, separators, escapes, legacy-like and multi-byte pieces, boundary numbers, 0..40 list elements), or a stream of a random mixture written and read with random buffers, chunking and compression, or every string of up to 4 critical tokens in each text field; " +
			"the decoded value is compared field by field with the original. Non-trivial: every case; distinct by encoded bytes.",
		Assume: []string{"field domains are those of DESIGN.md (e.g. names without spaces in space separated messages, no NUL, no literal /%DCN escapes)"},
		Monitors: []mon.Monitor{
			{Name: "single-roundtrip", Quick: 135000, Thorough: 2000000, Run: c07Single},
			{Name: "stream-roundtrip", Quick: 4500, Thorough: 60000, Run: c07Stream},
			{Name: "scale", Quick: 6000, Thorough: 100000, Run: c07Scale},
			{Name: "tokens-exhaustive", Quick: c07Grid, Thorough: c07Grid, Run: c07Tokens},
		},
	}
}

// checkSame compares decoded and expected messages.
func checkSame(t *mon.T, what string, got, want nmdc.Message, wire []byte) {
	t.Eval(1)
	if g, w := dump(got), dump(want); g != w {
		t.Failf("roundtrip-"+fmt.Sprintf("%T", want), "%s:\n got %s\nwant %s\nwire %s", what, g, w, q(wire))
	}
}

func c07Single(t *mon.T) {
	g := newNGen(t.R)
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	p := g.pick(typ)
	before := dump(p.in)
	wire, err := nmdc.Marshal(nil, p.in)
	if err != nil {
		t.Failf("marshal-error", "valid message cannot be encoded: %v: %s", err, before)
	}
	if after := dump(p.in); after != before {
		t.Failf("modified", "encoding modified the message: %s, was %s", after, before)
	}
	if bytes.Count(wire, []byte("|")) != 1 {
		t.Failf("framing", "message is not encoded as a single command: %s", q(wire))
	}
	got, err := nmdc.Unmarshal(nil, wire)
	if err != nil {
		t.Failf("unmarshal-error", "encoded message cannot be decoded: %v: %s", err, q(wire))
	}
	checkSame(t, "Unmarshal", got, p.want, wire)
	// payload methods
	var buf bytes.Buffer
	if err := p.in.MarshalNMDC(nil, &buf); err != nil {
		t.Failf("marshal-error", "MarshalNMDC: %v: %s", err, before)
	}
	m := nmdc.NewMessage(typ)
	if m.Type() != typ {
		t.Failf("type", "NewMessage(%q) has a type %q", typ, m.Type())
	}
	if err := m.UnmarshalNMDC(nil, buf.Bytes()); err != nil {
		t.Failf("unmarshal-error", "UnmarshalNMDC: %v: %s", err, q(buf.Bytes()))
	}
	checkSame(t, "UnmarshalNMDC", m, p.want, buf.Bytes())
	// the previous value must not matter
	m = g.pick(typ).in
	if err := m.UnmarshalNMDC(nil, buf.Bytes()); err != nil {
		t.Failf("unmarshal-error", "UnmarshalNMDC: %v: %s", err, q(buf.Bytes()))
	}
	checkSame(t, "UnmarshalNMDC to a used value", m, p.want, buf.Bytes())
	t.Ev("type-"+typ, 1)
	t.Seen(string(wire))
	t.Sample(func() string { return q(wire) })
}

// scaleBytes is a limit for sizes in a case.
func scaleBytes(r *mon.Rand) int {
	return mon.Pick(r, 3000, 20000, 70000, 70000, 70000, 300000)
}

// bigUnmarshal decodes a message of any size: the limit of lines is not a matter here.
func bigUnmarshal(r *mon.Rand, d *nmdc.TextDecoder, wire []byte) (nmdc.Message, error) {
	if len(wire) < 30000 && r.Bool() {
		return nmdc.Unmarshal(d, wire)
	}
	rd := nmdc.NewReader(gen.NewReader(r, wire))
	rd.SetMaxLine(0)
	if d != nil {
		rd.SetDecoder(d)
	}
	m, err := rd.ReadMsg()
	if err != nil {
		return nil, err
	}
	if m2, err := rd.ReadMsg(); err != io.EOF {
		return nil, fmt.Errorf("one message is expected, got %s, %v", dump(m2), err)
	}
	return m, nil
}

// c07Scale has messages with big texts and long lists.
func c07Scale(t *mon.T) {
	r := t.R
	g := scaleNGen(r, scaleBytes(r))
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	p := g.pick(typ)
	var wire []byte
	if r.Bool() {
		var err error
		if wire, err = nmdc.Marshal(nil, p.in); err != nil {
			t.Failf("marshal-error", "valid message cannot be encoded: %v: %s", err, dump(p.in))
		}
	} else {
		out := gen.NewWriter()
		w := nmdc.NewWriterSize(out, mon.Pick(r, bufSizes...))
		if err := w.WriteMsg(p.in); err != nil {
			t.Failf("marshal-error", "valid message cannot be encoded: %v: %s", err, dump(p.in))
		}
		if err := w.Close(); err != nil {
			t.Failf("marshal-error", "Close: %v", err)
		}
		wire = out.Bytes()
	}
	if bytes.Count(wire, []byte("|")) != 1 {
		t.Failf("framing", "message is not encoded as a single command: %s", q(wire))
	}
	got, err := bigUnmarshal(r, nil, wire)
	if err != nil {
		t.Failf("unmarshal-error", "encoded message cannot be decoded: %v: %s", err, q(wire))
	}
	checkSame(t, "a big message", got, p.want, wire)
	t.Ev("bytes", len(wire))
	if len(wire) > 1000 {
		t.Ev("big-"+typ, 1)
	}
	t.Seen(string(wire))
}

func c07Stream(t *mon.T) {
	r := t.R
	g := newNGen(r)
	out := gen.NewWriter()
	w := nmdc.NewWriterSize(out, mon.Pick(r, bufSizes...))
	var pairs []nPair
	n := 1 + r.Intn(60)
	zat := -1
	if r.P(1, 3) {
		zat = r.Intn(n)
	}
	batch := r.Bool()
	for i := 0; i < n; i++ {
		if i == zat {
			if err := w.ZOnLevel(r.Range(-2, 9)); err != nil {
				t.Failf("zon", "ZOnLevel: %v", err)
			}
			pairs = append(pairs, nPair{want: &nmdc.ZOn{}})
		}
		k := 1
		if batch {
			k = r.Intn(5)
		}
		var arr []nmdc.Message
		for j := 0; j < k; j++ {
			p := g.any()
			if _, ok := p.in.(*nmdc.ZOn); ok {
				continue
			}
			pairs = append(pairs, p)
			arr = append(arr, p.in)
		}
		if err := w.WriteMsg(arr...); err != nil {
			t.Failf("write", "WriteMsg: %v", err)
		}
		if r.P(1, 10) {
			if err := w.WriteKeepAlive(); err != nil {
				t.Failf("write", "WriteKeepAlive: %v", err)
			}
		}
		if r.P(1, 10) {
			if err := w.Flush(); err != nil {
				t.Failf("write", "Flush: %v", err)
			}
		}
	}
	if err := w.Close(); err != nil {
		t.Failf("write", "Close: %v", err)
	}
	tr := gen.NewReader(r, out.Bytes())
	rd := nmdc.NewReader(tr)
	rd.SetMaxLine(0)
	for i, p := range pairs {
		var (
			got nmdc.Message
			err error
		)
		switch r.Intn(5) {
		case 0:
			if raw, ok := p.want.(*nmdc.RawMessage); ok {
				got = &nmdc.RawMessage{Typ: raw.Typ}
			} else {
				got = nmdc.NewMessage(p.want.Type())
			}
			err = rd.ReadMsgTo(got)
		case 1:
			var m nmdc.Message = &nmdc.RawMessage{Typ: p.want.Type()}
			if _, ok := p.want.(*nmdc.RawMessage); !ok {
				m = nmdc.NewMessage(p.want.Type())
			}
			got, err = rd.ReadMsgToAny(m, &nmdc.RawMessage{Typ: "Unrelated"})
		default:
			got, err = rd.ReadMsg()
		}
		if err != nil {
			t.Failf("read-error", "message %d of %d: %v: expected %s", i, len(pairs), err, dump(p.want))
		}
		checkSame(t, fmt.Sprintf("message %d of %d", i, len(pairs)), got, p.want, nil)
		if _, ok := got.(*nmdc.ZOn); ok {
			if err := rd.EnableZlib(); err != nil {
				t.Failf("zlib", "EnableZlib: %v", err)
			}
		}
	}
	if m, err := rd.ReadMsg(); err != io.EOF {
		t.Failf("end", "after the last message: %s, %v", dump(m), err)
	}
	t.Ev("messages", len(pairs))
	t.Seen(fmt.Sprint(mon.HashStr(out.Buf.String()), tr.Plan))
	t.Sample(func() string { return fmt.Sprintf("%d messages, chunking %v: %s", len(pairs), tr.Plan, q(out.Bytes())) })
}

var c07Tok = []string{"a", " ", "$", "|", "&", "amp;", "#36;", "#124;", "lt;", "<", ">", "/", "?", "é"}

const c07Grid = 14 + 14*14 + 14*14*14 + 14*14*14*14

func tokenString(i int) string {
	n := len(c07Tok)
	l, c := 1, n
	for i >= c {
		i -= c
		c *= n
		l++
	}
	s := ""
	for ; l > 0; l-- {
		s += c07Tok[i%n]
		i /= n
	}
	return s
}

// c07Tokens enumerates short strings of tokens in text fields.
func c07Tokens(t *mon.T) {
	s := tokenString(t.Index)
	check := func(m nmdc.Message) {
		wire, err := nmdc.Marshal(nil, m)
		if err != nil {
			t.Failf("marshal-error", "%v: %s", err, dump(m))
		}
		got, err := nmdc.Unmarshal(nil, wire)
		if err != nil {
			t.Failf("unmarshal-error", "%v: %s", err, q(wire))
		}
		checkSame(t, "text "+s, got, m, wire)
	}
	check(&nmdc.ChatMessage{Name: "n", Text: s})
	if s[0] != '<' {
		check(&nmdc.ChatMessage{Text: s})
	}
	check(&nmdc.PrivateMessage{To: "to", From: "from", Name: "from", Text: s})
	check(&nmdc.MCTo{To: "to", From: "from", Text: s})
	check(&nmdc.HubTopic{Text: s})
	check(&nmdc.Search{User: "u", IsMaxSize: true, DataType: 1, Pattern: s})
	check(&nmdc.MyINFO{Name: "n", Desc: s, Conn: s, Email: s, Flag: 1})
	check(&nmdc.HubINFO{Name: s, Desc: s, Owner: s, State: s})
	if !bytes.ContainsAny([]byte(s), "/") {
		check(&nmdc.SR{From: "f", Path: []string{s, s}, HubName: s, HubAddress: "1.1.1.1"})
	}
	if !bytes.ContainsAny([]byte(s), "$") {
		check(&nmdc.Quit{Name: nmdc.Name(s)})
		check(&nmdc.ChatMessage{Name: s, Text: s})
		check(&nmdc.PrivateMessage{To: s, From: s, Name: s, Text: s})
		check(&nmdc.OpList{Names: nmdc.Names{s, s}})
		check(&nmdc.UserIP{List: []nmdc.UserAddress{{Name: s, IP: "1.1.1.1"}, {Name: s}}})
		if !bytes.ContainsAny([]byte(s), " ") {
			check(&nmdc.MyINFO{Name: s, Desc: s, Flag: 1})
			check(&nmdc.ConnectToMe{Targ: s, Src: s, Kind: nmdc.CTMPassiveReq, Address: "1.1.1.1:1"})
			check(&nmdc.RevConnectToMe{From: s, To: s})
			check(&nmdc.Search{User: s, IsMaxSize: true, DataType: 1, Pattern: s})
			check(&nmdc.SR{From: s, Path: []string{"p"}, HubName: s, HubAddress: "1.1.1.1", To: s})
			check(&nmdc.MCTo{To: s, From: s, Text: s})
		}
	}
	t.Seen(s)
}
