package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c10() mon.Property {
	return mon.Property{
		ID: "C10",
		Rule: "packets: valid packets of all kinds mutated by cuts, bit flips, tokens and repetitions, and random bytes, are decoded; an independent parser of the routing header decides if they must be refused, and what the header and payload of accepted ones are. " +
			"stream: hostile lines with sentinels after each, random chunking, read methods and hooks. payload: hostile bytes decoded to each registered type and to callers' structs with all supported and unsupported field kinds; decoded values are encoded, printed and copied. " +
			"tokens: all strings of up to 2 tokens for each type; prefixes: each prefix and suffix of valid packets. Non-trivial: every case; distinct by input bytes.",
		Assume: []string{"the border between feature selectors and a payload that is not separated by exactly one space may be seen either way"},
		Monitors: []mon.Monitor{
			{Name: "packets", Quick: 450000, Thorough: 10000000, Run: c10Packets},
			{Name: "stream", Quick: 27000, Thorough: 500000, Run: c10Stream},
			{Name: "payload", Quick: 300000, Thorough: 8000000, Run: c10Payload},
			{Name: "tokens", Quick: c10Tokens(), Thorough: c10Tokens() + 500000, Run: c10Token},
			{Name: "prefixes", Quick: 9000, Thorough: 200000, Run: c10Prefixes},
		},
	}
}

var adcTokens = []string{
	" ", "  ", "\n", "\\", "\\s", "\\n", "\\\\", "\x00", "\xff", "\xc3", "é", "AAAA", "BBBB", "+", "-", "+TCP4", "-NAT0", "+TC", "ADTCP4", "RMBASE", "AD", "RM", "ADxx", "TCP4,UDP4", ",", "/", "a/b", "//",
	"NI", "NIname", "ID", "PD", "SS", "SS1", "SS1.5", "SS1e3", "SS-1", "SS+1", "SSx", "SS99999999999999999999", "SS9223372036854775808", "SS1e999999999", "SS0x10", "SSInf", "SSNaN", "SS1_000", "SS 1", "CT", "CTx", "SU", "SUTCP4", "SUx", "SF1", "SF99999999999",
	"TR", "TRAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "TRAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "TRaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA1", "========",
	"PM", "PMAAAA", "PMA", "ME", "ME1", "ME0", "ME2", "ME11", "TS", "TS1", "TO", "ANx", "AN", "GR1", "TY1", "HH2", "HH1", "HH", "000", "151", "99999999999999999999", "-1", "1.0", "0", "1", "file", "ZL1", "ZL2", "TT", "INF", "MSG", "BINF AAAA ", "\r",
}

// adcLine makes arbitrary bytes that resemble a packet.
func adcHostile(r *mon.Rand) []byte {
	g := newAGen(r)
	if r.P(1, 150) {
		g = scaleAGen(r, 25000)
	}
	switch r.Intn(8) {
	case 0:
		return r.Bytes(gen.Size(r, 300))
	case 1:
		var sb strings.Builder
		for i, n := 0, gen.Count(r, 12); i < n; i++ {
			sb.WriteString(mon.Pick(r, adcTokens...))
		}
		return []byte(sb.String())
	case 2, 3:
		// a header with tokens
		var sb strings.Builder
		sb.WriteByte("BCDEFHIUBCDEFHIUbX \n"[r.Intn(20)])
		sb.WriteString(mon.Pick(r, "INF", "MSG", "SCH", "STA", "CTM", "QUI", "GET", "SUP", "GPA", "PAS", "CMD", "SID", "ZZZ", "In", ""))
		sb.WriteString(mon.Pick(r, " ", " ", " ", " ", "", "x", "\n"))
		for i, n := 0, gen.Count(r, 8); i < n; i++ {
			sb.WriteString(mon.Pick(r, adcTokens...))
			if r.P(2, 3) {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(mon.Pick(r, "\n", "\n", "\n", ""))
		return []byte(sb.String())
	}
	var m adc.Message = g.raw()
	if r.P(3, 4) {
		m = g.any().m
	}
	p := adcPacket(g, adcKinds[r.Intn(len(adcKinds))], m)
	var buf bytes.Buffer
	if err := p.MarshalPacketADC(&buf); err != nil {
		return []byte("IMSG x\n")
	}
	b := mutate(r, buf.Bytes(), adcTokens)
	if r.P(2, 3) && (len(b) == 0 || b[len(b)-1] != '\n') {
		b = append(b, '\n')
	}
	return b
}

// useADC exercises a decoded value: none of it may panic.
func useADC(t *mon.T, v interface{}) {
	_ = dump(v)
	if m, ok := v.(adc.Message); ok {
		_ = m.Cmd()
		var buf bytes.Buffer
		_ = adc.Marshal(&buf, m)
		_ = (&adc.InfoPacket{Msg: m}).MarshalPacketADC(&buf)
	}
	switch v := v.(type) {
	case adc.Status:
		if err := v.Err(); err != nil {
			_ = err.Error()
		}
		_ = v.Recoverable()
	case adc.UserInfo:
		v.Normalize()
		_ = v.Features.Has(adc.FeaTCP4)
	case adc.Supported:
		_ = v.Features.Join()
		_ = v.Features.Clone().SetFrom(v.Features).Intersect(v.Features)
	case adc.SearchRequest:
		_ = v.Group.Matches("x.mp3")
	}
}

// adcTargets are types for payloads; the first ones are registered.
var adcTargets = []func() interface{}{
	func() interface{} { return &adc.ChatMessage{} }, func() interface{} { return &adc.RevConnectRequest{} }, func() interface{} { return &adc.ConnectRequest{} },
	func() interface{} { return &adc.GetInfoRequest{} }, func() interface{} { return &adc.UserCommand{} }, func() interface{} { return &adc.Password{} },
	func() interface{} { return &adc.Disconnect{} }, func() interface{} { return &adc.SearchRequest{} }, func() interface{} { return &adc.SearchResult{} },
	func() interface{} { return &adc.UserInfo{} }, func() interface{} { return &adc.Supported{} }, func() interface{} { return &adc.Status{} },
	func() interface{} { return &adc.ZOn{} }, func() interface{} { return &adc.ZOff{} }, func() interface{} { return &adc.SIDAssign{} },
	func() interface{} { return &adc.GetPassword{} }, func() interface{} { return &adc.GetRequest{} }, func() interface{} { return &adc.GetResponse{} },
	func() interface{} { return &adc.HubInfo{} }, func() interface{} { return &adc.UserInfoMod{} }, func() interface{} { return &adc.Fields{} },
	func() interface{} { return &adc.RawMessage{} }, func() interface{} { return &aCustom{} }, func() interface{} { return &aCustom2{} }, func() interface{} { return &aCustom3{} },
	func() interface{} { return &adc.ModFeatures{} }, func() interface{} { return &adc.ExtFeatures{} }, func() interface{} { return new(adc.Path) }, func() interface{} { return new(adc.String) },
	func() interface{} { return new(adc.BoolInt) }, func() interface{} { return new(adc.Feature) }, func() interface{} { return new(adc.SID) }, func() interface{} { return new(adc.CID) }, func() interface{} { return new(tiger.Hash) },
	func() interface{} { return aCustom{} }, func() interface{} { return new(int) }, func() interface{} { return new(string) }, func() interface{} { return &[]string{} }, func() interface{} { return &map[string]string{} }, func() interface{} { return &struct{}{} },
}

// aCustom2 has positional parameters of all kinds.
type aCustom2 struct {
	A adc.Path        `adc:"#"`
	B adc.ExtFeatures `adc:"#"`
	C tiger.Hash      `adc:"#"`
	D *adc.SID        `adc:"#"`
	E int16           `adc:"#"`
	F adc.ModFeatures `adc:"SU"`
	G []*tiger.Hash   `adc:"TR"`
	H []adc.BoolInt   `adc:"HH"`
	I **int           `adc:"SS"`
	J []*string       `adc:"NI"`
}

// aCustom3 has kinds that may be refused.
type aCustom3 struct {
	A uint32            `adc:"SS"`
	B float64           `adc:"SF"`
	C []byte            `adc:"NI"`
	D map[string]string `adc:"TO"`
	E struct{ A int }   `adc:"PM"`
	F [][]string        `adc:"AN"`
	G interface{}       `adc:"CT"`
	H func()            `adc:"ID"`
	I int8              `adc:"TS"`
	J [2]int            `adc:"SU"`
}

func decodeADC(t *mon.T, i int, data []byte) {
	p := adcTargets[i]()
	orig := string(data)
	t.Eval(1)
	err := adc.Unmarshal(data, p)
	if string(data) != orig {
		t.Failf("modified", "decoding to %T changed its input %q to %q", p, orig, data)
	}
	if err != nil {
		_ = err.Error()
		t.Ev("payload-error", 1)
		return
	}
	t.Ev("payload-ok", 1)
	if reflect.ValueOf(p).Kind() == reflect.Ptr {
		useADC(t, deref(p))
		useADC(t, p)
	} else {
		t.Failf("value", "%T that is not a pointer is accepted", p)
	}
}

func c10Payload(t *mon.T) {
	r := t.R
	i := t.Index % len(adcTargets)
	var data []byte
	switch r.Intn(4) {
	case 0:
		data = adcHostile(r)
		if len(data) > 5 && r.Bool() {
			data = data[5:]
		}
	case 1:
		for i, n := 0, r.Intn(10); i < n; i++ {
			data = append(data, mon.Pick(r, adcTokens...)...)
			if r.Bool() {
				data = append(data, ' ')
			}
		}
	default:
		var buf bytes.Buffer
		if adc.Marshal(&buf, newAGen(r).pick(i).m) == nil {
			data = mutate(r, buf.Bytes(), adcTokens)
		}
	}
	decodeADC(t, i, data)
	var typ adc.MsgType
	copy(typ[:], mon.Pick(r, "MSG", "INF", "SUP", "XXX", "STA", "GET", "RES", "SCH"))
	if m, err := adc.UnmarshalMessage(typ, data); err == nil {
		useADC(t, m)
	}
	t.Seen(fmt.Sprint(i, ":", string(data)))
	t.Sample(func() string { return fmt.Sprintf("%T: %q", adcTargets[i](), data) })
}

func c10Tokens() int { n := len(adcTokens); return 1 + n + n*n }

func c10Token(t *mon.T) {
	i, n := t.Index, len(adcTokens)
	var s string
	switch {
	case i == 0:
	case i <= n:
		s = adcTokens[i-1]
	case i <= n+n*n:
		i -= n + 1
		s = adcTokens[i%n] + mon.Pick(t.R, "", " ") + adcTokens[i/n]
	default:
		for j := 0; j < 4; j++ {
			s += mon.Pick(t.R, adcTokens...)
		}
	}
	for i := range adcTargets {
		decodeADC(t, i, []byte(s))
	}
	// as a packet
	for _, k := range adcKinds {
		c10Packet(t, []byte(string(k)+"MSG "+s+"\n"))
	}
	t.Seen(s)
}

func c10Prefixes(t *mon.T) {
	r := t.R
	g := newAGen(r)
	p := adcPacket(g, adcKinds[t.Index%len(adcKinds)], g.any().m)
	var buf bytes.Buffer
	if err := p.MarshalPacketADC(&buf); err != nil {
		return
	}
	b := buf.Bytes()
	if len(b) > 300 {
		b = append(b[:299:299], '\n')
	}
	for i := 0; i <= len(b); i++ {
		// exact capacity, so reading past the end is noticed
		c10Packet(t, append([]byte{}, b[:i]...)[:i:i])
		c10Packet(t, append(append([]byte{}, b[:i]...), '\n'))
		c10Packet(t, append([]byte{}, b[i:]...))
	}
	t.Seen(string(b))
}

// sameHeader compares a decoded packet with what the independent parser sees.
func sameHeader(t *mon.T, line []byte, h ref.ADCHeader, p adc.Packet) {
	got, want := packetHeader(p), h
	want.Payload, want.Loose = "", false
	if h.CID != "" {
		// the last character of a CID may have unused bits
		if len(got.CID) != 39 || got.CID[:38] != h.CID[:38] {
			t.Failf("header", "%q has a CID %q", line, got.CID)
		}
		want.CID = got.CID
	}
	if dump(got) != dump(want) {
		t.Failf("header", "%q is decoded with a header %s, expected %s", line, dump(got), dump(want))
	}
	if raw, ok := p.Message().(*adc.RawMessage); ok && !h.Loose {
		if string(raw.Data) != h.Payload {
			t.Failf("payload", "%q is decoded with a payload %q, expected %q", line, raw.Data, h.Payload)
		}
	}
}

// c10Packet decodes a packet. It returns if it must be refused, and if it was.
func c10Packet(t *mon.T, line []byte) (string, bool) {
	h, reason := ref.ADCParse(string(line))
	orig := string(line)
	t.Eval(1)
	p, err := adc.DecodePacketRaw(line)
	if reason != "" {
		t.Ev("refused-"+reason, 1)
		if err == nil {
			t.Failf("framing", "accepted in spite of %s: %q: %s", reason, line, dump(p))
		}
	} else if err != nil {
		// all that is well-formed can be accepted, but it's not a part of this property for odd lines
		t.Ev("error", 1)
	}
	if err == nil {
		t.Ev("accepted", 1)
		sameHeader(t, line, h, p)
		var buf bytes.Buffer
		_ = p.MarshalPacketADC(&buf)
		for _, f := range adcTargets[:25] {
			if m, ok := f().(adc.Message); ok && t.R.P(1, 5) {
				if p.DecodeMessageTo(m) == nil {
					if h.Cmd != m.Cmd().String() {
						t.Failf("command", "%q is decoded to %T", line, m)
					}
					useADC(t, m)
				}
			}
		}
	}
	p, err2 := adc.DecodePacket(line)
	if err2 == nil {
		if err != nil {
			t.Failf("differ", "DecodePacket accepts %q: %s, but not DecodePacketRaw: %v", line, dump(p), err)
		}
		if reason != "" {
			t.Failf("framing", "accepted in spite of %s: %q: %s", reason, line, dump(p))
		}
		t.Ev("decoded", 1)
		sameHeader(t, line, h, p)
		useADC(t, p.Message())
		var buf bytes.Buffer
		_ = p.MarshalPacketADC(&buf)
	} else {
		_ = err2.Error()
	}
	if string(line) != orig {
		t.Failf("modified", "decoding changed its input %q to %q", orig, line)
	}
	return reason, err2 != nil
}

func c10Packets(t *mon.T) {
	line := adcHostile(t.R)
	c10Packet(t, line)
	t.Seen(string(line))
	t.Sample(func() string { return fmt.Sprintf("%q", line) })
}

func c10Stream(t *mon.T) {
	r := t.R
	var stream []byte
	type item struct {
		line     string
		sentinel string
	}
	var items []item
	keep := 0
	for i, n := 0, 1+r.Intn(12); i < n; i++ {
		h := append(adcHostile(r), '\n')
		for _, s := range strings.SplitAfter(string(h), "\n") {
			switch s {
			case "":
			case "\n":
				keep++
			default:
				items = append(items, item{line: s})
			}
		}
		stream = append(stream, h...)
		s := fmt.Sprintf("s%dx", i)
		l := mon.Pick(r, "I", "C") + "MSG " + s + "\n"
		stream = append(stream, l...)
		items = append(items, item{line: l, sentinel: s})
	}
	tail := ""
	if r.Bool() {
		tail = mon.Pick(r, "IMSG x", "I", "BINF AAAA NIx", "\x00")
		stream = append(stream, tail...)
	}
	rd := adc.NewReader(gen.NewReader(r, stream))
	rd.SetMaxLine(0)
	gotKeep := 0
	hasKeep := r.Bool()
	if hasKeep {
		rd.OnKeepAlive = func() error { gotKeep++; return nil }
	}
	if r.P(1, 4) {
		rd.SetMaxLine(mon.Pick(r, 0, -1, 1<<20))
	}
	for i, it := range items {
		h, reason := ref.ADCParse(it.line)
		var p adc.Packet
		var err error
		how := r.Intn(4)
		switch how {
		case 0:
			p, err = rd.ReadPacket()
		case 1:
			p, err = rd.ReadPacketRaw()
			if err == nil {
				sameHeader(t, []byte(it.line), h, p)
				if err2 := p.DecodeMessage(); err2 != nil {
					err = err2
				}
			}
		case 2:
			var m adc.Message
			if m, err = rd.ReadInfo(); err == nil {
				if h.Kind != 'I' {
					t.Failf("kind", "%q is read as an info message %s", it.line, dump(m))
				}
				p = &adc.InfoPacket{Msg: m}
			} else if h.Kind == 'C' && it.sentinel != "" {
				continue
			}
		case 3:
			var m adc.Message
			if m, err = rd.ReadClient(); err == nil {
				if h.Kind != 'C' {
					t.Failf("kind", "%q is read as a client message %s", it.line, dump(m))
				}
				p = &adc.ClientPacket{Msg: m}
			} else if h.Kind == 'I' && it.sentinel != "" {
				continue
			}
		}
		t.Eval(1)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			t.Failf("early-end", "%v before %q: %s", err, it.line, q(stream))
		}
		if err != nil {
			_ = err.Error()
			t.Ev("stream-error", 1)
			if it.sentinel != "" {
				t.Failf("disturbed", "valid packet %q after %q cannot be read: %v: %s", it.line, items[max0(i-1)].line, err, q(stream))
			}
			continue
		}
		if reason != "" {
			t.Failf("framing", "accepted in spite of %s: %q: %s", reason, it.line, dump(p))
		}
		sameHeader(t, []byte(it.line), h, p)
		if it.sentinel != "" {
			if got, want := dump(p.Message()), dump(adc.ChatMessage{Text: it.sentinel}); got != want {
				t.Failf("disturbed", "expected %s, got %s: %s", want, got, q(stream))
			}
		}
		t.Ev("stream-ok", 1)
		useADC(t, p.Message())
	}
	for k := 0; k < 3; k++ {
		p, err := rd.ReadPacket()
		if err == nil {
			t.Failf("phantom", "packet after the end of data (tail %q): %s: %s", tail, dump(p), q(stream))
		}
		if tail == "" && err != io.EOF {
			t.Failf("end", "clean end is reported as %v", err)
		}
		if tail != "" && k == 0 && errors.Is(err, io.EOF) && err == io.EOF {
			t.Ev("tail-eof", 1)
		}
	}
	if hasKeep && gotKeep != keep {
		t.Failf("keep-alive", "%d keep-alives, expected %d: %s", gotKeep, keep, q(stream))
	}
	t.Seen(string(stream))
	t.Sample(func() string { return q(stream) })
}
