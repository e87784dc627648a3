package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c15() mon.Property {
	return mon.Property{
		ID: "C15",
		Rule: "exhaustive: all strings over {backslash, space, newline, s, n, a} up to 7 characters are escaped, checked for separators, compared with an independent escaper and unescaped. random: longer hostile strings. " +
			"inject: messages of all kinds with hostile text in all the text fields are written in packets of all kinds; an independent parser must see exactly one line with exactly the parameters of the message, and the reader one packet with the same message. every-field: line breaks, spaces, NULs and fake packets are put into all strings, byte slices and fixed size identifiers of a packet (SIDs, command names, tags, features, raw payloads); writing it to a Writer between two packets must refuse it or send a single line of the same kind, and leave its neighbours as they are. Non-trivial: text with a separator or a backslash; distinct by text or wire form.",
		Assume: []string{"a payload of a feature packet does not begin with a selector or a space", "path elements do not contain '/'"},
		Monitors: []mon.Monitor{
			{Name: "exhaustive", Quick: c15Count, Thorough: c15Count, Run: c15Exhaustive},
			{Name: "random", Quick: 400000, Thorough: 5000000, Run: func(t *mon.T) {
				s := adcText(t.R)
				if t.R.P(1, 4) {
					s += "\x00" + adcText(t.R)
				}
				if t.R.P(1, 50) {
					s = strings.Repeat(s, 1+t.R.Intn(300))
				}
				c15Escape(t, s)
			}},
			{Name: "scale", Quick: 20000, Thorough: 200000, Run: func(t *mon.T) {
				c15Escape(t, gen.ScaleText(t.R, gen.Scale(t.R, mon.Pick(t.R, 1000, 10000, 140000)), ""))
			}},
			{Name: "inject", Quick: 480000, Thorough: 5000000, Run: func(t *mon.T) { c15Inject(t, newAGen(t.R)) }},
			{Name: "every-field", Quick: 240000, Thorough: 3000000, Run: c15Every},
			{Name: "inject-scale", Quick: 5000, Thorough: 100000, Run: func(t *mon.T) { c15Inject(t, scaleAGen(t.R, scaleBytes(t.R))) }},
		},
	}
}

const (
	c15Alpha = "\\ \nsna"
	c15Count = 1 + 6 + 36 + 216 + 1296 + 7776 + 46656 + 279936
)

func c15Exhaustive(t *mon.T) {
	i, n, size := t.Index, 0, 1
	for i >= size {
		i -= size
		size *= len(c15Alpha)
		n++
	}
	b := make([]byte, n)
	for j := range b {
		b[j] = c15Alpha[i%len(c15Alpha)]
		i /= len(c15Alpha)
	}
	c15Escape(t, string(b))
}

func c15Escape(t *mon.T, s string) {
	var buf bytes.Buffer
	t.Eval(3)
	if err := adc.String(s).MarshalADC(&buf); err != nil {
		t.Failf("escape", "%q: %v", s, err)
	}
	e := buf.String()
	if strings.ContainsAny(e, " \n") {
		t.Failf("escape", "%q is escaped as %q with separators", s, e)
	}
	back, err := ref.ADCUnescape(e)
	if err != nil || back != s {
		t.Failf("escape", "%q is escaped as %q: unescaped independently: %q, %v", s, e, back, err)
	}
	var v adc.String
	in := []byte(e)
	if err = v.UnmarshalADC(in); err != nil || string(v) != s {
		t.Failf("unescape", "%q is unescaped as %q, %v; expected %q", e, string(v), err, s)
	}
	if string(in) != e {
		t.Failf("unescape", "unescaping changed the input")
	}
	// and through the reflective codec
	m := adc.GetInfoRequest{Type: s, Path: s + "x"}
	buf.Reset()
	if err := adc.Marshal(&buf, m); err != nil || buf.String() != e+" "+e+"x" {
		t.Failf("escape", "fields %q are encoded as %q, %v", s, buf.String(), err)
	}
	var m2 adc.GetInfoRequest
	if err := adc.Unmarshal(buf.Bytes(), &m2); err != nil || m2 != m {
		t.Failf("unescape", "%q is decoded as %q, %v", buf.String(), m2, err)
	}
	if strings.ContainsAny(s, "\\ \n") {
		t.Seen(s)
	}
}

// adcPacket makes a packet of a kind.
func adcPacket(g *aGen, kind byte, m adc.Message) adc.Packet {
	switch kind {
	case 'B':
		return &adc.BroadcastPacket{ID: g.sid(), Msg: m}
	case 'C':
		return &adc.ClientPacket{Msg: m}
	case 'D':
		return &adc.DirectPacket{ID: g.sid(), To: g.sid(), Msg: m}
	case 'E':
		return &adc.EchoPacket{ID: g.sid(), To: g.sid(), Msg: m}
	case 'F':
		p := &adc.FeaturePacket{ID: g.sid(), Msg: m}
		for i, n := 0, g.list(g.r.Intn(5)); i < n; i++ {
			f := g.fea()
			p.Sel = append(p.Sel, adc.FeatureSel{Fea: f, Sel: g.r.Bool()})
		}
		return p
	case 'H':
		return &adc.HubPacket{Msg: m}
	case 'I':
		return &adc.InfoPacket{Msg: m}
	case 'U':
		return &adc.UDPPacket{ID: adc.CID(g.hash()), Msg: m}
	}
	panic("kind")
}

const adcKinds = "BCDEFHIU"

// badFeaturePayload reports if the payload would be confused with selectors.
func badFeaturePayload(kind byte, payload string) bool {
	return kind == 'F' && payload != "" && strings.IndexByte("+- ", payload[0]) >= 0
}

func c15Inject(t *mon.T, g *aGen) {
	r := t.R
	nul := r.P(1, 10)
	if nul {
		g.text = func() string { return adcText(r) + mon.Pick(r, "", "\x00") + adcText(r) }
	}
	m := g.any()
	if badFeaturePayload('F', m.wire()) {
		return
	}
	kind := adcKinds[t.Index%len(adcKinds)]
	p := adcPacket(g, kind, m.m)
	var buf bytes.Buffer
	if err := p.MarshalPacketADC(&buf); err != nil {
		if nul {
			return
		}
		t.Failf("marshal", "%v: %s", err, dump(p))
	}
	wire := buf.String()
	t.Eval(3)
	if strings.Count(wire, "\n") != 1 || wire[len(wire)-1] != '\n' {
		t.Failf("line", "%s is written as %q", dump(p), wire)
	}
	hasNUL := strings.IndexByte(wire, 0) >= 0
	h, reason := ref.ADCParse(strings.Replace(wire, "\x00", "\x01", -1))
	if reason != "" {
		t.Failf("line", "%s is written as %q: %s", dump(p), wire, reason)
	}
	hw := packetHeader(p)
	payload := h.Payload
	h.Payload, h.Loose = "", false
	if dump(h) != dump(hw) {
		t.Failf("header", "%s is written as %q: header %s", dump(p), wire, dump(h))
	}
	// parameters
	var parts []string
	if payload != "" || len(m.pos) > 0 {
		parts = strings.Split(payload, " ")
	}
	if len(parts) != len(m.pos)+len(m.nam) {
		t.Failf("fields", "%d parameters, expected %q: %q", len(parts), m.wire(), wire)
	}
	if !m.any {
		for i, s := range append(append([]string{}, m.pos...), m.nam...) {
			if parts[i] != strings.Replace(s, "\x00", "\x01", -1) {
				t.Failf("fields", "parameter %d is %q, expected %q: %q", i, parts[i], s, wire)
			}
		}
	}
	// a receiver
	rd := adc.NewReader(gen.NewReader(r, []byte(wire+"IMSG end\n")))
	rd.SetMaxLine(0)
	rp, err := rd.ReadPacketRaw()
	if hasNUL {
		if err == nil {
			t.Failf("nul", "packet with NUL is accepted: %q", wire)
		}
	} else {
		if err != nil {
			t.Failf("read", "%v: %q", err, wire)
		}
		if dump(packetHeader(rp)) != dump(hw) {
			t.Failf("header", "%q is read as %s", wire, dump(rp))
		}
		dst := m.new()
		if err := adc.Unmarshal(rp.Message().(*adc.RawMessage).Data, dst); err != nil {
			t.Failf("read", "%v: %q", err, wire)
		}
		if got, want := dump(deref(dst)), dump(deref(m.m)); got != want {
			t.Failf("message", "%s is received as %s: %q", want, got, wire)
		}
	}
	if m, err := rd.ReadInfo(); err != nil || dump(m) != dump(adc.ChatMessage{Text: "end"}) {
		t.Failf("extra", "%s, %v after %q", dump(m), err, wire)
	}
	if _, err := rd.ReadPacket(); err != io.EOF {
		t.Failf("extra", "%v at the end of %q", err, wire)
	}
	t.Ev("packets", 1)
	if strings.Contains(wire, "\\") {
		t.Seen(wire)
	}
	t.Sample(func() string { return fmt.Sprintf("%q", wire) })
}

// everyADC calls fnc for each string, byte slice and fixed size identifier. It returns a changed copy of the value.
func everyADC(v reflect.Value, fnc func(s string, fixed bool) string) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	out.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(everyADC(v.Elem(), fnc))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(everyADC(v.Elem(), fnc))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(everyADC(v.Field(i), fnc))
			}
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Len() < 8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			reflect.Copy(out, reflect.ValueOf([]byte(fnc(string(b), true))))
		}
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			out.SetBytes([]byte(fnc(string(v.Bytes()), false)))
			break
		}
		out.Set(reflect.MakeSlice(v.Type(), 0, v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Set(reflect.Append(out, everyADC(v.Index(i), fnc)))
		}
	case reflect.Map:
		if v.IsNil() {
			break
		}
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(everyADC(k, fnc), everyADC(v.MapIndex(k), fnc))
		}
	case reflect.String:
		out.SetString(fnc(v.String(), false))
	}
	return out
}

// c15Every puts line breaks to any field of a packet.
func c15Every(t *mon.T) {
	r := t.R
	g := newAGen(r)
	kind := adcKinds[t.Index%len(adcKinds)]
	orig := adcPacket(g, kind, g.any().m)
	if r.P(1, 12) {
		orig = adcPacket(g, kind, g.raw())
	}
	rate := mon.Pick(r, 2, 4, 10)
	n := 0
	p := everyADC(reflect.ValueOf(orig), func(s string, fixed bool) string {
		if !r.P(1, rate) {
			return s
		}
		n++
		if fixed {
			b := []byte(s)
			b[r.Intn(len(b))] = mon.Pick[byte](r, '\n', '\n', ' ', 0, '\\', 's', 'I')
			return string(b)
		}
		i := r.Intn(len(s) + 1)
		return s[:i] + mon.Pick(r, "\n", "\n\n", "\nIMSG hi\n", "\nBMSG AAAB hi", "\x00", "\\\n", "\n\\", "\r\n", " ", "\\n", "\\s", "\\") + s[i:]
	}).Interface().(adc.Packet)
	out := gen.NewWriter()
	w := adc.NewWriterSize(out, mon.Pick(r, bufSizes...))
	const before, after = "IMSG before\n", "HMSG after\n"
	if err := w.WriteInfo(adc.ChatMessage{Text: "before"}); err != nil {
		t.Failf("writer", "a packet is refused: %v", err)
	}
	var err error
	if r.Bool() {
		err = w.WritePacket(p)
	} else {
		switch p := p.(type) {
		case *adc.BroadcastPacket:
			err = w.BroadcastStream(p.ID).WriteMessage(p.Msg)
		case *adc.ClientPacket:
			err = w.WriteClient(p.Msg)
		case *adc.DirectPacket:
			err = w.WriteDirect(p.ID, p.To, p.Msg)
		case *adc.EchoPacket:
			err = w.EchoStream(p.ID, p.To).WriteMessage(p.Msg)
		case *adc.FeaturePacket:
			err = w.FeatureStream(p.ID, p.Sel).WriteMessage(p.Msg)
		case *adc.HubPacket:
			err = w.WriteHub(p.Msg)
		case *adc.InfoPacket:
			err = w.InfoStream().WriteMessage(p.Msg)
		default:
			err = w.WritePacket(p)
		}
	}
	if err2 := w.WriteHub(adc.ChatMessage{Text: "after"}); err2 != nil {
		t.Failf("writer", "a packet is refused after %v: %v", err, err2)
	}
	if err := w.Close(); err != nil {
		t.Failf("writer", "Close: %v", err)
	}
	s := out.Buf.String()
	t.Eval(3)
	if !strings.HasPrefix(s, before) || !strings.HasSuffix(s[len(before):], after) {
		t.Failf("neighbours", "packets around %s are changed: %q", dump(p), s)
	}
	s = s[len(before) : len(s)-len(after)]
	if err != nil {
		t.Ev("refused", 1)
		if n == 0 {
			t.Failf("refused", "valid packet is refused: %v: %s", err, dump(p))
		}
		if s != "" {
			t.Failf("refused", "refused packet is sent as %q: %v: %s", s, err, dump(p))
		}
		t.Seen(fmt.Sprint(dump(p)))
		return
	}
	t.Ev("sent", 1)
	if strings.Count(s, "\n") != 1 || s[len(s)-1] != '\n' {
		t.Failf("breakout", "%s is sent as %d lines: %q", dump(p), strings.Count(s, "\n"), s)
	}
	if strings.IndexByte(s, 0) >= 0 {
		t.Failf("nul", "NUL is sent: %q for %s", s, dump(p))
	}
	if s[0] != kind {
		t.Failf("kind", "packet of a kind %c is sent as %q", kind, s)
	}
	t.Seen(s)
}
