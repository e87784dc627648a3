package props

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c14() mon.Property {
	return mon.Property{
		ID:     "C14",
		Rule:   "a random mixture of packets of all 8 kinds with known and raw messages is written through WritePacket, the helper of the kind, or several message streams open at the same time, with keep-alives, flushes and compression; the bytes are parsed by an independent header parser and read back with random chunking and read methods; kind, command, source, target, CID, selectors and payload must be those written. Non-trivial: every case; distinct by wire form.",
		Assume: []string{"raw payloads have no newline and NUL; a payload of a feature packet does not begin with a selector or a space; session ids are base32"},
		Monitors: []mon.Monitor{
			{Name: "mix", Quick: 24000, Thorough: 800000, Run: c14Mix},
			{Name: "mix-scale", Quick: 1000, Thorough: 40000, Run: func(t *mon.T) { c14MixWith(t, scaleAGen(t.R, scaleBytes(t.R))) }},
			{Name: "headers-scale", Quick: 3000, Thorough: 100000, Run: func(t *mon.T) { c14HeadersWith(t, scaleAGen(t.R, scaleBytes(t.R))) }},
			{Name: "headers", Quick: 120000, Thorough: 4000000, Run: c14Headers},
		},
	}
}

type c14Item struct {
	h       ref.ADCHeader
	payload string
	msg     adc.Message
	m       *aMsg // nil if raw
}

func c14Message(g *aGen, kind byte) (adc.Message, *aMsg, string) {
	for {
		if g.r.P(1, 3) {
			m := g.raw()
			if badFeaturePayload(kind, string(m.Data)) || bytes.IndexByte(m.Data, 0) >= 0 {
				continue
			}
			return m, nil, string(m.Data)
		}
		m := g.any()
		if badFeaturePayload('F', m.wire()) {
			continue
		}
		var buf bytes.Buffer
		if err := adc.Marshal(&buf, m.m); err != nil {
			panic(&mon.Failure{Sig: "marshal", Msg: fmt.Sprintf("%v: %s", err, dump(m.m))})
		}
		if m.any {
			// the order is not fixed
			return m.m, m, "*"
		}
		return m.m, m, buf.String()
	}
}

func (it *c14Item) check(t *mon.T, where string, h ref.ADCHeader, payload string) {
	t.Eval(1)
	if dump(h) != dump(it.h) {
		t.Failf("header", "%s: header %s, expected %s", where, dump(h), dump(it.h))
	}
	if it.m != nil && it.m.any {
		a, b := strings.Split(payload, " "), strings.Split(it.m.wire(), " ")
		if !sameSet(a, b) {
			t.Failf("payload", "%s: payload %q, expected %q", where, payload, it.m.wire())
		}
		return
	}
	if payload != it.payload {
		t.Failf("payload", "%s: payload %q, expected %q", where, payload, it.payload)
	}
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
		if n[s] < 0 {
			return false
		}
	}
	return true
}

func c14Mix(t *mon.T) { c14MixWith(t, newAGen(t.R)) }

func c14MixWith(t *mon.T, g *aGen) {
	r := t.R
	var buf bytes.Buffer
	w := adc.NewWriterSize(&buf, mon.Pick(r, 0, 0, 1, 16, 100, 4096))
	type strm struct {
		s adc.WriteStream
		h ref.ADCHeader
	}
	var streams []strm
	newStream := func() strm {
		a, b := g.sid(), g.sid()
		as, bs := string(a[:]), string(b[:])
		switch r.Intn(7) {
		case 0:
			return strm{w.HubStream(), ref.ADCHeader{Kind: 'H'}}
		case 1:
			return strm{w.InfoStream(), ref.ADCHeader{Kind: 'I'}}
		case 2:
			return strm{w.ClientStream(), ref.ADCHeader{Kind: 'C'}}
		case 3:
			return strm{w.BroadcastStream(a), ref.ADCHeader{Kind: 'B', From: as}}
		case 4:
			return strm{w.DirectStream(a, b), ref.ADCHeader{Kind: 'D', From: as, To: bs}}
		case 5:
			return strm{w.EchoStream(a, b), ref.ADCHeader{Kind: 'E', From: as, To: bs}}
		}
		h := ref.ADCHeader{Kind: 'F', From: as}
		sel := c14Sel(g, &h)
		return strm{w.FeatureStream(a, sel), h}
	}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		streams = append(streams, newStream())
	}
	must := func(err error) {
		if err != nil {
			t.Failf("write", "%v", err)
		}
	}
	var items []*c14Item
	zlib := false
	var cuts []int // items before which compression was switched
	for i, n := 0, 1+r.Intn(30); i < n; i++ {
		if r.P(1, 10) {
			must(w.WriteKeepAlive())
		}
		if r.P(1, 6) {
			must(w.Flush())
		}
		if r.P(1, 12) {
			if zlib {
				must(w.DisableZlib())
			} else {
				// announce, so the reader switches at this point
				it := &c14Item{msg: adc.ZOn{}, h: ref.ADCHeader{Kind: 'I', Cmd: "ZON"}}
				it.m = &aMsg{cmd: "ZON", m: it.msg, new: func() interface{} { return &adc.ZOn{} }}
				must(w.WriteInfo(it.msg))
				items = append(items, it)
				must(w.EnableZlib())
			}
			zlib = !zlib
			cuts = append(cuts, len(items))
		}
		it := &c14Item{}
		how := r.Intn(3)
		if how == 0 {
			s := streams[r.Intn(len(streams))]
			it.h = s.h
			it.msg, it.m, it.payload = c14Message(g, s.h.Kind)
			must(s.s.WriteMessage(it.msg))
			if r.P(1, 10) {
				must(s.s.Flush())
			}
		} else {
			kind := adcKinds[r.Intn(len(adcKinds))]
			it.msg, it.m, it.payload = c14Message(g, kind)
			p := adcPacket(g, kind, it.msg)
			it.h = c14Header(p)
			var err error
			if how == 1 {
				err = w.WritePacket(p)
			} else {
				switch p := p.(type) {
				case *adc.BroadcastPacket:
					err = w.WriteBroadcast(p.ID, p.Msg)
				case *adc.ClientPacket:
					err = w.WriteClient(p.Msg)
				case *adc.DirectPacket:
					err = w.WriteDirect(p.ID, p.To, p.Msg)
				case *adc.EchoPacket:
					err = w.WriteEcho(p.ID, p.To, p.Msg)
				case *adc.FeaturePacket:
					err = w.WriteFeature(p.ID, p.Sel, p.Msg)
				case *adc.HubPacket:
					err = w.WriteHub(p.Msg)
				case *adc.InfoPacket:
					err = w.WriteInfo(p.Msg)
				default:
					err = w.WritePacket(p)
				}
			}
			must(err)
		}
		it.h.Cmd = it.msg.Cmd().String()
		items = append(items, it)
	}
	if zlib {
		must(w.DisableZlib())
		cuts = append(cuts, len(items))
	}
	must(w.Flush())

	// an independent parser, if everything is plain
	if len(cuts) == 0 {
		var lines []string
		for _, l := range strings.SplitAfter(buf.String(), "\n") {
			if l != "" && l != "\n" {
				lines = append(lines, l)
			}
		}
		if len(lines) != len(items) {
			t.Failf("count", "%d lines for %d packets", len(lines), len(items))
		}
		for i, it := range items {
			h, reason := ref.ADCParse(lines[i])
			if reason != "" {
				t.Failf("wire", "packet %d %q: %s", i, lines[i], reason)
			}
			payload := h.Payload
			h.Payload, h.Loose = "", false
			it.check(t, fmt.Sprintf("wire packet %d %q", i, lines[i]), h, payload)
		}
	}
	rd := adc.NewReader(gen.NewReader(r, append([]byte{}, buf.Bytes()...)))
	rd.SetMaxLine(0)
	zlib = false
	for i := 0; ; i++ {
		for len(cuts) > 0 && cuts[0] == i {
			cuts = cuts[1:]
			if !zlib {
				must(rd.EnableZlib())
			}
			zlib = !zlib
		}
		if i == len(items) {
			break
		}
		it := items[i]
		where := fmt.Sprintf("packet %d (%s)", i, dump(it.msg))
		raw, ok := interface{}(nil), false
		var p adc.Packet
		var err error
		how := r.Intn(3)
		_, isRaw := it.msg.(*adc.RawMessage)
		if isRaw || it.m != nil && !it.m.registered() {
			how = 0
		}
		switch {
		case how == 0:
			p, err = rd.ReadPacketRaw()
		case how == 2 && it.h.Kind == 'I':
			var m adc.Message
			if m, err = rd.ReadInfo(); err == nil {
				p = &adc.InfoPacket{Msg: m}
			}
		case how == 2 && it.h.Kind == 'C':
			var m adc.Message
			if m, err = rd.ReadClient(); err == nil {
				p = &adc.ClientPacket{Msg: m}
			}
		default:
			how = 1
			p, err = rd.ReadPacket()
		}
		if err != nil {
			t.Failf("read", "%s: %v", where, err)
		}
		if how == 0 {
			raw, ok = p.Message().(*adc.RawMessage)
			if !ok {
				t.Failf("raw", "%s: %s", where, dump(p))
			}
			it.check(t, where, c14Header(p), string(raw.(*adc.RawMessage).Data))
			if it.m != nil && it.m.registered() {
				if err := p.DecodeMessage(); err != nil {
					t.Failf("decode", "%s: %v", where, err)
				}
			}
		} else {
			h := c14Header(p)
			if dump(h) != dump(it.h) {
				t.Failf("header", "%s: header %s, expected %s", where, dump(h), dump(it.h))
			}
		}
		if it.m != nil && it.m.registered() {
			if got, want := dump(deref(p.Message())), dump(deref(it.msg)); got != want {
				t.Failf("message", "%s: %s", where, got)
			}
		}
		t.Ev("kind-"+string(it.h.Kind), 1)
	}
	if p, err := rd.ReadPacketRaw(); err != io.EOF {
		t.Failf("extra", "%s, %v after all the packets", dump(p), err)
	}
	t.Seen(buf.String())
	t.Sample(func() string { return q(buf.Bytes()) })
}

func c14Header(p adc.Packet) ref.ADCHeader { return packetHeader(p) }

func c14Sel(g *aGen, h *ref.ADCHeader) []adc.FeatureSel {
	var sel []adc.FeatureSel
	for i, n := 0, g.list(g.r.Intn(5)); i < n; i++ {
		f := adc.FeatureSel{Fea: g.fea(), Sel: g.r.Bool()}
		sel = append(sel, f)
		if f.Sel {
			h.Sel = append(h.Sel, "+"+string(f.Fea[:]))
		} else {
			h.Sel = append(h.Sel, "-"+string(f.Fea[:]))
		}
	}
	return sel
}

// c14Headers checks a single packet with an arbitrary payload.
func c14Headers(t *mon.T) { c14HeadersWith(t, newAGen(t.R)) }

func c14HeadersWith(t *mon.T, g *aGen) {
	kind := adcKinds[t.Index%len(adcKinds)]
	m := g.raw()
	for badFeaturePayload(kind, string(m.Data)) || bytes.IndexByte(m.Data, 0) >= 0 {
		m = g.raw()
	}
	p := adcPacket(g, kind, m)
	var buf bytes.Buffer
	if err := p.MarshalPacketADC(&buf); err != nil {
		t.Failf("marshal", "%v: %s", err, dump(p))
	}
	wire := buf.String()
	t.Eval(2)
	h, reason := ref.ADCParse(wire)
	if reason != "" {
		t.Failf("wire", "%s is written as %q: %s", dump(p), wire, reason)
	}
	it := &c14Item{h: packetHeader(p), payload: string(m.Data)}
	payload := h.Payload
	h.Payload, h.Loose = "", false
	it.check(t, fmt.Sprintf("wire %q", wire), h, payload)
	p2, err := adc.DecodePacketRaw([]byte(wire))
	if err != nil {
		t.Failf("decode", "%v: %q", err, wire)
	}
	if dump(p2) != dump(p) {
		t.Failf("decode", "%s is decoded as %s: %q", dump(p), dump(p2), wire)
	}
	// replacing the message keeps the header
	m2 := &adc.RawMessage{Type: adc.MsgType{'Q', 'Q', 'Q'}, Data: []byte("x y")}
	p2.SetMessage(m2)
	hw := it.h
	hw.Cmd = "QQQ"
	if dump(packetHeader(p2)) != dump(hw) || p2.Message() != adc.Message(m2) {
		t.Failf("set", "header %s after SetMessage, expected %s", dump(packetHeader(p2)), dump(hw))
	}
	t.Seen(wire)
}
