package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c19() mon.Property {
	return mon.Property{
		ID: "C19",
		Rule: "nmdc: a stream of valid messages of all registered types, unknown commands (near-misses of registered names, arbitrary names) and chat is read with a random mixture of untyped, typed and any-of reads (with and without wildcard raw messages); a table of documented commands decides which Go type, which destination or which error each read gives, and that reads consume exactly one message. " +
			"adc: the same for packets, UnmarshalMessage and decoding into given types. registry: registry queries against the table, for registered, near-miss and random names, and after registering new types. Non-trivial: every case; distinct by stream.",
		Assume: []string{"command names of letters and digits; a raw message given for a typed read has a type name", "if a wildcard precedes the matching destination either may be used"},
		Monitors: []mon.Monitor{
			{Name: "nmdc", Quick: 100000, Thorough: 2000000, Run: c19NMDC},
			{Name: "adc", Quick: 300000, Thorough: 4000000, Run: c19ADC},
			{Name: "registry", Quick: 100000, Thorough: 1000000, Run: c19Registry},
		},
	}
}

// types registered by a caller
type callerNMDC struct{ nmdc.Name }

func (*callerNMDC) Type() string { return "VerifCmd" }

var c19Once sync.Once

// c19Setup registers a type in each protocol.
func c19Setup(t *mon.T) {
	c19Once.Do(func() {
		nmdc.RegisterMessage(&callerNMDC{})
		adc.RegisterMessage(aCustom{})
		for _, f := range []func(){
			func() { nmdc.RegisterMessage(&callerNMDC{}) },
			func() { nmdc.RegisterMessage(&nmdc.Hello{}) },
			func() { nmdc.RegisterMessage(&nmdc.RawMessage{Typ: "Search"}) },
			func() { adc.RegisterMessage(&aCustom{}) },
			func() { adc.RegisterMessage(&adc.HubInfo{}) },
			func() { adc.RegisterMessage(&adc.RawMessage{Type: adc.MsgType{'M', 'S', 'G'}}) },
		} {
			func() {
				defer func() {
					if recover() == nil {
						t.Failf("registry", "a command can be registered twice")
					}
				}()
				f()
			}()
		}
	})
}

// nmdcGoTypes is a Go type of each command.
var nmdcGoTypes = func() map[string]string {
	out := map[string]string{"VerifCmd": "*props.callerNMDC"}
	for _, typ := range nmdcTypes {
		out[typ] = fmt.Sprintf("%T", newNGen(mon.NewRand(1)).pick(typ).in)
	}
	return out
}()

func nearMiss(r *mon.Rand, s string) string {
	switch r.Intn(7) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s + "x"
	case 3:
		return "x" + s
	case 4:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 5:
		if len(s) > 1 {
			return s[1:]
		}
	}
	return s + s
}

type c19Msg struct {
	typ     string
	payload string
	want    nmdc.Message // as decoded to a registered type; or raw
}

func c19Make(t *mon.T, g *nGen) c19Msg {
	r := g.r
	if r.P(1, 4) {
		// unknown
		for {
			name := nearMiss(r, mon.Pick(r, "Hello", "MyINFO", "Search", "SR", "To:", "Supports", "OpList", "Key", "Lock", "HubName", "VerifCmd"))
			if r.Bool() {
				name = mon.Pick(r, "Foo", "x", "A1", "ZPipe0", "Capabilities", "a/b", "snake_case", "v1.2", "x-y", "_", "azAZ09/-_.:", "12345678901234567890123456789012")
			}
			if _, ok := nmdcGoTypes[name]; ok || len(name) > 32 || !plainName(name) {
				continue
			}
			payload := strings.Replace(gen.Text(r, 100, ""), "|", "", -1)
			if r.P(1, 4) {
				payload += mon.Pick(r, " ", "\xff", "&#124;", "  x")
			}
			return c19Msg{typ: name, payload: payload, want: &nmdc.RawMessage{Typ: name, Data: []byte(payload)}}
		}
	}
	if r.P(1, 20) {
		m := &callerNMDC{Name: nmdc.Name(g.name(true))}
		return c19Msg{typ: "VerifCmd", want: m, payload: c19Payload(t, m)}
	}
	typ := nmdcTypes[r.Intn(len(nmdcTypes))]
	if r.P(1, 4) {
		typ = ""
	}
	for {
		p := g.pick(typ)
		s := c19Payload(t, p.in)
		if typ == "" && s == "" {
			continue
		}
		return c19Msg{typ: typ, payload: s, want: p.want}
	}
}

func c19Payload(t *mon.T, m nmdc.Message) string {
	var buf bytes.Buffer
	if err := m.MarshalNMDC(nil, &buf); err != nil {
		t.Failf("marshal", "%v: %s", err, dump(m))
	}
	return buf.String()
}

func c19NMDC(t *mon.T) {
	c19Setup(t)
	r := t.R
	g := newNGen(r)
	var items []c19Msg
	var stream []byte
	for i, n := 0, 1+gen.Count(r, 8); i < n; i++ {
		it := c19Make(t, g)
		if it.typ != "" {
			stream = append(stream, "$"+it.typ...)
			if it.payload != "" || r.Bool() {
				stream = append(stream, ' ')
			}
		}
		stream = append(append(stream, it.payload...), '|')
		if r.P(1, 8) {
			stream = append(stream, '|')
		}
		items = append(items, it)
	}
	rd := nmdc.NewReader(gen.NewReader(r, stream))
	cur := ""
	unexpected := func(err error, it c19Msg, exp ...string) {
		e, ok := err.(*nmdc.ErrUnexpectedCommand)
		if !ok {
			t.Failf("unexpected", "%s: wrong type must be reported, got %v", cur, err)
		}
		if e.Received == nil || e.Received.Typ != it.typ {
			t.Failf("unexpected", "%s: reported as received: %s", cur, dump(e.Received))
		}
		if string(e.Received.Data) != it.payload {
			t.Failf("unexpected-content", "%s: reported as received: %s", cur, dump(e.Received))
		}
		for _, s := range exp {
			if e.Expected == s {
				t.Ev("unexpected", 1)
				_ = e.Error()
				return
			}
		}
		t.Failf("unexpected", "%s: reported as expected: %q", cur, e.Expected)
	}
	raw := func(m nmdc.Message, it c19Msg) {
		rm, ok := m.(*nmdc.RawMessage)
		if !ok || rm.Typ != it.typ || string(rm.Data) != it.payload {
			t.Failf("raw", "%s: raw message is %s", cur, dump(m))
		}
		t.Ev("raw", 1)
	}
	full := func(m nmdc.Message, it c19Msg) {
		if dump(m) != dump(it.want) {
			t.Failf("content", "%s: got %s, expected %s", cur, dump(m), dump(it.want))
		}
		t.Ev("typed", 1)
	}
	fresh := func(typ string) nmdc.Message {
		switch {
		case typ == "":
			return &nmdc.ChatMessage{}
		case typ == "VerifCmd":
			return &callerNMDC{}
		case nmdcGoTypes[typ] != "":
			return nmdc.NewMessage(typ)
		}
		return &nmdc.RawMessage{Typ: typ}
	}
	for i, it := range items {
		cur = fmt.Sprintf("message %d %q", i, "$"+it.typ+" "+it.payload)
		t.Eval(1)
		switch r.Intn(3) {
		case 0:
			m, err := rd.ReadMsg()
			if err != nil {
				t.Failf("read", "%s: %v", cur, err)
			}
			typ, ok := nmdcGoTypes[it.typ]
			if !ok {
				raw(m, it)
				continue
			}
			if got := fmt.Sprintf("%T", m); got != typ || m.Type() != it.typ {
				t.Failf("type", "%s is decoded to %s (%q), expected %s", cur, got, m.Type(), typ)
			}
			full(m, it)
		case 1:
			typ := it.typ
			if r.P(1, 3) {
				typ = items[r.Intn(len(items))].typ
			} else if r.P(1, 4) {
				typ = mon.Pick(r, "", "Foo", "Hello", nmdcTypes[r.Intn(len(nmdcTypes))])
			}
			if r.P(1, 12) {
				// a raw message without a name: either refused, or filled completely
				m := &nmdc.RawMessage{}
				if err := rd.ReadMsgTo(m); err != nil {
					unexpected(err, it, "")
				} else {
					raw(m, it)
				}
				continue
			}
			m := fresh(typ)
			err := rd.ReadMsgTo(m)
			if typ != it.typ {
				unexpected(err, it, typ)
				continue
			}
			if err != nil {
				t.Failf("read", "%s to %T: %v", cur, m, err)
			}
			full(m, it)
		case 2:
			var arr []nmdc.Message
			var names []string
			has := map[string]int{}
			wild := -1
			for j, n := 0, 1+gen.Count(r, 4); j < n; j++ {
				typ := mon.Pick(r, it.typ, items[r.Intn(len(items))].typ, "", "Foo", nmdcTypes[r.Intn(len(nmdcTypes))])
				if wild < 0 && r.P(1, 6) {
					wild = len(arr)
					arr, names = append(arr, &nmdc.RawMessage{}), append(names, "")
					continue
				}
				if _, ok := has[typ]; ok {
					continue
				}
				has[typ] = len(arr)
				arr, names = append(arr, fresh(typ)), append(names, typ)
			}
			if len(arr) == 0 {
				arr, names = append(arr, &nmdc.RawMessage{}), append(names, "")
				wild = 0
			}
			m, err := rd.ReadMsgToAny(arr...)
			k, ok := has[it.typ]
			if !ok && wild < 0 {
				unexpected(err, it, names...)
				continue
			}
			if err != nil {
				t.Failf("read", "%s to any of %s: %v", cur, dump(arr), err)
			}
			idx := -1
			for j := range arr {
				if arr[j] == m {
					idx = j
				}
			}
			switch {
			case idx < 0:
				t.Failf("any", "%s: returned %s is not one of the given", cur, dump(m))
			case ok && idx == k:
				full(m, it)
			case idx == wild && (!ok || wild < k):
				raw(m, it)
			default:
				t.Failf("any", "%s is decoded to the destination %d of %s", cur, idx, dump(arr))
			}
			// others are not touched
			for j := range arr {
				if j != idx && j != wild && dump(arr[j]) != dump(fresh(names[j])) {
					t.Failf("any", "%s: other destination is changed: %s", cur, dump(arr[j]))
				}
			}
		}
	}
	if m, err := rd.ReadMsg(); err != io.EOF {
		t.Failf("extra", "%s, %v after all the messages: %s", dump(m), err, q(stream))
	}
	t.Seen(string(stream))
	t.Sample(func() string { return q(stream) })
}

// adcGoTypes is a Go type of each command.
var adcGoTypes = map[string]string{
	"SUP": "adc.Supported", "STA": "adc.Status", "ZON": "adc.ZOn", "ZOF": "adc.ZOff", "SID": "adc.SIDAssign", "CMD": "adc.UserCommand", "GPA": "adc.GetPassword", "PAS": "adc.Password", "QUI": "adc.Disconnect",
	"GFI": "adc.GetInfoRequest", "GET": "adc.GetRequest", "SND": "adc.GetResponse", "SCH": "adc.SearchRequest", "RES": "adc.SearchResult", "INF": "adc.UserInfo", "MSG": "adc.ChatMessage", "RCM": "adc.RevConnectRequest", "CTM": "adc.ConnectRequest",
	"XYZ": "props.aCustom",
}

func c19ADC(t *mon.T) {
	c19Setup(t)
	r := t.R
	g := newAGen(r)
	kind := adcKinds[t.Index%len(adcKinds)]
	m := g.any()
	var (
		cmd     = m.cmd
		payload string
		want    string
	)
	unknown := r.P(1, 4)
	if unknown {
		cmd = mon.Pick(r, "ABC", "msg", "inf", "Inf", "MSh", "SUQ", "ZOO", "NAT", "123", "XYz")
		raw := g.raw()
		for badFeaturePayload(kind, string(raw.Data)) || bytes.IndexByte(raw.Data, 0) >= 0 {
			raw = g.raw()
		}
		payload = string(raw.Data)
	} else {
		payload = m.wire()
		if badFeaturePayload(kind, payload) {
			return
		}
		want = dump(deref(m.m))
	}
	var typ adc.MsgType
	copy(typ[:], cmd)
	goType, known := adcGoTypes[cmd]
	if !known {
		goType = "*adc.RawMessage"
	}
	check := func(where string, got adc.Message) {
		t.Eval(1)
		where = fmt.Sprintf("%s %s %q", where, cmd, payload)
		if s := fmt.Sprintf("%T", got); s != goType && s != "*"+goType {
			t.Failf("type", "%s is decoded to %s, expected %s", where, s, goType)
		}
		if got.Cmd() != typ {
			t.Failf("type", "%s is decoded to %s", where, got.Cmd())
		}
		if raw, ok := got.(*adc.RawMessage); ok {
			if string(raw.Data) != payload {
				t.Failf("raw", "%s has payload %q", where, raw.Data)
			}
			t.Ev("raw", 1)
			return
		}
		if unknown || fmt.Sprintf("%T", deref(m.m)) != goType {
			return
		}
		if s := dump(deref(got)); s != want {
			t.Failf("content", "%s is decoded to %s", where, s)
		}
		t.Ev("typed", 1)
	}
	wildOK := m.registered() || cmd == "XYZ" // the payload is valid for the registered type
	line := adcLine(g, kind, cmd, payload)
	if wildOK || unknown {
		got, err := adc.UnmarshalMessage(typ, []byte(payload))
		if err != nil {
			t.Failf("read", "%s %q: %v", cmd, payload, err)
		}
		check("UnmarshalMessage", got)
		p, err := adc.DecodePacket([]byte(line))
		if err != nil {
			t.Failf("read", "%q: %v", line, err)
		}
		check("DecodePacket", p.Message())
		// decoded already
		if err := p.DecodeMessage(); err != nil {
			t.Failf("again", "decoding a decoded message again: %v: %q", err, line)
		}
		check("DecodeMessage", p.Message())
	}
	p, err := adc.DecodePacketRaw([]byte(line))
	if err != nil {
		t.Failf("read", "%q: %v", line, err)
	}
	if raw, ok := p.Message().(*adc.RawMessage); !ok || raw.Type != typ || string(raw.Data) != payload {
		t.Failf("raw", "%q is decoded to a raw packet %s", line, dump(p))
	}
	// a given type
	for i := 0; i < 4; i++ {
		var dst interface{}
		if i == 0 && !unknown {
			dst = m.new()
		} else {
			dst = g.pick(r.Intn(aTypes())).new()
		}
		dm, ok := dst.(adc.Message)
		if !ok {
			continue
		}
		before := dump(dst)
		err := p.DecodeMessageTo(dm)
		t.Eval(1)
		if dm.Cmd() != typ {
			if err == nil {
				t.Failf("command", "%q is decoded to %T", line, dst)
			}
			if dump(dst) != before {
				t.Failf("command", "%q cannot be decoded to %T, but changed it", line, dst)
			}
			t.Ev("unexpected", 1)
		} else if i == 0 {
			if err != nil {
				t.Failf("read", "%q to %T: %v", line, dst, err)
			}
			if got := dump(deref(dst)); got != want {
				t.Failf("content", "%q is decoded to %s, expected %s", line, got, want)
			}
		}
		if raw, ok := p.Message().(*adc.RawMessage); !ok || string(raw.Data) != payload {
			t.Failf("raw", "decoding to a given type changed the packet %q: %s", line, dump(p))
		}
	}
	t.Seen(line)
	t.Sample(func() string { return fmt.Sprintf("%q", line) })
}

// adcLine makes a packet of a kind with a payload.
func adcLine(g *aGen, kind byte, cmd, payload string) string {
	a, b, c := g.sid(), g.sid(), g.hash()
	s := string(kind) + cmd
	switch kind {
	case 'B':
		s += " " + string(a[:])
	case 'D', 'E':
		s += " " + string(a[:]) + " " + string(b[:])
	case 'U':
		s += " " + b32(c[:])
	case 'F':
		s += " " + string(a[:]) + mon.Pick(g.r, "", " +TCP4", " +TCP4 -NAT0")
	}
	if payload != "" {
		s += " " + payload
	}
	return s + "\n"
}

func c19Registry(t *mon.T) {
	c19Setup(t)
	r := t.R
	if t.Index%1000 == 0 {
		types := nmdc.RegisteredTypes()
		if !sort.StringsAreSorted(types) {
			t.Failf("registry", "types are not sorted: %q", types)
		}
		seen := map[string]bool{}
		for _, s := range types {
			if seen[s] {
				t.Failf("registry", "type %q is listed twice", s)
			}
			seen[s] = true
		}
		for s := range nmdcGoTypes {
			if s != "" && !seen[s] {
				t.Failf("registry", "type %q is not listed", s)
			}
		}
		for s := range seen {
			if !nmdc.IsRegistered(s) {
				t.Failf("registry", "listed type %q is not registered", s)
			}
		}
		for _, s := range append([]string{""}, nmdcTypes...) {
			if nmdc.IsRegistered(s) != seen[s] {
				t.Failf("registry", "type %q: registered %v, listed %v", s, nmdc.IsRegistered(s), seen[s])
			}
		}
		// the result is not shared
		types[0] = "changed"
		if nmdc.RegisteredTypes()[0] == "changed" {
			t.Failf("registry", "list of types is shared")
		}
	}
	name := mon.Pick(r, nmdcTypes...)
	if r.Bool() {
		name = nearMiss(r, name)
	}
	if r.P(1, 5) {
		name = string(r.Bytes(r.Intn(10)))
	}
	goType, known := nmdcGoTypes[name]
	t.Eval(4)
	if name != "" && (nmdc.IsRegistered(name) != known || nmdc.IsRegisteredBytes([]byte(name)) != known) {
		t.Failf("registry", "%q: registered %v, %v; expected %v", name, nmdc.IsRegistered(name), nmdc.IsRegisteredBytes([]byte(name)), known)
	}
	m := nmdc.NewMessage(name)
	if known && name != "" {
		if got := fmt.Sprintf("%T", m); got != goType || m.Type() != name {
			t.Failf("registry", "%q: new message %s %q, expected %s", name, got, m.Type(), goType)
		}
		if m2 := nmdc.NewMessage(name); m2 == m && dump(m) != dump(struct{}{}) && !strings.Contains(goType, "NoArgs") {
			// pointers to empty structures may be equal
			if !strings.HasSuffix(dump(m), "{}") && !strings.Contains(dump(m), "NoArgs{}") {
				t.Failf("registry", "%q: new messages are shared", name)
			}
		}
	} else if name != "" {
		raw, ok := m.(*nmdc.RawMessage)
		if !ok || raw.Typ != name || len(raw.Data) != 0 {
			t.Failf("registry", "%q: new message %s", name, dump(m))
		}
	}
	var typ adc.MsgType
	copy(typ[:], mon.Pick(r, "MSG", "INF", "msg", "ABC", "SU", "SCH", "RES", string(r.Bytes(3))))
	am, err := adc.UnmarshalMessage(typ, []byte(mon.Pick(r, "", "x", "AAAA")))
	goType, known = adcGoTypes[typ.String()]
	if !known {
		goType = "*adc.RawMessage"
	}
	if err != nil {
		if !known || errors.Is(err, io.EOF) {
			t.Failf("registry", "%q: %v", typ, err)
		}
	} else if got := fmt.Sprintf("%T", am); got != goType && got != "*"+goType {
		t.Failf("registry", "%q: %s, expected %s", typ, got, goType)
	}
	t.Seen(name + "\x00" + typ.String())
}
