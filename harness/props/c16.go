package props

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/text/encoding/charmap"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c16() mon.Property {
	return mon.Property{
		ID: "C16",
		Rule: "A case reads a stream of valid and mutated messages of all types (random methods, chunking, compression switches, keep-alives), or decodes buffers. A full dump of every decoded message is taken when it is returned and compared after every later operation: reads, switches, close, overwriting of the transport data and of the input buffer, and destruction (every reachable byte, element, spare capacity) of other decoded messages, which must not reach later messages either. " +
			"For writing, messages whose slices have a guarded spare capacity are dumped before and after each way of encoding. Non-trivial: a case with two or more decoded messages; distinct by stream bytes.",
		Assume: []string{"ReadPacketRaw, DecodePacketRaw and hooks are documented to return data of the buffer"},
		Monitors: []mon.Monitor{
			{Name: "nmdc-stream", Quick: 2100, Thorough: 200000, Run: c16NMDCStream},
			{Name: "nmdc-buffers", Quick: 14000, Thorough: 1000000, Run: c16NMDCBuffers},
			{Name: "nmdc-reused-destination", Quick: 28000, Thorough: 2000000, Run: c16NMDCReuse},
			{Name: "nmdc-write", Quick: 21000, Thorough: 1500000, Run: c16NMDCWrite},
			{Name: "adc-stream", Quick: 2100, Thorough: 200000, Run: c16ADCStream},
			{Name: "adc-buffers", Quick: 14000, Thorough: 1000000, Run: c16ADCBuffers},
			{Name: "adc-write", Quick: 21000, Thorough: 1500000, Run: c16ADCWrite},
		},
	}
}

// snap is a decoded value and its dump at the time it was returned.
type snap struct {
	v    interface{}
	dump string
	how  string
}

type snaps struct {
	t    *mon.T
	live []*snap
	last string
	n    int
}

// add takes a snapshot of the value.
func (s *snaps) add(how string, v interface{}) {
	s.n++
	s.live = append(s.live, &snap{v: v, dump: dump(v), how: how})
	if len(s.live) > 16 {
		i := s.t.R.Intn(8)
		s.live = append(s.live[:i], s.live[i+1:]...)
	}
}

// check compares all live values with their snapshots.
func (s *snaps) check(after string) {
	for _, e := range s.live {
		s.t.Eval(1)
		if d := dump(e.v); d != e.dump {
			s.t.Failf(fmt.Sprintf("changed-%T", e.v), "a value returned by %s changed after %s:\n  is %s\n was %s", e.how, after, d, e.dump)
		}
	}
}

// spoilOne destroys one of values and checks the others.
func (s *snaps) spoilOne() {
	if len(s.live) < 2 {
		return
	}
	i := s.t.R.Intn(len(s.live))
	e := s.live[i]
	s.live = append(s.live[:i], s.live[i+1:]...)
	spoil(reflect.ValueOf(e.v), 0)
	s.t.Ev("values spoiled", 1)
	s.check(fmt.Sprintf("another value (%T from %s) was modified", e.v, e.how))
}

// spoil changes everything that is reachable from the value, including a spare capacity of slices.
func spoil(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				spoil(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		v = v.Slice(0, v.Cap())
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.String:
			v.SetString("<spoiled>")
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(^v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(^v.Uint())
		}
	}
}

// guard is a slice of a message that was moved to a buffer with a larger capacity.
type guard struct {
	all  reflect.Value
	dump string
	path string
}

// addGuards gives all slices of the message a spare capacity that must not be written to.
func addGuards(v reflect.Value, path string, out *[]guard, depth int) {
	if !v.IsValid() || depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			addGuards(v.Elem(), path, out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				addGuards(v.Field(i), path+"."+v.Type().Field(i).Name, out, depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			addGuards(v.Index(i), path, out, depth+1)
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		n, extra := v.Len(), 40
		all := reflect.MakeSlice(v.Type(), n+extra, n+extra)
		reflect.Copy(all, v)
		for i := n; i < n+extra; i++ {
			if e := all.Index(i); e.Kind() == reflect.Uint8 {
				e.SetUint(0xA5)
			} else if n != 0 {
				e.Set(v.Index(0))
			}
		}
		v.Set(all.Slice(0, n)) // the capacity includes guards
		for i := 0; i < n; i++ {
			addGuards(v.Index(i), path+"[]", out, depth+1)
		}
		*out = append(*out, guard{all: all, dump: dump(all.Interface()), path: path})
	}
}

func checkGuards(t *mon.T, after string, gs []guard) {
	for _, g := range gs {
		t.Eval(1)
		if d := dump(g.all.Interface()); d != g.dump {
			t.Failf("spare"+g.path, "%s wrote to the memory of the slice %s or behind it:\n  is %s\n was %s", after, g.path, d, g.dump)
		}
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = "\xff|$ \nZ"[i%6]
	}
}

func c16NMDCStream(t *mon.T) {
	r := t.R
	g := newNGen(r)
	var (
		out   bytes.Buffer
		wants []string // expected dumps; empty if a message was mutated
	)
	w := nmdc.NewWriter(&out)
	must := func(err error) {
		if err != nil {
			t.Failf("write", "%v", err)
		}
	}
	typ := "" // repeat messages of the same type for a while
	for i, n := 0, 4+gen.Count(r, 50); i < n; i++ {
		switch {
		case r.P(1, 12):
			must(w.ZOnLevel(r.Range(-2, 9)))
			wants = append(wants, dump(&nmdc.ZOn{}))
			for j, n := 0, r.Intn(8); j < n; j++ {
				p := g.any()
				if p.in.Type() == "ZOn" {
					continue
				}
				must(w.WriteMsg(p.in))
				wants = append(wants, dump(p.want))
			}
			must(w.DisableZlib())
		case r.P(1, 10):
			must(w.WriteKeepAlive())
		case r.P(1, 6):
			// lines of other variants and broken ones
			b := nmdcHostile(r)
			b = bytes.Replace(b, []byte("$ZOn"), []byte("$Zon"), -1)
			b = append(bytes.Trim(bytes.Replace(b, []byte("|"), []byte("."), -1), "\x00"), '|')
			if len(b) > 30000 {
				continue
			}
			must(w.WriteLine(b))
			if len(b) > 1 {
				wants = append(wants, "")
			}
		default:
			p := g.any()
			if typ != "" {
				p = g.pick(typ)
			}
			if p.in.Type() == "ZOn" {
				continue
			}
			if _, ok := p.in.(*nmdc.RawMessage); !ok && r.P(1, 4) {
				typ = p.in.Type()
			} else if r.P(1, 3) {
				typ = ""
			}
			must(w.WriteMsg(p.in))
			wants = append(wants, dump(p.want))
		}
	}
	must(w.Flush())
	data := append([]byte{}, out.Bytes()...)
	src := gen.NewReader(r, data)
	rd := nmdc.NewReader(src)
	if r.P(1, 3) {
		rd.OnLine(func(line []byte) (bool, error) { return true, nil })
		rd.OnRawMessage(func(cmd, args []byte) (bool, error) { return true, nil })
		rd.OnMessage(func(m nmdc.Message) (bool, error) { return true, nil })
	}
	s := &snaps{t: t}
	for i := 0; ; {
		var (
			m   nmdc.Message
			err error
			how string
		)
		switch r.Intn(10) {
		case 8:
			how = "ReadMsgTo(get pass)"
			m = &nmdc.GetPass{}
			err = rd.ReadMsgTo(m)
		case 9:
			how = "ReadMsgToAny(get pass, bad pass)"
			m, err = rd.ReadMsgToAny(&nmdc.GetPass{}, &nmdc.BadPass{})
		case 0:
			how = "ReadMsgToAny(raw)"
			raw := &nmdc.RawMessage{}
			m, err = rd.ReadMsgToAny(raw)
		case 1:
			how = "ReadMsgToAny(chat, search, myinfo, raw)"
			m, err = rd.ReadMsgToAny(&nmdc.ChatMessage{}, &nmdc.Search{}, &nmdc.MyINFO{}, &nmdc.RawMessage{})
		default:
			how = "ReadMsg"
			m, err = rd.ReadMsg()
		}
		if err == io.EOF {
			if i != len(wants) {
				t.Failf("count", "%d messages read, %d written", i, len(wants))
			}
			break
		}
		if i >= len(wants) {
			t.Failf("extra", "an unexpected message: %s %v", dump(m), err)
		}
		want := wants[i]
		i++
		if ue, ok := err.(*nmdc.ErrUnexpectedCommand); ok && ue.Received != nil && strings.HasSuffix(how, "pass)") {
			// a received message of another type
			t.Ev("unexpected messages kept", 1)
			m, err = ue.Received, nil
			how = "the error of " + how
		}
		if err != nil {
			if want != "" {
				t.Failf("read", "%s: %v", how, err)
			}
			s.check("a failed read")
			continue
		}
		t.Ev("messages decoded", 1)
		zon := false
		switch m := m.(type) {
		case *nmdc.RawMessage:
			zon = m.Typ == "ZOn"
		case *nmdc.ZOn:
			zon = true
		}
		if _, ok := m.(*nmdc.RawMessage); !ok && want != "" {
			if d := dump(m); d != want {
				t.Failf("value", "%s after other messages were modified:\n got %s\nwant %s", how, d, want)
			}
		}
		s.add(how, m)
		s.check("the next read")
		if zon {
			if err := rd.EnableZlib(); err != nil {
				t.Failf("zlib", "EnableZlib: %v", err)
			}
			s.check("EnableZlib")
			t.Ev("compression switches", 1)
		}
		if r.P(1, 5) {
			s.spoilOne()
		}
	}
	s.check("the end of the stream")
	scribble(src.Data)
	s.check("overwriting the transport data")
	_ = rd.Close()
	s.check("Close")
	for len(s.live) > 1 {
		s.spoilOne()
	}
	if s.n > 1 {
		t.Seen(string(data))
	}
	t.Sample(func() string { return fmt.Sprintf("%d messages, %d bytes", s.n, len(data)) })
}

func c16NMDCBuffers(t *mon.T) {
	r := t.R
	g := newNGen(r)
	s := &snaps{t: t}
	var dec *nmdc.TextDecoder
	if r.P(1, 4) {
		dec = charmap.Windows1251.NewDecoder()
	}
	typ := nmdcTypes[r.Intn(len(nmdcTypes))]
	for i := 0; i < 4; i++ {
		var wire []byte
		if r.P(1, 4) {
			wire = nmdcHostile(r)
		} else {
			p := g.any()
			if r.Bool() {
				p = g.pick(typ)
			}
			b, err := nmdc.Marshal(nil, p.in)
			if err != nil {
				t.Failf("marshal", "%v", err)
			}
			wire = b
		}
		orig := string(wire)
		m, err := nmdc.Unmarshal(dec, wire)
		if string(wire) != orig {
			t.Failf("input", "Unmarshal changed its input: %s, was %q", q(wire), orig)
		}
		if err != nil {
			continue
		}
		s.add("Unmarshal "+strconvQuote(orig), m)
		if r.Bool() {
			// decode of a payload
			line := bytes.TrimSuffix(wire, []byte("|"))
			typ, args := "", line
			if len(line) != 0 && line[0] == '$' {
				args = nil
				if j := bytes.IndexByte(line, ' '); j >= 0 {
					args = line[j+1:]
					line = line[:j]
				}
				typ = string(line[1:])
			}
			m2 := nmdc.NewMessage(typ)
			if typ == "" {
				m2 = &nmdc.ChatMessage{}
			}
			if err := m2.UnmarshalNMDC(dec, args); err == nil {
				s.add("UnmarshalNMDC "+strconvQuote(orig), m2)
				s.check("UnmarshalNMDC")
			}
			// the same input gives an independent value
			if r.Bool() {
				m3 := nmdc.NewMessage(typ)
				if typ == "" {
					m3 = &nmdc.ChatMessage{}
				}
				if err := m3.UnmarshalNMDC(dec, args); err == nil {
					s.add("UnmarshalNMDC again "+strconvQuote(orig), m3)
				}
			}
		}
		scribble(wire)
		s.check("overwriting the input")
	}
	n := s.n
	for len(s.live) > 1 {
		s.spoilOne()
	}
	if n > 1 {
		t.Seen(s.live[0].dump)
	}
}

// shallow makes a copy of a message, as an assignment of the structure does.
func shallow(m interface{}) interface{} {
	v := reflect.ValueOf(m).Elem()
	c := reflect.New(v.Type())
	c.Elem().Set(v)
	return c.Interface()
}

// c16NMDCReuse decodes several messages to the same destination; values copied from it earlier must not change.
func c16NMDCReuse(t *mon.T) {
	r := t.R
	g := newNGen(r)
	s := &snaps{t: t}
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	var wires [][]byte
	all := ""
	for i, n := 0, 2+r.Intn(4); i < n; i++ {
		b, err := nmdc.Marshal(nil, g.pick(typ).in)
		if err != nil {
			t.Failf("marshal", "%v", err)
		}
		if r.P(1, 5) {
			// a broken one; the name of the command stays
			k := bytes.IndexByte(b, ' ') + 1
			b = append(append([]byte{}, b[:k]...), mutate(r, b[k:], nmdcTokens)...)
			b = append(bytes.Replace(b, []byte("|"), []byte("."), -1), '|')
		}
		if typ == "ZOn" {
			continue
		}
		wires = append(wires, b)
		all += string(b)
	}
	dst := nmdc.NewMessage(typ)
	if typ == "" {
		dst = &nmdc.ChatMessage{}
	}
	if r.P(1, 6) {
		dst = &nmdc.RawMessage{}
	}
	rd := nmdc.NewReader(gen.NewReader(r, []byte(all)))
	direct := r.Bool()
	if _, ok := dst.(*nmdc.RawMessage); ok {
		direct = false
	}
	for _, b := range wires {
		var err error
		if direct {
			args := bytes.TrimSuffix(b, []byte("|"))
			if typ != "" {
				k := bytes.IndexByte(args, ' ')
				if k < 0 {
					k = len(args) - 1
				}
				args = args[k+1:]
			}
			args = append([]byte{}, args...)
			err = dst.UnmarshalNMDC(nil, args)
			scribble(args)
		} else {
			_, err = rd.ReadMsgToAny(dst)
		}
		if err == io.EOF {
			break
		}
		s.check("decoding of another message to the same destination")
		if err != nil {
			continue
		}
		c := shallow(dst)
		s.add("decoding "+strconvQuote(string(b)), c)
		t.Ev("values copied from a destination", 1)
	}
	if s.n > 1 {
		t.Seen(all)
	}
}

func strconvQuote(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return q([]byte(s))
}

func sortedBytes(b []byte) string {
	b = append([]byte{}, b...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

func c16NMDCWrite(t *mon.T) {
	r := t.R
	g := newNGen(r)
	var enc *nmdc.TextEncoder
	if r.P(1, 4) {
		enc = charmap.Windows1251.NewEncoder()
	}
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	m := g.pick(typ).in
	var gs []guard
	addGuards(reflect.ValueOf(m), "."+reflect.TypeOf(m).Elem().Name(), &gs, 0)
	before := dump(m)
	verify := func(how string) {
		t.Eval(1)
		if d := dump(m); d != before {
			t.Failf(fmt.Sprintf("modified-%T", m), "%s modified the message:\n  is %s\n was %s", how, d, before)
		}
		checkGuards(t, how, gs)
	}
	a, aerr := nmdc.Marshal(enc, m)
	verify("Marshal")
	var buf bytes.Buffer
	err := m.MarshalNMDC(enc, &buf)
	verify("MarshalNMDC")
	if (err == nil) != (aerr == nil) {
		t.Failf("differs", "Marshal: %v, MarshalNMDC: %v: %s", aerr, err, before)
	}
	var out bytes.Buffer
	w := nmdc.NewWriterSize(&out, mon.Pick(r, 0, 16, 100))
	w.SetEncoder(enc)
	var batch []nmdc.Message
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		batch = append(batch, m)
	}
	err = w.WriteMsg(batch...)
	verify("WriteMsg")
	_ = w.Flush()
	verify("Flush")
	if aerr == nil {
		if err != nil {
			t.Failf("differs", "WriteMsg: %v: %s", err, before)
		}
		// writing the same message several times gives the same bytes (the order of map elements is arbitrary)
		if want := bytes.Repeat(a, len(batch)); len(want) != out.Len() || sortedBytes(want) != sortedBytes(out.Bytes()) {
			t.Failf("differs", "WriteMsg: %s", diff(out.Bytes(), want))
		}
		// the result doesn't share memory with the message
		scribble(a)
		scribble(buf.Bytes())
		verify("overwriting the result of Marshal")
	}
	_ = w.Close()
	verify("Close")
	t.Ev("slices guarded", len(gs))
	t.Seen(before)
}

// c16Packet makes a packet of any kind with any message.
func c16Packet(r *mon.Rand, g *aGen) adc.Packet {
	kind := adcKinds[r.Intn(len(adcKinds))]
	msg, _, _ := c14Message(g, kind)
	return adcPacket(g, kind, msg)
}

func c16ADCStream(t *mon.T) {
	r := t.R
	g := newAGen(r)
	var out bytes.Buffer
	w := adc.NewWriterSize(&out, mon.Pick(r, 0, 16, 4096))
	must := func(err error) {
		if err != nil {
			t.Failf("write", "%v", err)
		}
	}
	n := 0
	var kinds []byte // 0 if unknown
	isZ := func(p adc.Packet) bool { s := p.Message().Cmd().String(); return s == "ZON" }
	for i, k := 0, 4+gen.Count(r, 50); i < k; i++ {
		switch {
		case r.P(1, 12):
			must(w.WriteInfo(adc.ZOn{}))
			kinds = append(kinds, 'I')
			n++
			must(w.EnableZlibLevel(r.Range(-2, 9)))
			for j, k := 0, r.Intn(8); j < k; j++ {
				p := c16Packet(r, g)
				if isZ(p) {
					continue
				}
				must(w.WritePacket(p))
				kinds = append(kinds, p.Kind())
				n++
			}
			must(w.DisableZlib())
		case r.P(1, 10):
			must(w.WriteKeepAlive())
		case r.P(1, 6):
			p := c16Packet(r, g)
			var buf bytes.Buffer
			must(p.MarshalPacketADC(&buf))
			b := mutate(r, buf.Bytes(), adcTokens)
			b = bytes.Replace(b, []byte("\n"), []byte(" "), -1)
			b = bytes.Replace(b, []byte("ZON"), []byte("ZQN"), -1)
			if len(b) == 0 || len(b) > 30000 {
				continue
			}
			must(w.WriteLine(append(b, '\n')))
			kinds = append(kinds, 0)
			n++
		default:
			p := c16Packet(r, g)
			if isZ(p) {
				continue
			}
			must(w.WritePacket(p))
			kinds = append(kinds, p.Kind())
			n++
		}
	}
	must(w.Flush())
	data := append([]byte{}, out.Bytes()...)
	src := gen.NewReader(r, data)
	rd := adc.NewReader(src)
	// a second reader of a private copy of the same stream gives the expected values
	rd2 := adc.NewReader(bytes.NewReader(append([]byte{}, data...)))
	s := &snaps{t: t}
	for i := 0; ; i++ {
		var (
			v, v2     interface{}
			err, err2 error
			how       string
		)
		zon := func(m adc.Message) bool { return m != nil && m.Cmd().String() == "ZON" }
		z := false
		method := 0
		if i < n && kinds[i] == 'I' {
			method = r.Intn(3)
		} else if i < n && kinds[i] == 'C' {
			method = mon.Pick(r, 0, 3)
		}
		switch method {
		case 1, 2:
			how = "ReadInfo"
			var m, m2 adc.Message
			m, err = rd.ReadInfo()
			m2, err2 = rd2.ReadInfo()
			v, v2, z = m, m2, err == nil && zon(m)
		case 3:
			how = "ReadClient"
			v, err = rd.ReadClient()
			v2, err2 = rd2.ReadClient()
		default:
			how = "ReadPacket"
			var p, p2 adc.Packet
			p, err = rd.ReadPacket()
			p2, err2 = rd2.ReadPacket()
			v, v2 = p, p2
			z = err == nil && zon(p.Message())
		}
		if err == io.EOF {
			if i != n {
				t.Failf("count", "%d packets read, %d written", i, n)
			}
			break
		}
		if (err == nil) != (err2 == nil) {
			t.Failf("differs", "%s: %v, with another reader: %v", how, err, err2)
		}
		if err != nil {
			s.check("a failed read")
			continue
		}
		t.Ev("messages decoded", 1)
		if d, d2 := dump(v), dump(v2); d != d2 {
			t.Failf("value", "%s after other messages were modified:\n got %s\nwant %s", how, d, d2)
		}
		if z {
			if err := rd.EnableZlib(); err != nil {
				t.Failf("zlib", "EnableZlib: %v", err)
			}
			if err := rd2.EnableZlib(); err != nil {
				t.Failf("zlib", "EnableZlib: %v", err)
			}
			t.Ev("compression switches", 1)
		}
		s.add(how, v)
		if r.P(1, 3) {
			s.add(how+" (other reader)", v2)
		}
		s.check("the next read")
		if r.P(1, 5) {
			s.spoilOne()
		}
	}
	scribble(src.Data)
	s.check("overwriting the transport data")
	_ = rd.Close()
	s.check("Close")
	for len(s.live) > 1 {
		s.spoilOne()
	}
	if s.n > 1 {
		t.Seen(string(data))
	}
	t.Sample(func() string { return fmt.Sprintf("%d messages, %d bytes", s.n, len(data)) })
}

func c16ADCBuffers(t *mon.T) {
	r := t.R
	g := newAGen(r)
	s := &snaps{t: t}
	fixed := r.Intn(aTypes())
	for i := 0; i < 4; i++ {
		m := g.any()
		if r.Bool() {
			m = g.pick(fixed)
		}
		var buf bytes.Buffer
		if err := adc.Marshal(&buf, m.m); err != nil {
			t.Failf("marshal", "%v", err)
		}
		data := append([]byte{}, buf.Bytes()...)
		if r.P(1, 4) {
			data = mutate(r, data, adcTokens)
		}
		orig := string(data)
		for j := 0; j < 2; j++ {
			switch r.Intn(3) {
			case 0:
				dst := m.new()
				if err := adc.Unmarshal(data, dst); err == nil {
					s.add("Unmarshal "+strconvQuote(orig), dst)
				}
			case 1:
				var typ adc.MsgType
				copy(typ[:], mon.Pick(r, m.cmd, m.cmd, "QQQ"))
				if v, err := adc.UnmarshalMessage(typ, data); err == nil {
					s.add("UnmarshalMessage "+strconvQuote(orig), v)
				}
			case 2:
				msg := &adc.RawMessage{Type: adc.MsgType{'A', 'B', 'C'}, Data: append([]byte{}, data...)}
				copy(msg.Type[:], m.cmd)
				if bytes.IndexByte(msg.Data, '\n') >= 0 {
					continue
				}
				p := adcPacket(g, adcKinds[r.Intn(len(adcKinds))], msg)
				var line bytes.Buffer
				if err := p.MarshalPacketADC(&line); err != nil {
					t.Failf("marshal", "%v", err)
				}
				b := line.Bytes()
				if p, err := adc.DecodePacket(b); err == nil {
					how := "DecodePacket " + strconvQuote(string(b))
					s.add(how, p)
					scribble(b)
					s.check("overwriting the input")
				}
			}
		}
		if string(data) != orig {
			t.Failf("input", "decoding changed its input: %s, was %q", q(data), orig)
		}
		scribble(data)
		s.check("overwriting the input")
	}
	n := s.n
	for len(s.live) > 1 {
		s.spoilOne()
	}
	if n > 1 {
		t.Seen(s.live[0].dump)
	}
}

func c16ADCWrite(t *mon.T) {
	r := t.R
	g := newAGen(r)
	am := g.pick(t.Index % aTypes())
	m := am.m
	var gs []guard
	rv := reflect.ValueOf(m)
	if rv.Kind() != reflect.Ptr {
		// slices can be replaced in a copy only
		pv := reflect.New(rv.Type())
		pv.Elem().Set(rv)
		addGuards(pv, "."+rv.Type().Name(), &gs, 0)
		m = pv.Elem().Interface().(adc.Message)
	} else {
		addGuards(rv, "."+rv.Type().Elem().Name(), &gs, 0)
	}
	p := adcPacket(g, adcKinds[r.Intn(len(adcKinds))], m)
	var psel []guard
	addGuards(reflect.ValueOf(p), fmt.Sprintf(".%T", p), &psel, 0)
	before, pbefore := dump(m), dump(p)
	verify := func(how string) {
		t.Eval(1)
		if d := dump(m); d != before {
			t.Failf(fmt.Sprintf("modified-%T", m), "%s modified the message:\n  is %s\n was %s", how, d, before)
		}
		if d := dump(p); d != pbefore {
			t.Failf(fmt.Sprintf("modified-%T", p), "%s modified the packet:\n  is %s\n was %s", how, d, pbefore)
		}
		checkGuards(t, how, gs)
		checkGuards(t, how, psel)
	}
	var a bytes.Buffer
	if err := adc.Marshal(&a, m); err != nil {
		t.Failf("marshal", "%v: %s", err, before)
	}
	verify("Marshal")
	b := adc.MustMarshal(m)
	verify("MustMarshal")
	if !am.any && !eq(a.Bytes(), b) {
		t.Failf("differs", "Marshal: %s, MustMarshal: %s", q(a.Bytes()), q(b))
	}
	var line bytes.Buffer
	if err := p.MarshalPacketADC(&line); err != nil {
		t.Failf("marshal", "%v: %s", err, pbefore)
	}
	verify("MarshalPacketADC")
	var out bytes.Buffer
	w := adc.NewWriterSize(&out, mon.Pick(r, 0, 16, 100))
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		if err := w.WritePacket(p); err != nil {
			t.Failf("write", "%v", err)
		}
		verify("WritePacket")
	}
	if err := w.Flush(); err != nil {
		t.Failf("write", "%v", err)
	}
	if !am.any {
		want := strings.Repeat(line.String(), n)
		if out.String() != want {
			t.Failf("differs", "WritePacket: %s", diff(out.Bytes(), []byte(want)))
		}
	}
	scribble(a.Bytes())
	scribble(b)
	scribble(line.Bytes())
	verify("overwriting encoded bytes")
	_ = w.Close()
	verify("Close")
	t.Ev("slices guarded", len(gs)+len(psel))
	t.Seen(pbefore)
}
