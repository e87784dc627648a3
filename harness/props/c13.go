package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c13() mon.Property {
	return mon.Property{
		ID: "C13",
		Rule: "types: for every kind of ADC message (18 registered commands, hub info, raw field lists, a caller's struct with all supported field kinds) random field values incl. hostile text and extreme numbers are encoded, decoded to a new value and compared deeply; required fields must be on the wire; the named fields of the encoded form are permuted (repeated ones keep their order) and unknown fields are inserted (also after positional ones, and after the text of a status), and the result must not change. " +
			"again: a value is decoded to a destination which holds another one; a parameter that is present must have the same value as in a new destination, an absent one is either kept or zero. " +
			"stream: mixtures of messages through Writer/Reader (plain or compressed, chunked) and DecodePacket. Non-trivial: every case; distinct by type and wire form.",
		Assume: []string{"text without NUL; path elements without '/', at least one; session ids are base32; feature names are 4 bytes without space, comma and backslash; nil and empty lists are the same", "status severity is not negative and the code is below 100"},
		Monitors: []mon.Monitor{
			{Name: "types", Quick: 300000, Thorough: 5000000, Run: c13Types},
			{Name: "scale", Quick: 5000, Thorough: 100000, Run: func(t *mon.T) { c13Check(t, scaleAGen(t.R, scaleBytes(t.R))) }},
			{Name: "again", Quick: 60000, Thorough: 1000000, Run: c13Again},
			{Name: "stream", Quick: 15000, Thorough: 200000, Run: c13Stream},
		},
	}
}

func adcMarshal(t *mon.T, m adc.Message) string {
	buf := bytes.NewBuffer(nil)
	pre := mon.Pick(t.R, "", "x", "IMSG ")
	buf.WriteString(pre)
	before := dump(m)
	if err := adc.Marshal(buf, m); err != nil {
		t.Failf("marshal", "%v: %s", err, dump(m))
	}
	if after := dump(m); after != before {
		t.Failf("modified", "encoding modified %s to %s", before, after)
	}
	if !strings.HasPrefix(buf.String(), pre) {
		t.Failf("buffer", "encoding damaged the buffer")
	}
	return buf.String()[len(pre):]
}

// adcDecode decodes a payload to a new value and returns it.
func adcDecode(t *mon.T, m *aMsg, wire string) string {
	p := m.new()
	if err := adc.Unmarshal([]byte(wire), p); err != nil {
		t.Failf("unmarshal", "%s: %v: %q", m.cmd, err, wire)
	}
	return dump(deref(p))
}

// shuffle permutes items, but keeps the order of those with the same tag.
func shuffle(r *mon.Rand, items []string) []string {
	byTag := map[string][]string{}
	tag := func(s string) string {
		if len(s) < 2 {
			return s
		}
		return s[:2]
	}
	for _, s := range items {
		byTag[tag(s)] = append(byTag[tag(s)], s)
	}
	out := make([]string, 0, len(items))
	for _, i := range r.Perm(len(items)) {
		k := tag(items[i])
		out = append(out, byTag[k][0])
		byTag[k] = byTag[k][1:]
	}
	return out
}

// unknownFields adds fields with tags that the message does not define.
func unknownFields(g *aGen, m *aMsg, items []string) []string {
	for i, n := 0, g.r.Intn(4); i < n; i++ {
		f := mon.Pick(g.r, "ZZ", "QQ", "Z1", "zz", "ni", "Id", "", "Q", "日本", "FC", "FM", "TL", "I4") + ref.ADCEscape(g.text())
		ok := true
		for _, t := range m.tags {
			if strings.HasPrefix(f, t) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		p := g.r.Intn(len(items) + 1)
		items = append(items[:p], append([]string{f}, items[p:]...)...)
	}
	return items
}

func c13Types(t *mon.T) { c13Check(t, newAGen(t.R)) }

func c13Check(t *mon.T, g *aGen) {
	m := g.pick(t.Index)
	want := dump(deref(m.m))
	wire := adcMarshal(t, m.m)
	t.Eval(3)
	if got := adcDecode(t, m, wire); got != want {
		t.Failf("roundtrip", "%s: %s decoded as %s: %q", m.cmd, want, got, wire)
	}
	t.Ev("messages", 1)
	if c, ok := deref(m.m).(aCustom); ok {
		// fields that are not a part of the protocol
		c.Z, c.Y = t.R.Range(1, 1000), g.text()+"x"
		if got := adcMarshal(t, c); got != wire {
			t.Failf("untagged", "%s is encoded to %q, expected %q", dump(c), got, wire)
		}
		p := &aCustom{Z: c.Z, Y: c.Y}
		if err := adc.Unmarshal([]byte(wire), p); err != nil || p.Z != c.Z || p.Y != c.Y {
			t.Failf("untagged", "%q: %v: fields which are not in the message were changed: %s", wire, err, dump(p))
		}
	}
	// packets
	if m.registered() {
		t.Ev("bytes", len(wire))
		p, err := adc.DecodePacket([]byte("I" + m.cmd + " " + wire + "\n"))
		if err != nil {
			t.Failf("packet", "%s: %v: %q", m.cmd, err, wire)
		}
		if got := dump(deref(p.Message())); got != want {
			t.Failf("packet", "%s: %s decoded as %s: %q", m.cmd, want, got, wire)
		}
	}
	if len(m.tags) != 0 {
		parts := strings.Split(wire, " ")
		if len(parts) < len(m.pos) {
			t.Failf("positional", "%d parameters expected: %q", len(m.pos), wire)
		}
		pos, nam := append([]string{}, parts[:len(m.pos)]...), append([]string{}, parts[len(m.pos):]...)
		if len(m.pos) == 0 && wire == "" {
			nam = nil
		}
		// required fields
		for _, s := range aSpecs {
			if s.cmd != m.cmd || fmt.Sprintf("%T", s.new()) != fmt.Sprintf("%T", m.new()) {
				continue
			}
			for _, f := range s.nam {
				n := 0
				for _, p := range nam {
					if strings.HasPrefix(p, f.tag) {
						n++
					}
				}
				if f.req && n != 1 {
					t.Failf("required", "%s: required field %s (%s) is %d times on the wire: %q", m.cmd, f.tag, f.name, n, wire)
				}
			}
		}
		for i := 0; i < 2; i++ {
			perm := append(append([]string{}, pos...), unknownFields(g, m, shuffle(t.R, nam))...)
			pw := strings.Join(perm, " ")
			if got := adcDecode(t, m, pw); got != want {
				t.Failf("order", "%s: reordered %q decodes as %s, original %q as %s", m.cmd, pw, got, wire, want)
			}
			t.Ev("permutations", 1)
		}
		// without one of optional fields
		for _, s := range aSpecs {
			if s.cmd != m.cmd || fmt.Sprintf("%T", s.new()) != fmt.Sprintf("%T", m.new()) || len(s.nam) == 0 {
				continue
			}
			f := s.nam[t.R.Intn(len(s.nam))]
			if f.req {
				continue
			}
			v := reflect.New(reflect.TypeOf(deref(m.m))).Elem()
			v.Set(reflect.ValueOf(deref(m.m)))
			v.FieldByName(f.name).Set(reflect.Zero(v.FieldByName(f.name).Type()))
			short := append([]string{}, pos...)
			for _, p := range nam {
				if !strings.HasPrefix(p, f.tag) {
					short = append(short, p)
				}
			}
			if got, want := adcDecode(t, m, strings.Join(short, " ")), dump(v.Interface()); got != want {
				t.Failf("absent", "%s without %s: %q decodes as %s, expected %s", m.cmd, f.tag, short, got, want)
			}
			t.Ev("absent-fields", 1)
		}
	}
	if len(m.pos) == 0 && len(m.tags) != 0 {
		// all the fields are absent
		if got, zero := adcDecode(t, m, ""), dump(deref(m.new())); got != zero {
			t.Failf("absent", "%s: empty payload decodes as %s", m.cmd, got)
		}
	}
	t.Seen(m.cmd + " " + wire)
	t.Sample(func() string { return m.cmd + " " + wire })
}

func c13Stream(t *mon.T) {
	r := t.R
	g := newAGen(r)
	var buf bytes.Buffer
	w := adc.NewWriterSize(&buf, mon.Pick(r, 0, 1, 7, 64, 4096))
	n := 1 + r.Intn(20)
	var want []*aMsg
	for i := 0; i < n; i++ {
		m := g.any()
		want = append(want, m)
		var err error
		if r.Bool() {
			err = w.WriteInfo(m.m)
		} else {
			err = w.WriteHub(m.m)
		}
		if err == nil && r.P(1, 5) {
			err = w.WriteKeepAlive()
		}
		if err != nil {
			t.Failf("write", "%v: %s", err, dump(m.m))
		}
	}
	if err := w.Flush(); err != nil {
		t.Failf("write", "%v", err)
	}
	stream := buf.Bytes()
	rd := adc.NewReader(gen.NewReader(r, stream))
	for i, m := range want {
		p, err := rd.ReadPacketRaw()
		if err != nil {
			t.Failf("read", "message %d: %v: %s", i, err, q(stream))
		}
		raw := p.Message().(*adc.RawMessage)
		if raw.Type.String() != m.cmd {
			t.Failf("type", "message %d: %q, expected %q", i, raw.Type, m.cmd)
		}
		dst := m.new()
		if dm, ok := dst.(adc.Message); ok && r.Bool() {
			err = p.DecodeMessageTo(dm)
		} else {
			err = adc.Unmarshal(raw.Data, dst)
		}
		if err != nil {
			t.Failf("read", "message %d: %v: %s", i, err, dump(m.m))
		}
		t.Eval(1)
		if got, want := dump(deref(dst)), dump(deref(m.m)); got != want {
			t.Failf("stream", "message %d: %s decoded as %s: %s", i, want, got, q(stream))
		}
	}
	t.Ev("stream-messages", n)
	t.Seen(string(stream))
}

// c13Again decodes messages of one type to the same value.
func c13Again(t *mon.T) {
	r := t.R
	g := newAGen(r)
	idx := r.Intn(1 << 16)
	first := g.pick(idx)
	dst := first.new()
	n := 0
	for i := 0; i < 4; i++ {
		m := g.pick(idx)
		if fmt.Sprintf("%T", m.new()) != fmt.Sprintf("%T", dst) {
			continue
		}
		wire := adcMarshal(t, m.m)
		fresh := m.new()
		if err := adc.Unmarshal([]byte(wire), fresh); err != nil {
			t.Failf("unmarshal", "%s: %v: %q", m.cmd, err, wire)
		}
		old := cloneFields(dst)
		if err := adc.Unmarshal([]byte(wire), dst); err != nil {
			t.Failf("again", "%s: %q cannot be decoded to a used value %s: %v", m.cmd, wire, strings.Join(old, " "), err)
		}
		n++
		t.Eval(1)
		fv, dv := reflect.ValueOf(fresh).Elem(), reflect.ValueOf(dst).Elem()
		if _, ok := deref(fresh).(adc.ModFeatures); ok {
			return
		}
		if fv.Kind() != reflect.Struct || len(m.tags) == 0 || m.tags[0] == noTags[0] {
			if a, b := dump(deref(dst)), dump(deref(fresh)); a != b {
				t.Failf("again", "%s: %q is decoded as %s to a used value %s, expected %s", m.cmd, wire, a, strings.Join(old, " "), b)
			}
			continue
		}
		items := strings.Split(wire, " ")[len(m.pos):]
		for j := 0; j < fv.NumField(); j++ {
			f := fv.Type().Field(j)
			tag := strings.Split(f.Tag.Get("adc"), ",")[0]
			if tag == "" || tag == "-" || f.Type == reflect.TypeOf(adc.ModFeatures{}) {
				continue
			}
			present := tag == "#"
			for _, s := range items {
				present = present || strings.HasPrefix(s, tag)
			}
			got, want := dump(dv.Field(j).Interface()), dump(fv.Field(j).Interface())
			if got == want || !present && got == old[j] {
				t.Ev("parameters", 1)
				continue
			}
			t.Failf("again-"+f.Name, "%s.%s: %q is decoded as %s to a used value %s, expected %s", m.cmd, f.Name, wire, got, old[j], want)
		}
	}
	if n > 1 {
		t.Seen(dump(deref(dst)))
	}
}

// cloneFields dumps the fields of a structure.
func cloneFields(p interface{}) []string {
	v := reflect.ValueOf(p).Elem()
	if v.Kind() != reflect.Struct {
		return []string{dump(v.Interface())}
	}
	var out []string
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath != "" {
			out = append(out, "")
			continue
		}
		out = append(out, dump(v.Field(i).Interface()))
	}
	return out
}
