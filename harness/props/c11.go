package props

import (
	"bytes"
	"fmt"
	"strings"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c11() mon.Property {
	return mon.Property{
		ID: "C11",
		Rule: "nmdc: hostile messages (as for C09) are read with a random decoder and each decoded one is written with a random encoder, alone or in a batch with others; the output is parsed by an independent splitter and must be exactly one message of the same command, or an error with no output. " +
			"adc: hostile packets (as for C10) of all kinds are decoded and written again; the output must be exactly one line that an independent parser sees with the same header and command. raw: undecoded messages and packets are written and compared with the received bytes. Non-trivial: the relayed message contains an escape or a separator; distinct by input.",
		Assume: []string{"a chat message without a sender and text may be relayed as a keep-alive", "a CID with unused bits set is relayed in its canonical form"},
		Monitors: []mon.Monitor{
			{Name: "nmdc", Quick: 600000, Thorough: 10000000, Run: c11NMDC},
			{Name: "nmdc-raw", Quick: 160000, Thorough: 2000000, Run: c11NMDCRaw},
			{Name: "adc", Quick: 600000, Thorough: 10000000, Run: c11ADC},
			{Name: "adc-raw", Quick: 320000, Thorough: 5000000, Run: c11ADCRaw},
		},
	}
}

var c11Encs = []encoding.Encoding{
	nil, nil, nil,
	charmap.Windows1251, charmap.Windows1252, charmap.CodePage437,
	japanese.ShiftJIS, japanese.EUCJP, simplifiedchinese.GBK, simplifiedchinese.GB18030, traditionalchinese.Big5,
}

// nmdcName is a command of a message, without the delimiter.
func nmdcName(line []byte) string {
	if len(line) == 0 || line[0] != '$' {
		return ""
	}
	n := string(line[1:])
	if i := strings.IndexByte(n, ' '); i >= 0 {
		n = n[:i]
	}
	return n
}

var entities = []string{
	"&#36;", "&#124;", "&#0;", "&#x7c;", "&#x24;", "&vert;", "&VerticalLine;", "&dollar;", "&lt;", "&gt;", "&amp;", "&#10;", "&#13;", "&#9;", "&Tab;", "&NewLine;", "&#60;", "&#62;", "&#32;", "&nbsp;", "&amp;#124;", "&amp;#36;",
	"/%DCN000%/", "/%DCN036%/", "/%DCN124%/", "/%DCN005%/", "/%DCN096%/", "/%DCN126%/", "&#x110000;", "&#128;",
}

func c11Line(r *mon.Rand) []byte {
	for {
		b := nmdcHostile(r)
		if r.Bool() {
			// more escapes
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				b = insert(b, r.Intn(len(b)+1), []byte(mon.Pick(r, entities...)))
			}
		}
		if i := bytes.IndexByte(b, '|'); i >= 0 {
			b = b[:i]
		}
		if len(b) > 0 {
			return b
		}
	}
}

func c11NMDC(t *mon.T) {
	r := t.R
	line := c11Line(r)
	e := c11Encs[r.Intn(len(c11Encs))]
	e2 := e
	if r.P(1, 3) {
		e2 = c11Encs[r.Intn(len(c11Encs))]
	}
	rd := nmdc.NewReader(gen.NewReader(r, append(append([]byte{}, line...), '|')))
	if e != nil {
		rd.SetDecoder(e.NewDecoder())
	}
	m, err := rd.ReadMsg()
	if err != nil {
		t.Ev("undecodable", 1)
		return
	}
	var buf bytes.Buffer
	w := nmdc.NewWriterSize(&buf, mon.Pick(r, 0, 16))
	if e2 != nil {
		w.SetEncoder(e2.NewEncoder())
	}
	before, after := "", ""
	batch := []nmdc.Message{m}
	if r.P(1, 4) {
		before, after = "$Hello before|", "$Hello after|"
		batch = []nmdc.Message{&nmdc.Hello{Name: "before"}, m, &nmdc.Hello{Name: "after"}}
	}
	t.Eval(1)
	if err := w.WriteMsg(batch...); err != nil {
		t.Ev("refused", 1)
		if err := w.Flush(); err != nil {
			t.Failf("flush", "%v", err)
		}
		if s := buf.String(); s != "" && s != before {
			t.Failf("partial", "%q is refused (%v), but %q is written", line, err, s)
		}
		return
	}
	if err := w.Flush(); err != nil {
		t.Failf("flush", "%v", err)
	}
	out := buf.String()
	if !strings.HasPrefix(out, before) || !strings.HasSuffix(out, after) || len(out) < len(before)+len(after) {
		t.Failf("neighbours", "%q is relayed as %q", line, out)
	}
	out = out[len(before) : len(out)-len(after)]
	if strings.Count(out, "|") != 1 || out[len(out)-1] != '|' || strings.IndexByte(out, 0) >= 0 {
		t.Failf("framing", "%q is relayed as %q: %s", line, out, dump(m))
	}
	body := []byte(out[:len(out)-1])
	name := nmdcName(line)
	if len(body) == 0 {
		if c, ok := m.(*nmdc.ChatMessage); ok && c.Name == "" && c.Text == "" {
			return
		}
		t.Failf("keep-alive", "%q is relayed as %q: %s", line, out, dump(m))
	}
	if got := nmdcName(body); got != name || (line[0] == '$') != (body[0] == '$') {
		t.Failf("command", "%q is relayed as %q: %s", line, out, dump(m))
	}
	// the receiver sees the same type
	rd2 := nmdc.NewReader(strings.NewReader(out))
	if e2 != nil {
		rd2.SetDecoder(e2.NewDecoder())
	}
	if m2, err := rd2.ReadMsg(); err == nil {
		if m2.Type() != m.Type() {
			t.Failf("command", "%q is relayed as %q and received as %s", line, out, dump(m2))
		}
		if c, ok := m.(*nmdc.ChatMessage); ok && c.Name != "" {
			if c2 := m2.(*nmdc.ChatMessage); c2.Name != c.Name {
				t.Failf("sender", "%q is relayed as %q: sender %q instead of %q", line, out, c2.Name, c.Name)
			}
		}
	}
	t.Ev("relayed", 1)
	if bytes.IndexByte(line, '&') >= 0 || bytes.Contains(line, []byte("/%DCN")) {
		t.Seen(string(line))
	}
	t.Sample(func() string { return fmt.Sprintf("%q -> %q", line, out) })
}

func c11NMDCRaw(t *mon.T) {
	r := t.R
	line := c11Line(r)
	// an unknown command, or any command that is read to a raw message
	typed := r.Bool()
	if typed {
		if line[0] != '$' {
			line = append([]byte("$Xyz "), line...)
		} else if i := bytes.IndexByte(line, ' '); i >= 0 {
			line = append([]byte("$Xyz"+mon.Pick(r, "", "1", "-", "_a")), line[i:]...)
		}
	}
	rd := nmdc.NewReader(gen.NewReader(r, append(append([]byte{}, line...), '|')))
	if r.P(1, 3) {
		rd.SetDecoder(charmap.Windows1251.NewDecoder())
	}
	var m nmdc.Message
	var err error
	if typed {
		m, err = rd.ReadMsg()
	} else {
		m, err = rd.ReadMsgToAny(&nmdc.RawMessage{})
	}
	if err != nil {
		t.Ev("undecodable", 1)
		return
	}
	raw, ok := m.(*nmdc.RawMessage)
	if !ok {
		if !nmdc.IsRegistered(nmdcName(line)) {
			t.Failf("type", "%q is decoded as %s", line, dump(m))
		}
		return
	}
	var buf bytes.Buffer
	w := nmdc.NewWriter(&buf)
	if r.P(1, 3) {
		w.SetEncoder(charmap.Windows1251.NewEncoder())
	}
	t.Eval(1)
	if err := w.WriteMsg(raw); err != nil {
		t.Failf("refused", "raw message %q: %v", line, err)
	}
	_ = w.Flush()
	norm := func(s string) string {
		s = strings.TrimSuffix(s, "|")
		if strings.HasPrefix(s, "$") && strings.Index(s, " ") == len(s)-1 {
			s = s[:len(s)-1]
		}
		return s
	}
	if got := buf.String(); !strings.HasSuffix(got, "|") || norm(got) != norm(string(line)) {
		t.Failf("raw", "raw message %q is relayed as %q", line, got)
	}
	t.Ev("raw", 1)
	t.Seen(string(line))
}

// c11Packet makes a line of a packet.
func c11Packet(r *mon.Rand) []byte {
	b := adcHostile(r)
	if r.Bool() {
		for i, n := 0, 1+r.Intn(3); i < n && len(b) > 5; i++ {
			b = insert(b, 5+r.Intn(len(b)-4), []byte(mon.Pick(r, "\\s", "\\n", "\\\\", "\\", "\\\\n", "\\n\\n", " ADab\\n", " RM\\s\\nx", " SUab\\n,\\n\\n", " TT\\n", "+", " -")))
		}
	}
	b = bytes.Replace(b, []byte("\n"), nil, -1)
	return append(b, '\n')
}

func c11ADC(t *mon.T) {
	r := t.R
	line := c11Packet(r)
	if r.P(1, 6) {
		// feature lists with escapes
		s := string(adcKinds[r.Intn(3)*3]) + "SUP"
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			s += " " + mon.Pick(r, "AD", "RM")
			for j, k := 0, 1+r.Intn(4); j < k; j++ {
				s += mon.Pick(r, "\\s", "\\n", "\\\\", "a", "b", "AB", "TCP4")
			}
		}
		line = []byte(s + "\n")
	}
	h, reason := ref.ADCParse(string(line))
	p, err := adc.DecodePacket(line)
	if err != nil || reason != "" {
		t.Ev("undecodable", 1)
		return
	}
	var buf bytes.Buffer
	if r.Bool() {
		err = p.MarshalPacketADC(&buf)
	} else {
		w := adc.NewWriter(&buf)
		if err = w.WritePacket(p); err == nil {
			err = w.Flush()
		}
	}
	t.Eval(1)
	if err != nil {
		t.Ev("refused", 1)
		return
	}
	out := buf.String()
	h2, reason := ref.ADCParse(out)
	if reason != "" || strings.Count(out, "\n") != 1 {
		t.Failf("framing", "%q is relayed as %q: %s: %s", line, out, reason, dump(p))
	}
	h.Payload, h2.Payload = "", ""
	loose := h.Loose
	h.Loose, h2.Loose = false, false
	if h.CID != "" {
		h.CID, h2.CID = h.CID[:38], h2.CID[:38]
	}
	if dump(h) != dump(h2) {
		t.Failf("header", "%q is relayed as %q (loose %v)", line, out, loose)
	}
	t.Ev("relayed", 1)
	if bytes.IndexByte(line, '\\') >= 0 {
		t.Seen(string(line))
	}
	t.Sample(func() string { return fmt.Sprintf("%q -> %q", line, out) })
}

func c11ADCRaw(t *mon.T) {
	r := t.R
	line := c11Packet(r)
	h, reason := ref.ADCParse(string(line))
	orig := string(line)
	p, err := adc.DecodePacketRaw(line)
	if err != nil || reason != "" {
		t.Ev("undecodable", 1)
		return
	}
	var buf bytes.Buffer
	w := adc.NewWriter(&buf)
	err = w.WritePacket(p)
	if err == nil {
		err = w.Flush()
	}
	t.Eval(1)
	if err != nil {
		t.Failf("refused", "raw packet %q: %v", orig, err)
	}
	out := buf.String()
	norm := func(s string) string {
		s = strings.TrimSuffix(s, "\n")
		if h.Kind == 'F' {
			s = strings.Replace(s, " ", "", -1)
		}
		if h.CID != "" && len(s) >= 44 {
			s = s[:43] + s[44:]
		}
		hlen := map[byte]int{'I': 5, 'H': 5, 'C': 5, 'B': 10, 'D': 15, 'E': 15, 'U': 44, 'F': 0}[h.Kind]
		if hlen != 0 && len(s) == hlen {
			s = strings.TrimSuffix(s, " ")
		}
		return s
	}
	if !strings.HasSuffix(out, "\n") || norm(out) != norm(orig) {
		t.Failf("raw", "raw packet %q is relayed as %q", orig, out)
	}
	if h2, reason := ref.ADCParse(out); reason != "" || h2.Payload != h.Payload && !h.Loose {
		t.Failf("raw", "raw packet %q is relayed as %q", orig, out)
	}
	t.Ev("raw", 1)
	t.Seen(orig)
}
