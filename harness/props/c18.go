package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c18() mon.Property {
	return mon.Property{
		ID: "C18",
		Rule: "A case encodes valid messages of every registered type with texts and names made of characters of one of 14 encodings (in multi-byte ones half of the characters have a trailing byte that is a separator or an escape character of the protocol), and reads them with the decoder: values must be equal and the wire, unescaped and decoded by the encoding, must be the wire of the UTF-8 message; or puts a character outside of the encoding into a text field and expects a refusal; or reads the stream without a decoder and checks each call of the unknown-encoding callback and everything decoded before and after it. " +
			"hooks: the encoding is changed many times inside of one batch of messages by hooks of the writer, and by line, raw and message hooks (also ones which drop), keep-alive and error callbacks of the reader, and each message must use the encoding set before it was encoded or decoded. " +
			"independent: each message of a batch which shares an encoder and a decoder, also of an encoding with a state (ISO-2022-JP) and with broken messages in between, must be encoded and decoded as with a new one. Strings of messages decoded from hostile bytes must be valid UTF-8. Non-trivial: a message with non-ASCII text; distinct by wire form.",
		Assume: []string{"stateless encodings compatible with ASCII, when values are compared", "texts are valid UTF-8"},
		Monitors: []mon.Monitor{
			{Name: "roundtrip", Quick: 195000, Thorough: 6000000, Run: c18Roundtrip},
			{Name: "scale", Quick: 5000, Thorough: 100000, Run: c18Scale},
			{Name: "stream", Quick: 6500, Thorough: 150000, Run: c18Stream},
			{Name: "hooks", Quick: 13000, Thorough: 300000, Run: c18Hooks},
			{Name: "unrepresentable", Quick: 104000, Thorough: 3000000, Run: c18Bad},
			{Name: "fallback", Quick: 65000, Thorough: 1600000, Run: c18Fallback},
			{Name: "hostile", Quick: 130000, Thorough: 4000000, Run: c18Hostile},
			{Name: "independent", Quick: 60000, Thorough: 1000000, Run: c18Independent},
			{Name: "repertoire-exhaustive", Quick: c18Batches * len(textEncs), Thorough: c18Batches * len(textEncs), Run: c18Repertoire},
		},
	}
}

// textEnc is an encoding and its repertoire.
type textEnc struct {
	name    string
	enc     encoding.Encoding
	once    sync.Once
	runes   []rune // round-trip characters
	special []rune // with a trailing byte that means something in the protocol
	set     map[rune]bool
}

var textEncs = []*textEnc{
	{name: "windows-1251", enc: charmap.Windows1251},
	{name: "windows-1252", enc: charmap.Windows1252},
	{name: "windows-1250", enc: charmap.Windows1250},
	{name: "windows-1255", enc: charmap.Windows1255},
	{name: "koi8-r", enc: charmap.KOI8R},
	{name: "cp866", enc: charmap.CodePage866},
	{name: "iso-8859-2", enc: charmap.ISO8859_2},
	{name: "shift-jis", enc: japanese.ShiftJIS},
	{name: "euc-jp", enc: japanese.EUCJP},
	{name: "gbk", enc: simplifiedchinese.GBK},
	{name: "gb18030", enc: simplifiedchinese.GB18030},
	{name: "big5", enc: traditionalchinese.Big5},
	{name: "euc-kr", enc: korean.EUCKR},
	{name: "cp437", enc: charmap.CodePage437},
}

func (e *textEnc) init() {
	e.once.Do(func() {
		e.set = map[rune]bool{}
		enc, dec := e.enc.NewEncoder(), e.enc.NewDecoder()
		for c := rune(1); c < 0x10000; c++ {
			if c >= 0xd800 && c < 0xe000 || c == 0xfffd {
				continue
			}
			s := string(c)
			b, err := enc.String(s)
			if err != nil || strings.Contains(b, "\x00") {
				continue
			}
			if d, err := dec.String(b); err != nil || d != s {
				continue
			}
			if c < 0x80 && b != s {
				continue
			}
			e.set[c] = true
			if c < 0x80 {
				continue
			}
			e.runes = append(e.runes, c)
			if len(b) > 1 && strings.ContainsAny(b[1:], "|\\$&<> `~{}[]@^;#,:?/019AMVHS") {
				e.special = append(e.special, c)
			}
		}
		if e.special == nil {
			e.special = e.runes
		}
	})
}

func (e *textEnc) fit(s string) string {
	return strings.Map(func(c rune) rune {
		if e.set[c] {
			return c
		}
		return -1
	}, s)
}

func (e *textEnc) str(t *mon.T, s string) string {
	b, err := e.enc.NewEncoder().String(s)
	if err != nil {
		panic(fmt.Errorf("%q is not in %s: %v", s, e.name, err))
	}
	return b
}

// texts makes the generator of messages use characters of the encoding.
func (e *textEnc) texts(t *mon.T, g *nGen) {
	e.init()
	g.low = true
	r := g.r
	text := func(max int, not string) string {
		base := e.fit(gen.Text(r, max, not))
		var sb strings.Builder
		for _, c := range base {
			if c >= 0x80 || r.P(1, 6) {
				if r.Bool() {
					c = e.runes[r.Intn(len(e.runes))]
				} else {
					c = e.special[r.Intn(len(e.special))]
				}
			}
			sb.WriteRune(c)
		}
		if r.P(1, 4) {
			// at the edges, where a trailing byte meets a separator
			sb.WriteRune(e.special[r.Intn(len(e.special))])
		}
		if r.P(1, 8) {
			return gen.Clean(string(e.special[r.Intn(len(e.special))])+sb.String(), max, not)
		}
		return gen.Clean(sb.String(), max, not)
	}
	g.text = text
	g.name = func(spaces bool) string {
		not := "$\r\n\t"
		if !spaces {
			not += " "
		}
		if r.P(1, 20) {
			// the length is limited on the wire, not in UTF-8
			max := mon.Pick(r, 256, 255, 254, r.Range(100, 256))
			var s, w string
			for i := 0; i < 400; i++ {
				c := string(e.runes[r.Intn(len(e.runes))])
				if r.P(1, 3) {
					c = string(e.special[r.Intn(len(e.special))])
				} else if r.P(1, 8) {
					c = string(rune(r.Range('a', 'z')))
				}
				ws := w + e.str(t, c)
				if strings.ContainsAny(ws, "$\r\n\t") {
					continue
				}
				if gen.EscapedLen(ws) > max {
					break
				}
				s, w = s+c, ws
			}
			if d, err := e.enc.NewDecoder().String(w); s != "" && err == nil && d == s && e.str(t, s) == w {
				t.Ev("long names", 1)
				return s
			}
		}
		for i := 0; i < 20; i++ {
			s := text(40, not)
			if s == "" || gen.EscapedLen(e.str(t, s)) > 256 || strings.ContainsAny(e.str(t, s), "$\r\n\t") {
				continue
			}
			return s
		}
		return "user"
	}
}

var wireUnescaper = strings.NewReplacer("&#36;", "$", "&#124;", "|", "&amp;", "&", "&lt;", "<", "&gt;", ">")

func c18Enc(t *mon.T) *textEnc {
	e := textEncs[t.Index%len(textEncs)]
	e.init()
	return e
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// checkWire compares the wire form in the encoding with the one in UTF-8.
func (e *textEnc) checkWire(t *mon.T, m nmdc.Message, wire []byte) {
	switch m := m.(type) {
	case *nmdc.Key, *nmdc.RawMessage:
		return // not a text
	case *nmdc.MyINFO:
		if len(m.Extra) > 1 {
			return // the order is not fixed
		}
	}
	plain, err := nmdc.Marshal(nil, m)
	if err != nil {
		return // e.g. the name is too long in UTF-8
	}
	got, err := e.enc.NewDecoder().String(wireUnescaper.Replace(string(wire)))
	want := wireUnescaper.Replace(string(plain))
	t.Eval(1)
	if err != nil || got != want {
		t.Failf(fmt.Sprintf("wire-%T", m), "%s: the message is not sent in the encoding: wire %s means %q, expected %q", e.name, q(wire), got, want)
	}
}

func c18Roundtrip(t *mon.T) {
	e := c18Enc(t)
	g := newNGen(t.R)
	e.texts(t, g)
	typ := nmdcTypes[t.Index/len(textEncs)%len(nmdcTypes)]
	p := g.pick(typ)
	wire, err := nmdc.Marshal(e.enc.NewEncoder(), p.in)
	if err != nil {
		t.Failf("marshal", "%s: %v: %s", e.name, err, dump(p.in))
	}
	if n := bytes.Count(wire, []byte("|")); n != 1 {
		t.Failf("framing", "%s: %d delimiters in %s", e.name, n, q(wire))
	}
	e.checkWire(t, p.in, wire)
	m, err := nmdc.Unmarshal(e.enc.NewDecoder(), wire)
	if err != nil {
		t.Failf(fmt.Sprintf("unmarshal-%T", p.in), "%s: %v: %s encoded as %s", e.name, err, dump(p.in), q(wire))
	}
	checkSame(t, e.name, m, p.want, wire)
	t.Ev("encoding "+e.name, 1)
	if !isASCII(string(wire)) {
		t.Ev("non-ASCII messages", 1)
		t.Seen(string(wire))
	}
	t.Sample(func() string { return e.name + ": " + q(wire) })
}

// scaleTexts is like texts, but with long texts of all kinds of characters.
func (e *textEnc) scaleTexts(t *mon.T, g *nGen, max int) {
	e.texts(t, g)
	r, text, left := g.r, g.text, max
	g.text = func(max int, not string) string {
		if r.P(1, 4) {
			return text(max, not)
		}
		n := gen.Scale(r, left)
		base := e.fit(gen.ScaleText(r, n, ""))
		every := mon.Pick(r, 1, 1, 2, 3, 50, 1000, 1024, 4096)
		shift := r.Intn(every)
		var sb strings.Builder
		for i, c := range base {
			if i%every == shift {
				if r.Bool() {
					c = e.runes[r.Intn(len(e.runes))]
				} else {
					c = e.special[r.Intn(len(e.special))]
				}
			}
			sb.WriteRune(c)
		}
		left -= n
		s := sb.String()
		return gen.Clean(s, len(s), not)
	}
}

func c18Scale(t *mon.T) {
	r := t.R
	e := c18Enc(t)
	g := newNGen(r)
	e.scaleTexts(t, g, mon.Pick(r, 3000, 20000, 70000))
	typ := nmdcTypes[t.Index/len(textEncs)%len(nmdcTypes)]
	p := g.pick(typ)
	wire, err := nmdc.Marshal(e.enc.NewEncoder(), p.in)
	if err != nil {
		t.Failf("marshal", "%s: %v: %s", e.name, err, dump(p.in))
	}
	if n := bytes.Count(wire, []byte("|")); n != 1 {
		t.Failf("framing", "%s: %d delimiters in %s", e.name, n, q(wire))
	}
	e.checkWire(t, p.in, wire)
	m, err := bigUnmarshal(r, e.enc.NewDecoder(), wire)
	if err != nil {
		t.Failf(fmt.Sprintf("unmarshal-%T", p.in), "%s: %v: %s encoded as %s", e.name, err, dump(p.in), q(wire))
	}
	checkSame(t, e.name, m, p.want, wire)
	if !isASCII(string(wire)) {
		t.Ev("non-ASCII bytes of big messages", len(wire))
		t.Seen(string(wire))
	}
}

// noEnc stands for a connection without an encoding.
var noEnc = &textEnc{name: "none"}

func c18Stream(t *mon.T) {
	r := t.R
	e := c18Enc(t)
	g := newNGen(r)
	var out bytes.Buffer
	w := nmdc.NewWriterSize(&out, mon.Pick(r, 0, 16, 100))
	e.texts(t, g)
	w.SetEncoder(e.enc.NewEncoder())
	type item struct {
		p    nPair
		next *textEnc // switched after the message
	}
	var items []item
	start := e
	for i, n := 0, 2+r.Intn(30); i < n; i++ {
		p := g.any()
		if p.in.Type() == "ZOn" {
			continue
		}
		if err := w.WriteMsg(p.in); err != nil {
			t.Failf("write", "%s: %v: %s", e.name, err, dump(p.in))
		}
		it := item{p: p}
		if r.P(1, 8) {
			if r.P(1, 4) {
				// no encoding
				e = noEnc
				g = newNGen(r)
				w.SetEncoder(nil)
			} else {
				e = textEncs[r.Intn(len(textEncs))]
				e.texts(t, g)
				w.SetEncoder(e.enc.NewEncoder())
			}
			it.next = e
		}
		items = append(items, it)
	}
	if err := w.Flush(); err != nil {
		t.Failf("write", "%v", err)
	}
	rd := nmdc.NewReader(gen.NewReader(r, out.Bytes()))
	rd.SetDecoder(start.enc.NewDecoder())
	if r.Bool() {
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			t.Failf("callback", "OnUnknownEncoding is called with a decoder set: %q", text)
			return nil, nil
		}
	}
	e = start
	for i, it := range items {
		var (
			m   nmdc.Message
			err error
		)
		switch r.Intn(3) {
		case 0:
			m = nmdc.NewMessage(it.p.in.Type())
			if it.p.in.Type() == "" {
				m = &nmdc.ChatMessage{}
			}
			err = rd.ReadMsgTo(m)
		case 1:
			m = nmdc.NewMessage(it.p.in.Type())
			if it.p.in.Type() == "" {
				m = &nmdc.ChatMessage{}
			}
			m, err = rd.ReadMsgToAny(&nmdc.Version{}, m)
		default:
			m, err = rd.ReadMsg()
		}
		if err != nil {
			t.Failf("read", "message %d (%s): %v: %s", i, e.name, err, dump(it.p.in))
		}
		if it.p.in.Type() != "Version" {
			checkSame(t, e.name, m, it.p.want, nil)
		}
		if it.next != nil {
			e = it.next
			if e == noEnc {
				rd.SetDecoder(nil)
				t.Ev("encoding removed", 1)
			} else {
				rd.SetDecoder(e.enc.NewDecoder())
			}
		}
	}
	if _, err := rd.ReadMsg(); err != io.EOF {
		t.Failf("end", "%v at the end", err)
	}
	t.Ev("messages", len(items))
	t.Seen(out.String())
}

// c18Hooks changes encodings in the middle of calls.
func c18Hooks(t *mon.T) {
	r := t.R
	type elem struct {
		p     nPair
		e     *textEnc
		place string // where the encoding of the element is set
		drop  bool
		bad   string // an element that is not a message
		after *textEnc
	}
	var (
		elems []*elem
		batch []nmdc.Message
		out   bytes.Buffer
		cur   *textEnc
	)
	for i, n := 0, 2+r.Intn(12); i < n; i++ {
		g := newNGen(r)
		el := &elem{e: cur, drop: r.P(1, 4)}
		if cur == nil || r.P(1, 2) {
			if r.P(1, 6) {
				el.e = noEnc
			} else {
				el.e = textEncs[r.Intn(len(textEncs))]
			}
			el.place = mon.Pick(r, "line", "raw", "message", "keep-alive", "error")
			if i == 0 {
				el.place = mon.Pick(r, "line", "raw")
			}
		}
		cur = el.e
		if el.e != noEnc {
			el.e.texts(t, g)
		}
		el.p = g.any()
		if el.p.in.Type() == "ZOn" {
			el.p = g.pick("Hello")
		}
		elems = append(elems, el)
		batch = append(batch, el.p.in)
	}
	w := nmdc.NewWriter(&out)
	wi := 0
	setW := func(e *textEnc) {
		if e == noEnc {
			w.SetEncoder(nil)
		} else {
			w.SetEncoder(e.enc.NewEncoder())
		}
	}
	early := r.Bool()
	var stream []byte
	var order []*elem
	w.OnMessage(func(m nmdc.Message) (bool, error) {
		if el := elems[wi]; el.place != "" && (!early || wi == 0) {
			setW(el.e)
		}
		return true, nil
	})
	w.OnLine(func(line []byte) (bool, error) {
		el := elems[wi]
		switch el.place {
		case "keep-alive", "error":
			bad := &elem{bad: "|", after: el.e}
			if el.place == "error" {
				bad.bad = mon.Pick(r, "$MyINFO x|", "$SR a|", "$ConnectToMe |", "$UserCommand z|")
			}
			order = append(order, bad)
			stream = append(stream, bad.bad...)
		case "message":
			order[len(order)-1].after = el.e
		}
		order = append(order, el)
		stream = append(stream, line...)
		wi++
		if early && wi < len(elems) && elems[wi].place != "" {
			// for the next message of the batch
			setW(elems[wi].e)
		}
		return true, nil
	})
	for len(batch) > 0 {
		n := 1 + r.Intn(len(batch))
		if err := w.WriteMsg(batch[:n]...); err != nil {
			t.Failf("write", "message %d (%s): %v: %s", wi, elems[wi].e.name, err, dump(elems[wi].p.in))
		}
		batch = batch[n:]
	}
	rd := nmdc.NewReader(gen.NewReader(r, stream))
	set := func(e *textEnc) {
		t.Ev("switches in hooks", 1)
		if e == noEnc {
			rd.SetDecoder(nil)
		} else {
			rd.SetDecoder(e.enc.NewDecoder())
		}
	}
	ri := -1
	rd.OnLine(func(line []byte) (bool, error) {
		ri++
		if el := order[ri]; el.place == "line" {
			set(el.e)
		}
		return true, nil
	})
	rd.OnRawMessage(func(cmd, args []byte) (bool, error) {
		if el := order[ri]; el.place == "raw" {
			set(el.e)
		}
		return true, nil
	})
	after := func() {
		if el := order[ri]; el.after != nil {
			set(el.after)
		}
	}
	rd.OnKeepAlive = func() error {
		after()
		return nil
	}
	rd.OnUnmarshalError = func(text []byte, err error) (bool, error) {
		if order[ri].bad == "" {
			t.Failf("hooks-read", "message %d (%s): %v: %q", ri, order[ri].e.name, err, text)
		}
		after()
		return false, nil
	}
	rd.OnMessage(func(m nmdc.Message) (bool, error) {
		el := order[ri]
		if el.bad != "" {
			t.Failf("hooks-read", "%q is decoded as %s", el.bad, dump(m))
		}
		t.Eval(1)
		checkSame(t, el.e.name+" set by "+el.place, m, el.p.want, nil)
		after()
		return !el.drop, nil
	})
	for {
		m, err := rd.ReadMsg()
		if err == io.EOF {
			break
		} else if err != nil {
			t.Failf("hooks-read", "message %d: %v: %q", ri, err, stream)
		}
		checkSame(t, order[ri].e.name, m, order[ri].p.want, nil)
	}
	if ri != len(order)-1 {
		t.Failf("hooks-count", "%d messages read, %d written", ri+1, len(order))
	}
	t.Ev("messages", len(elems))
	t.Seen(string(stream))
}

var c18Alien = []rune{'☃', '文', 'Ж', 'é', 'あ', '한', 'ŵ', '😀', 'ß', 'א', '─'}

// hasRune checks strings of the message.
func hasRune(v reflect.Value, c rune) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return false
		}
		if v.CanInterface() {
			if err, ok := v.Interface().(error); ok {
				return strings.ContainsRune(err.Error(), c)
			}
		}
		return hasRune(v.Elem(), c)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasRune(v.Field(i), c) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if hasRune(v.Index(i), c) {
				return true
			}
		}
	case reflect.String:
		return strings.ContainsRune(v.String(), c)
	}
	return false
}

func c18Bad(t *mon.T) {
	r := t.R
	e := c18Enc(t)
	g := newNGen(r)
	e.texts(t, g)
	var alien []rune
	for _, c := range c18Alien {
		if _, err := e.enc.NewEncoder().String(string(c)); err != nil {
			alien = append(alien, c)
		}
	}
	if len(alien) == 0 {
		return // GB18030
	}
	c := alien[r.Intn(len(alien))]
	text, name := g.text, g.name
	n, at := 0, r.Intn(4)
	put := func(s string) string {
		n++
		if n-1 != at && at != 3 {
			return s
		}
		rs := []rune(s)
		i := r.Intn(len(rs) + 1)
		return string(rs[:i]) + string(c) + string(rs[i:])
	}
	g.text = func(max int, not string) string { return put(text(max, not)) }
	g.name = func(spaces bool) string { return put(name(spaces)) }
	typ := nmdcTypes[t.Index/len(textEncs)%len(nmdcTypes)]
	p := g.pick(typ)
	bad := hasRune(reflect.ValueOf(p.in), c)
	if _, ok := p.in.(*nmdc.Key); ok {
		return
	}
	wire, err := nmdc.Marshal(e.enc.NewEncoder(), p.in)
	t.Eval(1)
	if bad && err == nil {
		t.Failf(fmt.Sprintf("accepted-%T", p.in), "%s: %q cannot be represented, but the message is encoded as %s: %s", e.name, c, q(wire), dump(p.in))
	} else if !bad && err != nil {
		t.Failf(fmt.Sprintf("refused-%T", p.in), "%s: %v: %s", e.name, err, dump(p.in))
	}
	// nothing is sent
	var out bytes.Buffer
	w := nmdc.NewWriterSize(&out, mon.Pick(r, 0, 16))
	w.SetEncoder(e.enc.NewEncoder())
	a, b := &nmdc.ChatMessage{Name: "a", Text: "first"}, &nmdc.ChatMessage{Name: "a", Text: "last"}
	want := "<a> first|"
	if err := w.WriteMsg(a); err != nil {
		t.Failf("write", "%v", err)
	}
	err = w.WriteMsg(p.in)
	if bad && err == nil {
		t.Failf(fmt.Sprintf("accepted-%T", p.in), "%s: WriteMsg: %q cannot be represented: %s", e.name, c, dump(p.in))
	} else if !bad {
		if err != nil {
			t.Failf("write", "%v", err)
		}
		want += string(wire)
	}
	if err := w.WriteMsg(b); err != nil {
		t.Failf("write", "after a refused message: %v", err)
	}
	want += "<a> last|"
	if err := w.Flush(); err != nil {
		t.Failf("write", "%v", err)
	}
	t.Eval(1)
	if out.Len() != len(want) || sortedBytes(out.Bytes()) != sortedBytes([]byte(want)) {
		t.Failf("sent", "%s: a refused message left %q in the stream, expected %q", e.name, out.String(), want)
	}
	if bad {
		t.Ev("refused messages", 1)
		t.Seen(e.name + dump(p.in))
	}
}

var errC18 = errors.New("verif: unknown encoding")

func c18Fallback(t *mon.T) {
	r := t.R
	e := c18Enc(t)
	g := newNGen(r)
	e.texts(t, g)
	var (
		out   bytes.Buffer
		items []nPair
		wires [][]byte
	)
	typ := nmdcTypes[t.Index/len(textEncs)%len(nmdcTypes)]
	for i, n := 0, 2+r.Intn(6); i < n; i++ {
		p := g.any()
		if r.P(1, 3) {
			p = g.pick(typ)
		}
		switch p.in.Type() {
		case "ZOn", "Key":
			continue
		}
		b, err := nmdc.Marshal(e.enc.NewEncoder(), p.in)
		if err != nil {
			t.Failf("marshal", "%s: %v: %s", e.name, err, dump(p.in))
		}
		out.Write(b)
		items = append(items, p)
		wires = append(wires, b)
	}
	mode := r.Intn(4) // 0, 1 - a decoder is supplied, 2 - an error is returned, 3 - no callback
	rd := nmdc.NewReader(gen.NewReader(r, out.Bytes()))
	var (
		calls   [][]byte
		current *nmdc.TextDecoder
		hooked  []nmdc.Message
	)
	rd.OnMessage(func(m nmdc.Message) (bool, error) { hooked = append(hooked, m); return true, nil })
	if r.Bool() {
		rd.SetDecoder(nil)
	}
	if mode != 3 {
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			calls = append(calls, append([]byte{}, text...))
			if mode == 2 {
				return nil, errC18
			}
			current = e.enc.NewDecoder()
			return current, nil
		}
	}
	for i, it := range items {
		calls = nil
		hooked = nil
		text := wireUnescaper.Replace(string(wires[i]))
		unknown := !utf8.ValidString(text)
		var (
			m   nmdc.Message
			err error
		)
		dst := nmdc.NewMessage(it.in.Type())
		if it.in.Type() == "" {
			dst = &nmdc.ChatMessage{}
		}
		switch r.Intn(3) {
		case 0:
			m, err = dst, rd.ReadMsgTo(dst)
		case 1:
			m, err = rd.ReadMsgToAny(&nmdc.GetPass{}, dst)
		default:
			m, err = rd.ReadMsg()
		}
		what := fmt.Sprintf("%s, message %d %s", e.name, i, q(wires[i]))
		t.Eval(1)
		if current == nil && unknown {
			t.Ev("messages in an unknown encoding", 1)
			t.Seen(string(wires[i]))
			switch mode {
			case 3:
				if err == nil {
					t.Failf("invalid", "%s: no decoder, but the message was returned as %s", what, dump(m))
				}
			case 2:
				if err != errC18 {
					t.Failf("error", "%s: the callback returned an error, the read returned %v", what, err)
				} else if len(calls) != 1 {
					t.Failf("calls", "%s: %d calls of OnUnknownEncoding", what, len(calls))
				}
			default:
				t.Failf("calls", "%s: OnUnknownEncoding was not called; the result is %s, %v", what, dump(m), err)
			}
			if len(hooked) != 0 {
				t.Failf("hook", "%s: a message that cannot be decoded was passed to a hook", what)
			}
		} else {
			if err != nil {
				t.Failf(fmt.Sprintf("read-%T", it.in), "%s: %v", what, err)
			}
			if current != nil && rd.Decoder() != current {
				t.Failf("decoder", "%s: the supplied decoder is not set", what)
			}
			if len(hooked) != 1 || dump(hooked[0]) != dump(m) {
				t.Failf("hook", "%s: hooks got %s", what, dump(hooked))
			}
			if current != nil || isASCII(text) {
				checkSame(t, what, m, it.want, wires[i])
			}
		}
		for _, c := range calls {
			t.Ev("callbacks", 1)
			t.Eval(1)
			// spaces of a search pattern are sent as $
			norm := func(s string) string { return strings.Replace(s, "$", " ", -1) }
			if utf8.Valid(c) || !strings.Contains(norm(text), norm(string(c))) {
				t.Failf("text", "%s: OnUnknownEncoding was called with %q", what, c)
			}
			if len(calls) != 1 || !unknown {
				t.Failf("calls", "%s: OnUnknownEncoding was called %d times", what, len(calls))
			}
		}
	}
	calls = nil
	if m, err := rd.ReadMsg(); err != io.EOF || len(calls) != 0 {
		t.Failf("end", "at the end: %s, %v", dump(m), err)
	}
}

// c18Raw lists string fields that are not texts: addresses, keys and other values that are not decoded.
var c18Raw = map[string]bool{
	"ForceMove.Address": true, "Version.Vers": true, "FailOver.Host": true, "HubINFO.Host": true, "HubINFO.Encoding": true, "Software.Name": true, "Software.Version": true,
	"ConnectToMe.Address": true, "Search.Address": true, "SR.HubAddress": true, "TTHSearchActive.Address": true, "Lock.Lock": true, "Lock.PK": true, "Lock.Ref": true, "Key.Key": true,
	"Supports.Ext": true, "UserAddress.IP": true, "MyINFO.Extra": true, "RawMessage.Typ": true,
}

// validStrings returns a path of a text that is not valid UTF-8.
func validStrings(v reflect.Value, path string) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if err, ok := v.Interface().(error); ok {
				if !utf8.ValidString(err.Error()) {
					return path
				}
				return ""
			}
			return validStrings(v.Elem(), path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			p := v.Type().Name() + "." + f.Name
			if f.PkgPath != "" || c18Raw[p] {
				continue
			}
			if s := validStrings(v.Field(i), p); s != "" {
				return s
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return ""
		}
		for i := 0; i < v.Len(); i++ {
			if s := validStrings(v.Index(i), path); s != "" {
				return s
			}
		}
	case reflect.String:
		if !utf8.ValidString(v.String()) {
			return path + " = " + q([]byte(v.String()))
		}
	}
	return ""
}

// c18HostileLine makes a message with texts of the encoding; some are damaged.
func c18HostileLine(t *mon.T, e *textEnc) []byte {
	r := t.R
	if r.P(1, 4) {
		return nmdcHostile(r)
	}
	g := newNGen(r)
	e.texts(t, g)
	p := g.pick(nmdcTypes[r.Intn(len(nmdcTypes))])
	b, err := nmdc.Marshal(e.enc.NewEncoder(), p.in)
	if err != nil {
		t.Failf("marshal", "%v", err)
	}
	for i, n := 0, r.Intn(3); i < n; i++ {
		k := r.Intn(len(b))
		b = insert(b, k, []byte(mon.Pick(r, "\xff", "\xe9", "\xc3", "\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xc0\xaf", "&#255;", "&#xd800;", "&#x110000;", "&eacute;", "/%DCN124%/", "\t", " ", "$", "\x05")))
	}
	if r.P(1, 5) {
		b = b[:r.Intn(len(b))]
	}
	return append(bytes.TrimRight(b, "|"), '|')
}

func c18Hostile(t *mon.T) {
	r := t.R
	e := c18Enc(t)
	var data []byte
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		data = append(data, c18HostileLine(t, e)...)
	}
	rd := nmdc.NewReader(gen.NewReader(r, data))
	mode := r.Intn(5) // 2 - the callback returns an error, 3 - a decoder, 4 - nothing
	calls := 0
	var supplied *nmdc.TextDecoder
	switch mode {
	case 1:
		rd.SetDecoder(e.enc.NewDecoder())
	case 2, 3, 4:
		rd.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
			calls++
			if utf8.Valid(text) {
				t.Failf("text", "OnUnknownEncoding was called with a valid text %q", text)
			}
			if mode == 2 {
				return nil, errC18
			} else if mode == 4 {
				return nil, nil
			}
			supplied = e.enc.NewDecoder()
			return supplied, nil
		}
	}
	for i := 0; i < 100; i++ {
		n := calls
		m, err := rd.ReadMsg()
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			break
		}
		t.Eval(1)
		if calls > n+1 {
			t.Failf("calls", "OnUnknownEncoding was called %d times for one message: %s", calls-n, q(data))
		}
		if calls > n && mode == 2 && err != errC18 {
			t.Failf("error", "the callback returned an error, the read returned %v: %s", err, q(data))
		}
		if mode == 3 && calls != 0 && rd.Decoder() != supplied {
			t.Failf("decoder", "a decoder was supplied, but it is not kept (the read returned %v): %s", err, q(data))
		}
		if mode == 1 && calls != 0 {
			t.Failf("calls", "OnUnknownEncoding was called with a decoder set: %s", q(data))
		}
		if err != nil {
			continue
		}
		if s := validStrings(reflect.ValueOf(m), fmt.Sprintf("%T", m)); s != "" {
			t.Failf(fmt.Sprintf("invalid-%T", m), "%s is not a valid text (mode %d, %s) in %s decoded from %s", s, mode, e.name, dump(m), q(data))
		}
		t.Ev("messages checked", 1)
		if !isASCII(string(data)) {
			t.Seen(string(data))
		}
	}
	if mode == 3 && calls > 1 {
		t.Failf("calls", "OnUnknownEncoding was called %d times, though a decoder was supplied: %s", calls, q(data))
	}
	t.Ev("callbacks", calls)
}

const c18Batches = 256

// c18Repertoire puts every character of the encoding (of the basic plane) into different kinds of fields.
func c18Repertoire(t *mon.T) {
	e := c18Enc(t)
	i := t.Index / len(textEncs) % c18Batches
	runes := e.runes[i*len(e.runes)/c18Batches : (i+1)*len(e.runes)/c18Batches]
	enc, dec := e.enc.NewEncoder(), e.enc.NewDecoder()
	for _, c := range runes {
		s := string(c)
		b := e.str(t, s)
		msgs := []nmdc.Message{
			&nmdc.ChatMessage{Name: s, Text: s},
			&nmdc.ChatMessage{Text: "a" + s},
			&nmdc.PrivateMessage{To: s, From: s, Name: s, Text: s + s},
			&nmdc.UserCommand{Typ: nmdc.TypeRaw, Context: 3, Path: []string{s, "a" + s}, Command: s},
			&nmdc.SR{From: s, Path: []string{s, s}, Size: 1, FreeSlots: 1, TotalSlots: 2, HubName: s, HubAddress: "1.2.3.4:411", To: s},
			&nmdc.Search{User: s, SizeRestricted: true, DataType: nmdc.DataTypeAny, Pattern: s + " " + s},
			&nmdc.MyINFO{Name: s, Desc: s, Mode: nmdc.UserModeActive, Conn: s, Flag: nmdc.FlagStatusNormal, Email: s},
			&nmdc.OpList{Names: []string{s, s + s}},
			&nmdc.SetTopic{String: nmdc.String(s)},
			&nmdc.Error{Err: errors.New(s)},
			&nmdc.HubINFO{Name: s, Host: "h", Desc: s, Owner: s, State: s},
		}
		if strings.Contains(b, "$") || strings.TrimSpace(s) == "" {
			continue
		}
		for _, m := range msgs {
			wire, err := nmdc.Marshal(enc, m)
			if err != nil {
				t.Failf(fmt.Sprintf("marshal-%T", m), "%s: %v: %s", e.name, err, dump(m))
			}
			e.checkWire(t, m, wire)
			got, err := nmdc.Unmarshal(dec, wire)
			if err != nil {
				t.Failf(fmt.Sprintf("unmarshal-%T", m), "%s: %v: %s encoded as %s", e.name, err, dump(m), q(wire))
			}
			checkSame(t, e.name, got, m, wire)
		}
	}
	t.Ev("characters", len(runes))
	t.Seen(fmt.Sprint(t.Index))
}

var c18Stateful = []encoding.Encoding{japanese.ISO2022JP, japanese.ShiftJIS, simplifiedchinese.GBK, charmap.Windows1251}

// c18Independent checks that texts do not affect each other through a shared encoder or decoder.
func c18Independent(t *mon.T) {
	r := t.R
	e := c18Stateful[t.Index%len(c18Stateful)]
	text := func() string {
		var sb strings.Builder
		for i, n := 0, r.Intn(6); i < n; i++ {
			sb.WriteString(mon.Pick(r, "a", "bc", "日本", "語", "中文", "привет", "~", "$", "|", " ", "x y", "\ufffd", "𝄞"))
		}
		return sb.String()
	}
	part := func() string {
		return mon.Pick(r, "\x1b$B", "\x1b&#36;B", "\x1b(B", "\x1b(J", "\x1b(I", "\x1b$", "\x1b", "~", "a", "F|K\\", "FKJ", "abcd", "VP", "\x82", "\x82\xa0", "\xff", "&#124;")
	}
	enc, dec := e.NewEncoder(), e.NewDecoder()
	var seen strings.Builder
	for i, n := 0, 2+r.Intn(8); i < n; i++ {
		t.Eval(1)
		if r.Bool() {
			a := text()
			m := mon.Pick[nmdc.Message](r, &nmdc.ChatMessage{Name: "n", Text: a}, &nmdc.ChatMessage{Name: strings.Replace(a, "$", "", -1), Text: text()}, &nmdc.PrivateMessage{To: "t", From: "f", Name: "f", Text: a}, &nmdc.HubTopic{Text: a})
			b, err := nmdc.Marshal(enc, m)
			b2, err2 := nmdc.Marshal(e.NewEncoder(), m)
			if !bytes.Equal(b, b2) || (err == nil) != (err2 == nil) {
				t.Failf("encode", "message %d %s: %q, %v; with a new encoder: %q, %v", i, dump(m), b, err, b2, err2)
			}
			fmt.Fprintf(&seen, "%q", b)
			if err != nil || r.Bool() {
				continue
			}
			c18Same(t, e, dec, b)
			continue
		}
		var sb strings.Builder
		for j, n := 0, r.Intn(5); j < n; j++ {
			sb.WriteString(strings.Replace(part(), "|", "", -1))
		}
		a := sb.String()
		line := []byte(mon.Pick(r, "<n> "+a+"|", "<"+strings.Replace(a, "$", "", -1)+"> "+a+"|", "$To: t From: f $<f> "+a+"|", "$HubTopic "+a+"|", "$Quit "+strings.Replace(a, "$", "", -1)+"|"))
		fmt.Fprintf(&seen, "%q", line)
		c18Same(t, e, dec, line)
	}
	t.Seen(seen.String())
}

func c18Same(t *mon.T, e encoding.Encoding, dec *encoding.Decoder, line []byte) {
	m, err := nmdc.Unmarshal(dec, line)
	m2, err2 := nmdc.Unmarshal(e.NewDecoder(), line)
	if (err == nil) != (err2 == nil) || err == nil && dump(m) != dump(m2) {
		t.Failf("decode", "%q: %s, %v; with a new decoder: %s, %v", line, dump(m), err, dump(m2), err2)
	}
	t.Ev("independent decodes", 1)
}
