package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/simplifiedchinese"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c08() mon.Property {
	return mon.Property{
		ID: "C08",
		Rule: "A case puts hostile strings (separators, escapes, fake commands, line breaks, NUL, broken UTF-8, random bytes, names around the length limit) into every name and text field of each NMDC message type, with and without a text encoding, directly and through a Writer; the bytes are checked to be a single message and parsed with an independent parser whose sender, target, fields and texts must be the ones put in. " +
			"A second monitor enumerates every forbidden byte at every position of names and every escaped length around the limit. every-field puts delimiters, NULs and fake messages into all strings of a message, including addresses, locks, software names, tag keys, extensions and the name and payload of a raw message, and checks that it is refused or is still a single message of that command, directly and between other messages of a Writer. Non-trivial: every case that encodes; distinct by encoded bytes.",
		Assume: []string{"raw protocol fields that are not names or free text (addresses, locks, software names, extensions) are given in their own syntax, when their number and content is compared", "names in space separated messages have no spaces"},
		Monitors: []mon.Monitor{
			{Name: "hostile-fields", Quick: 720000, Thorough: 4000000, Run: c08Hostile},
			{Name: "forbidden-names", Quick: 20800, Thorough: 20000, Run: c08Names},
			{Name: "scale", Quick: 6000, Thorough: 100000, Run: c08Scale},
			{Name: "writer", Quick: 24000, Thorough: 100000, Run: c08Writer},
			{Name: "every-field", Quick: 260000, Thorough: 3000000, Run: c08Every},
		},
	}
}

var hostilePieces = []string{
	"|", "$", "&", "<", ">", "||", "|$Kick bob|", "|<admin> hi|", "$To: a From: b $<b> x", " From: ", "$<root> ", "> <x> ", "&#124;", "&amp;#124;", "&#36;", "&amp",
	"/%DCN124%/", "/%DCN036%/", "/%DCN000%/", "\x00", "\r", "\n", "\t", "\x05", "\\", "?", "$$", " ", "  ", "Hub:x", "\xff", "\xd0", "\x80", "ё", "日本",
	"a", "b", "Foo", "0", "F?T?0?1?", "(", ")", " (", "TTH:", "$ $", "$ALL ", "<++ V:1,M:A,H:1/0/0,S:1>", "$Pk=", " 1/2", "\x051 1/2\x05", "$MyINFO", "珅", "慭", "€|",
}

func hostileText(r *mon.Rand, max int, not string) string {
	var sb strings.Builder
	switch r.Intn(10) {
	case 0:
		sb.Write(r.Bytes(r.Intn(30)))
	case 1:
		sb.WriteString(gen.Text(r, max, not))
	default:
		for i, n := 0, r.Intn(8); i < n; i++ {
			sb.WriteString(mon.Pick(r, hostilePieces...))
		}
	}
	s := sb.String()
	// NUL is rare, it is refused
	if r.P(9, 10) {
		s = strings.Replace(s, "\x00", "", -1)
	}
	for _, c := range []byte(not) {
		s = strings.Replace(s, string([]byte{c}), "", -1)
	}
	if len(s) > max {
		s = s[:max]
	}
	return s
}

const badName = "$\x00\r\n\t"

func hostileName(r *mon.Rand, spaces bool) string {
	var s string
	switch r.Intn(8) {
	case 0, 1, 2:
		s = gen.Name(r, spaces)
	case 3:
		// around the limit
		n := r.Range(240, 262)
		var sb strings.Builder
		for sb.Len() == 0 || gen.EscapedLen(sb.String()) < n {
			sb.WriteString(mon.Pick(r, "a", "b", "&", "<", ">", "|", "é"))
		}
		s = sb.String()
	default:
		s = hostileText(r, 60, "")
		if r.P(4, 5) {
			s = strings.Map(func(c rune) rune {
				if strings.ContainsRune(badName, c) {
					return -1
				}
				return c
			}, s)
		}
	}
	if !spaces {
		s = strings.Replace(s, " ", "", -1)
	}
	if s == "" {
		s = "n"
	}
	return s
}

func hostileGen(r *mon.Rand) *nGen {
	g := newNGen(r)
	g.text = func(max int, not string) string { return hostileText(r, max, not) }
	g.name = func(spaces bool) string { return hostileName(r, spaces) }
	return g
}

// names returns names put into a message.
func namesOf(m nmdc.Message) []string {
	switch m := m.(type) {
	case *nmdc.ChatMessage:
		if m.Name == "" {
			return nil
		}
		return []string{m.Name}
	case *nmdc.PrivateMessage:
		return []string{m.To, m.From, m.Name}
	case *nmdc.MCTo:
		return []string{m.To, m.From}
	case *nmdc.Kick, *nmdc.Close, *nmdc.ValidateNick, *nmdc.ValidateDenide, *nmdc.MyNick, *nmdc.Quit, *nmdc.LogedIn, *nmdc.Hello:
		return []string{flat(m)["value"]}
	case *nmdc.MyINFO:
		return []string{m.Name}
	case *nmdc.ConnectToMe:
		if m.Kind == nmdc.CTMPassiveReq {
			return []string{m.Targ, m.Src}
		}
		return []string{m.Targ}
	case *nmdc.RevConnectToMe:
		return []string{m.From, m.To}
	case *nmdc.Search:
		if m.Address != "" {
			return nil
		}
		return []string{m.User}
	case *nmdc.SR:
		if m.To == "" {
			return []string{m.From}
		}
		return []string{m.From, m.To}
	case *nmdc.TTHSearchPassive:
		return []string{m.User}
	case *nmdc.OpList:
		return m.Names
	case *nmdc.BotList:
		return m.Names
	case *nmdc.UserIP:
		var out []string
		for _, a := range m.List {
			out = append(out, a.Name)
		}
		return out
	}
	return nil
}

var c08Encs = []encoding.Encoding{charmap.Windows1251, charmap.Windows1252, simplifiedchinese.GBK}

// joinPath makes a single value of a path, since its elements may have separators.
func joinPath(r ref.Rec) ref.Rec {
	out := ref.Rec{}
	var arr []string
	for i := 0; ; i++ {
		s, ok := r[fmt.Sprintf("path[%d]", i)]
		if !ok {
			break
		}
		arr = append(arr, s)
	}
	for k, v := range r {
		if !strings.HasPrefix(k, "path") {
			out[k] = v
		}
	}
	if _, ok := r["path#"]; ok {
		out["path"] = strings.Join(arr, "\\")
	}
	return out
}

func hasLegacy(r ref.Rec) bool {
	for _, v := range r {
		if strings.Contains(v, "/%DCN") || !utf8.ValidString(v) {
			return true
		}
	}
	return false
}

// checkWire checks that the bytes are exactly one message with the fields that were put in.
func checkWire(t *mon.T, m, want nmdc.Message, wire []byte, e encoding.Encoding) {
	t.Eval(1)
	if n := bytes.Count(wire, []byte("|")); n != 1 || wire[len(wire)-1] != '|' {
		t.Failf("breakout", "%d delimiters: %s for %s", n, q(wire), dump(m))
	}
	if bytes.IndexByte(wire, 0) >= 0 {
		t.Failf("nul", "NUL is sent: %s for %s", q(wire), dump(m))
	}
	typ := m.Type()
	if typ != "" && !bytes.HasPrefix(wire, []byte("$"+typ+" ")) && string(wire) != "$"+typ+"|" {
		t.Failf("command", "not a %s command: %s", typ, q(wire))
	}
	if typ == "" && wire[0] == '$' {
		t.Failf("command", "chat message became a command: %s", q(wire))
	}
	if c, ok := m.(*nmdc.ChatMessage); ok && c.Name == "" {
		return // shown as is
	}
	cmd, rec, err := ref.NMDC(string(wire))
	if err != nil {
		t.Failf("malformed", "independent parser: %v: %s for %s", err, q(wire), dump(m))
	}
	if cmd != typ {
		t.Failf("command", "independent parser: command %q, expected %q", cmd, typ)
	}
	npath := rec["path#"]
	rec = joinPath(rec) // a multi-byte character may look like a separator
	if e != nil {
		d := e.NewDecoder()
		for k, v := range rec {
			s, err := d.String(v)
			if err != nil {
				t.Failf("malformed", "cannot decode %q: %v", v, err)
			}
			rec[k] = s
		}
	}
	if e == nil {
		if uc, ok := m.(*nmdc.UserCommand); ok && npath != u(uint64(len(uc.Path))) {
			t.Failf("fields", "%s path elements: %s for %s", npath, q(wire), dump(m))
		}
	}
	wrec := joinPath(flat(want))
	if g, w := rec.String(), wrec.String(); g != w {
		t.Failf("fields", "independent parser sees other fields:\n got %s\nwant %s\nwire %s", g, w, q(wire))
	}
	// this library as a receiver
	if hasLegacy(wrec) {
		return
	}
	var d *nmdc.TextDecoder
	if e != nil {
		d = e.NewDecoder()
	}
	got, err := bigUnmarshal(t.R, d, wire)
	if err != nil {
		t.Failf("receiver", "cannot be received: %v: %s", err, q(wire))
	}
	if fmt.Sprintf("%T", got) != fmt.Sprintf("%T", m) {
		t.Failf("receiver", "received as %T instead of %T: %s", got, m, q(wire))
	}
	if g, w := joinPath(flat(got)).String(), wrec.String(); g != w {
		t.Failf("receiver", "received with other fields:\n got %s\nwant %s\nwire %s", g, w, q(wire))
	}
}

// mustRefuse reports why a message must not be encoded.
func mustRefuse(m nmdc.Message, e encoding.Encoding) string {
	for _, s := range namesOf(m) {
		if strings.ContainsAny(s, badName) {
			return fmt.Sprintf("forbidden characters in the name %q", s)
		}
		if e != nil {
			v, err := e.NewEncoder().String(s)
			if err != nil {
				return fmt.Sprintf("the name %q is not representable", s)
			}
			s = v
		}
		if gen.EscapedLen(s) > 256 {
			return fmt.Sprintf("the name is too long: %q", s)
		}
	}
	return ""
}

func c08Hostile(t *mon.T) {
	r := t.R
	g := hostileGen(r)
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	p := g.pick(typ)
	if sr, ok := p.in.(*nmdc.SR); ok && r.P(1, 3) {
		i := r.Intn(len(sr.Path))
		sr.Path[i] += mon.Pick(r, "\x05", "\\", "/", " 1/2", "\x05tail", "\x051 1/1\x05TTH:x (y)")
		p.want = sr
	}
	var (
		e   encoding.Encoding
		enc *nmdc.TextEncoder
	)
	if typ != "Key" && r.P(1, 4) {
		e = mon.Pick(r, c08Encs...)
		enc = e.NewEncoder()
	}
	wire, err := nmdc.Marshal(enc, p.in)
	why := mustRefuse(p.in, e)
	if err != nil {
		t.Ev("refused", 1)
		if why == "" && e == nil && !strings.Contains(dump(p.in), "\\x00") && typ != "SR" {
			t.Failf("refused", "valid message is refused: %v: %s", err, dump(p.in))
		}
		return
	}
	if why != "" {
		t.Failf("bad-name-sent", "%s: sent as %s", why, q(wire))
	}
	t.Ev("encoded-"+typ, 1)
	checkWire(t, p.in, p.want, wire, e)
	t.Seen(string(wire))
	t.Sample(func() string { return q(wire) })
}

// c08Scale has long texts with separators at interesting offsets, and long lists.
func c08Scale(t *mon.T) {
	r := t.R
	g := scaleNGen(r, scaleBytes(r))
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	p := g.pick(typ)
	wire, err := nmdc.Marshal(nil, p.in)
	if err != nil {
		t.Failf("refused", "valid message is refused: %v: %s", err, dump(p.in))
	}
	t.Ev("encoded-"+typ, 1)
	checkWire(t, p.in, p.want, wire, nil)
	t.Seen(string(wire))
}

// c08Names checks name validation in each place where a name is used.
func c08Names(t *mon.T) {
	r := t.R
	place := t.Index % 26
	k := t.Index / 26
	name := ""
	if k < 60 {
		// forbidden character at a position
		base := []byte(mon.Pick(r, "nick", "x", "[OP]some&body", strings.Repeat("n", 100)))
		pos := []int{0, len(base), len(base) / 2}[k%3]
		c := badName[(k/3)%len(badName)]
		name = string(base[:pos]) + string([]byte{c}) + string(base[pos:])
	} else {
		// lengths around the limit
		n := 250 + (k-60)%14
		sp := mon.Pick(r, "&", "<", ">", "|", "a", "&<>|")
		for i := 0; gen.EscapedLen(name) < n; i++ {
			c := string(sp[i%len(sp)])
			if gen.EscapedLen(name+c) > n {
				c = "b"
			}
			name += c
		}
	}
	m := nameAt(place, name)
	bad := strings.ContainsAny(name, badName) || gen.EscapedLen(name) > 256
	wire, err := nmdc.Marshal(nil, m)
	t.Eval(1)
	if bad && err == nil {
		t.Failf("bad-name-sent", "name %q (%d bytes escaped) is accepted: %s", name, gen.EscapedLen(name), q(wire))
	}
	if !bad {
		if err != nil {
			t.Failf("refused", "valid name %q (%d bytes escaped) is refused: %v", name, gen.EscapedLen(name), err)
		}
		checkWire(t, m, m, wire, nil)
	}
	t.Ev(fmt.Sprintf("bad-%v", bad), 1)
	t.Seen(fmt.Sprint(place, name))
}

func nameAt(place int, s string) nmdc.Message {
	n := nmdc.Name(s)
	switch place {
	case 0:
		return &nmdc.ChatMessage{Name: s, Text: "x"}
	case 1:
		return &nmdc.PrivateMessage{To: s, From: "a", Name: "a", Text: "x"}
	case 2:
		return &nmdc.PrivateMessage{To: "a", From: s, Name: "a", Text: "x"}
	case 3:
		return &nmdc.PrivateMessage{To: "a", From: "a", Name: s, Text: "x"}
	case 4:
		return &nmdc.MCTo{To: s, From: "a", Text: "x"}
	case 5:
		return &nmdc.MCTo{To: "a", From: s, Text: "x"}
	case 6:
		return &nmdc.Kick{Name: n}
	case 7:
		return &nmdc.Close{Name: n}
	case 8:
		return &nmdc.ValidateNick{Name: n}
	case 9:
		return &nmdc.ValidateDenide{Name: n}
	case 10:
		return &nmdc.MyNick{Name: n}
	case 11:
		return &nmdc.Quit{Name: n}
	case 12:
		return &nmdc.LogedIn{Name: n}
	case 13:
		return &nmdc.Hello{Name: n}
	case 14:
		return &nmdc.MyINFO{Name: s, Flag: 1}
	case 15:
		return &nmdc.ConnectToMe{Targ: s, Address: "1.1.1.1:1"}
	case 16:
		return &nmdc.ConnectToMe{Targ: "a", Src: s, Kind: nmdc.CTMPassiveReq, Address: "1.1.1.1:1"}
	case 17:
		return &nmdc.RevConnectToMe{From: s, To: "a"}
	case 18:
		return &nmdc.RevConnectToMe{From: "a", To: s}
	case 19:
		return &nmdc.Search{User: s, DataType: 1, Pattern: "x", IsMaxSize: true}
	case 20:
		return &nmdc.SR{From: s, Path: []string{"p"}, HubName: "h", HubAddress: "1.1.1.1"}
	case 21:
		return &nmdc.SR{From: "a", Path: []string{"p"}, HubName: "h", HubAddress: "1.1.1.1", To: s}
	case 22:
		return &nmdc.TTHSearchPassive{User: s}
	case 23:
		return &nmdc.OpList{Names: nmdc.Names{"a", s, "b"}}
	case 24:
		return &nmdc.BotList{Names: nmdc.Names{s}}
	default:
		return &nmdc.UserIP{List: []nmdc.UserAddress{{Name: s, IP: "1.1.1.1"}}}
	}
}

// c08Writer checks that the stream has exactly the messages that were accepted.
func c08Writer(t *mon.T) {
	r := t.R
	g := hostileGen(r)
	out := gen.NewWriter()
	w := nmdc.NewWriterSize(out, mon.Pick(r, bufSizes...))
	var sent []string
	for i, n := 0, 1+r.Intn(15); i < n; i++ {
		p := g.any()
		if _, ok := p.in.(*nmdc.ZOn); ok {
			continue
		}
		if raw, ok := p.in.(*nmdc.RawMessage); ok {
			raw.Data = bytes.Replace(raw.Data, []byte("|"), nil, -1)
		}
		err := w.WriteMsg(p.in)
		if err == nil {
			if why := mustRefuse(p.in, nil); why != "" {
				t.Failf("bad-name-sent", "%s: %s", why, dump(p.in))
			}
			sent = append(sent, p.in.Type())
		} else {
			t.Ev("refused", 1)
		}
	}
	if err := w.Close(); err != nil {
		t.Failf("close", "Close after refused messages: %v", err)
	}
	lines := strings.SplitAfter(out.Buf.String(), "|")
	if lines[len(lines)-1] != "" {
		t.Failf("breakout", "unterminated data is sent: %q", lines[len(lines)-1])
	}
	lines = lines[:len(lines)-1]
	t.Eval(len(lines))
	if len(lines) != len(sent) {
		t.Failf("breakout", "%d messages are accepted, but the stream has %d: %s", len(sent), len(lines), q(out.Bytes()))
	}
	for i, l := range lines {
		if typ := sent[i]; typ == "" {
			if l[0] == '$' {
				t.Failf("command", "chat message %d became a command: %q", i, l)
			}
		} else if !strings.HasPrefix(l, "$"+typ+" ") && l != "$"+typ+"|" {
			t.Failf("command", "message %d is not a %s: %q", i, typ, l)
		}
	}
	t.Ev("sent", len(sent))
	t.Seen(out.Buf.String())
}

// everyString calls fnc for each string of a message.
func everyString(v reflect.Value, fnc func(s string) string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			everyString(v.Elem(), fnc)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				everyString(v.Field(i), fnc)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(fnc(string(v.Bytes()))))
			return
		}
		for i := 0; i < v.Len(); i++ {
			everyString(v.Index(i), fnc)
		}
	case reflect.Map:
		if v.Type() != reflect.TypeOf(map[string]string{}) {
			return
		}
		m := make(map[string]string)
		for _, k := range v.MapKeys() {
			m[fnc(k.String())] = fnc(v.MapIndex(k).String())
		}
		v.Set(reflect.ValueOf(m))
	case reflect.String:
		if v.CanSet() {
			v.SetString(fnc(v.String()))
		}
	}
}

// c08Every puts delimiters to any string of a message.
func c08Every(t *mon.T) {
	r := t.R
	g := newNGen(r)
	p := g.pick(nmdcTypes[t.Index%len(nmdcTypes)])
	if t.Index%23 == 0 {
		p.in = &nmdc.RawMessage{Typ: "Foo", Data: []byte(mon.Pick(r, "", "a", "a b", "\xff\x01$ \r\n"))}
	}
	m := p.in
	n := 0
	everyString(reflect.ValueOf(m), func(s string) string {
		if !r.P(1, 2) {
			return s
		}
		n++
		i := r.Intn(len(s) + 1)
		return s[:i] + mon.Pick(r, "|", "||", "|$Quit bob", "|$Kick bob|", "|<bob> hi", "\x00", "|\x00", "$", "$Quit bob", "\r\n|", " |", "| ", "&#124;", "&#0;", "/%DCN124%/", "/%DCN000%/") + s[i:]
	})
	typ := m.Type()
	check := func(wire string) {
		t.Eval(1)
		if strings.Count(wire, "|") != 1 || wire[len(wire)-1] != '|' {
			t.Failf("breakout", "%d delimiters: %q for %s", strings.Count(wire, "|"), wire, dump(m))
		}
		if strings.IndexByte(wire, 0) >= 0 {
			t.Failf("nul", "NUL is sent: %q for %s", wire, dump(m))
		}
		if typ != "" && !strings.HasPrefix(wire, "$"+typ+" ") && wire != "$"+typ+"|" {
			t.Failf("command", "not a %s command: %q", typ, wire)
		}
		if typ == "" && wire[0] == '$' && strings.HasPrefix(dump(m), "nmdc.Chat") {
			t.Failf("command", "chat message became a command: %q", wire)
		}
	}
	var enc *nmdc.TextEncoder
	if r.P(1, 4) {
		enc = mon.Pick(r, c08Encs...).NewEncoder()
	}
	wire, err := nmdc.Marshal(enc, m)
	if err != nil {
		t.Ev("refused", 1)
		if n == 0 && enc == nil {
			t.Failf("refused", "valid message is refused: %v: %s", err, dump(m))
		}
	} else {
		check(string(wire))
		t.Ev("encoded", 1)
	}
	t.Seen(fmt.Sprint(typ, string(wire), err))
	if _, ok := m.(*nmdc.ZOn); ok {
		return
	}
	out := gen.NewWriter()
	w := nmdc.NewWriterSize(out, mon.Pick(r, bufSizes...))
	w.SetEncoder(enc)
	if err2 := w.WriteMsg(&nmdc.GetPass{}); err2 != nil {
		t.Failf("writer", "a message is refused: %v", err2)
	}
	err2 := w.WriteMsg(m)
	if (err == nil) != (err2 == nil) {
		t.Failf("writer", "Marshal: %v, WriteMsg: %v, for %s", err, err2, dump(m))
	}
	if err := w.WriteMsg(&nmdc.GetPass{}); err != nil {
		t.Failf("writer", "a message is refused after %v: %v", err2, err)
	}
	if err := w.Close(); err != nil {
		t.Failf("writer", "Close: %v", err)
	}
	const pass = "$GetPass|"
	s := out.Buf.String()
	if !strings.HasPrefix(s, pass) || !strings.HasSuffix(s[len(pass):], pass) {
		t.Failf("writer", "messages around %s are changed: %q", dump(m), s)
	}
	if s = s[len(pass) : len(s)-len(pass)]; err2 != nil {
		if s != "" {
			t.Failf("writer", "refused message is sent as %q: %s", s, dump(m))
		}
		return
	}
	check(s)
}
