package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

// aField describes a field of an ADC message as documented: a tag, a field of the Go type, a kind and if it is required.
// Kinds: s text, i number, b flag, c/h hash, C/H optional hash, d/D session id, f feature list, r repeated text, p path.
type aField struct {
	tag, name string
	kind      byte
	req       bool
}

type aSpec struct {
	cmd string
	new func() interface{}
	pos []aField
	nam []aField
}

var aSpecs = []aSpec{
	{cmd: "MSG", new: func() interface{} { return &adc.ChatMessage{} },
		pos: []aField{{"", "Text", 's', true}},
		nam: []aField{{"PM", "PM", 'D', false}, {"ME", "Me", 'b', false}, {"TS", "TS", 'i', false}}},
	{cmd: "RCM", new: func() interface{} { return &adc.RevConnectRequest{} },
		pos: []aField{{"", "Proto", 's', true}, {"", "Token", 's', true}}},
	{cmd: "CTM", new: func() interface{} { return &adc.ConnectRequest{} },
		pos: []aField{{"", "Proto", 's', true}, {"", "Port", 'i', true}, {"", "Token", 's', true}}},
	{cmd: "GFI", new: func() interface{} { return &adc.GetInfoRequest{} },
		pos: []aField{{"", "Type", 's', true}, {"", "Path", 's', true}}},
	{cmd: "CMD", new: func() interface{} { return &adc.UserCommand{} },
		pos: []aField{{"", "Path", 'p', true}},
		nam: []aField{{"TT", "Command", 's', false}, {"CT", "Category", 'i', false}, {"RM", "Remove", 'i', false}, {"CO", "Constrained", 'i', false}, {"SP", "Separator", 'i', false}}},
	{cmd: "PAS", new: func() interface{} { return &adc.Password{} },
		pos: []aField{{"", "Hash", 'h', true}}},
	{cmd: "QUI", new: func() interface{} { return &adc.Disconnect{} },
		pos: []aField{{"", "ID", 'd', true}},
		nam: []aField{{"MS", "Message", 's', false}, {"ID", "By", 'd', false}, {"TL", "Duration", 'i', false}, {"RD", "Redirect", 's', false}}},
	{cmd: "SCH", new: func() interface{} { return &adc.SearchRequest{} },
		nam: []aField{{"TO", "Token", 's', false}, {"AN", "And", 'r', false}, {"NO", "Not", 'r', false}, {"EX", "Ext", 'r', false},
			{"LE", "Le", 'i', false}, {"GE", "Ge", 'i', false}, {"EQ", "Eq", 'i', false}, {"TY", "Type", 'i', false},
			{"TR", "TTH", 'H', false}, {"GR", "Group", 'i', false}, {"RX", "NoExt", 'r', false}}},
	{cmd: "RES", new: func() interface{} { return &adc.SearchResult{} },
		nam: []aField{{"TO", "Token", 's', false}, {"FN", "Path", 's', false}, {"SI", "Size", 'i', false}, {"SL", "Slots", 'i', false}, {"TR", "TTH", 'H', false}}},
	{cmd: "INF", new: func() interface{} { return &adc.UserInfo{} },
		nam: []aField{{"ID", "Id", 'c', false}, {"PD", "Pid", 'C', false}, {"NI", "Name", 's', true}, {"I4", "Ip4", 's', false}, {"I6", "Ip6", 's', false},
			{"U4", "Udp4", 'i', false}, {"U6", "Udp6", 'i', false}, {"SS", "ShareSize", 'i', true}, {"SF", "ShareFiles", 'i', true},
			{"VE", "Version", 's', true}, {"AP", "Application", 's', false}, {"US", "MaxUpload", 's', false}, {"DS", "MaxDownload", 's', false},
			{"SL", "Slots", 'i', true}, {"FS", "SlotsFree", 'i', true}, {"AS", "AutoSlotLimit", 'i', false}, {"EM", "Email", 's', false}, {"DE", "Desc", 's', false},
			{"HN", "HubsNormal", 'i', true}, {"HR", "HubsRegistered", 'i', true}, {"HO", "HubsOperator", 'i', true}, {"TO", "Token", 's', false},
			{"CT", "Type", 'i', false}, {"AW", "Away", 'i', false}, {"RF", "Ref", 's', false}, {"SU", "Features", 'f', true}, {"KP", "KP", 's', false}, {"EA", "Address", 's', false}}},
	{cmd: "INF", new: func() interface{} { return &adc.HubInfo{} },
		nam: []aField{{"NI", "Name", 's', true}, {"VE", "Version", 's', true}, {"AP", "Application", 's', false}, {"DE", "Desc", 's', false}, {"CT", "Type", 'i', false},
			{"HH", "Address", 's', false}, {"WS", "Website", 's', false}, {"NE", "Network", 's', false}, {"OW", "Owner", 's', false}, {"UC", "Users", 'i', false},
			{"SS", "Share", 'i', false}, {"SF", "Files", 'i', false}, {"MS", "MinShare", 'i', false}, {"XS", "MaxShare", 'i', false}, {"ML", "MinSlots", 'i', false},
			{"XL", "MaxSlots", 'i', false}, {"MC", "UsersLimit", 'i', false}, {"UP", "Uptime", 'i', false}, {"XU", "MaxHubsUser", 'i', false}, {"XR", "MaxHubsReg", 'i', false}, {"XO", "MaxHubsOp", 'i', false}}},
	{cmd: "XYZ", new: func() interface{} { return &aCustom{} },
		pos: []aField{{"", "A", 's', true}, {"", "B", 'i', true}, {"", "C", 'd', true}, {"", "D", 'b', true}, {"", "E", 's', true}, {"", "PA", 'o', true}, {"", "PB", 'o', true}},
		nam: []aField{{"AA", "F", 's', false}, {"BB", "G", 's', true}, {"A1", "H", 'i', false}, {"B1", "I", 'i', true}, {"CC", "J", 'i', false}, {"DD", "K", 'i', false},
			{"EE", "L", 'D', false}, {"FF", "M", 'r', false}, {"GG", "N", 'b', false}, {"HH", "O", 'b', true}, {"II", "P", 'x', false}, {"JJ", "Q", 'n', false}, {"KK", "R", 'm', false}, {"LL", "S", 'q', false}, {"MM", "T", 's', false}, {"X", "U", 's', false}, {"LONG", "V", 's', false},
			{"NN", "W", 'w', false}, {"OO", "X", 'l', false}, {"PP", "PC", 'o', true}, {"QQ", "PD", 'o', true}, {"RR", "PE", 'o', true}}},
}

// aCustom is a message type of a caller.
type aCustom struct {
	A  string        `adc:"#"`
	B  int32         `adc:"#"`
	C  adc.SID       `adc:"#"`
	Z  int           // not on the wire
	Y  string        `adc:"-"`
	D  bool          `adc:"#"`
	E  adc.String    `adc:"#"`
	PA *adc.SID      `adc:"#"`
	PB *int32        `adc:"#"`
	F  string        `adc:"AA"`
	G  string        `adc:"BB,req"`
	H  int16         `adc:"A1"`
	I  int32         `adc:"B1,req"`
	J  int64         `adc:"CC"`
	K  int           `adc:"DD"`
	L  *adc.SID      `adc:"EE"`
	M  []string      `adc:"FF"`
	N  bool          `adc:"GG"`
	O  adc.BoolInt   `adc:"HH,req"`
	P  *int          `adc:"II"`
	Q  []int64       `adc:"JJ"`
	R  []adc.Feature `adc:"KK"`
	S  *string       `adc:"LL"`
	T  adc.String    `adc:"MM"`
	U  string        `adc:"X"`
	V  string        `adc:"LONG"`

	W adc.ModFeatures `adc:"NN"`
	X aList           `adc:"OO"`

	// nothing is written for nil pointers of required parameters
	PC *int        `adc:"PP,req"`
	PD *adc.SID    `adc:"QQ,req"`
	PE *tiger.Hash `adc:"RR,req"`
}

// aList is a custom codec of a caller; values of the type cannot be compared.
type aList struct{ Items []string }

func (l aList) MarshalADC(buf *bytes.Buffer) error {
	buf.WriteString(ref.ADCEscape(strings.Join(l.Items, ",")))
	return nil
}

func (l *aList) UnmarshalADC(data []byte) error {
	s, err := ref.ADCUnescape(string(data))
	l.Items = strings.Split(s, ",")
	return err
}

func (aCustom) Cmd() adc.MsgType { return adc.MsgType{'X', 'Y', 'Z'} }

// aMsg is a generated message and its documented wire form.
type aMsg struct {
	cmd  string
	m    adc.Message        // the message to encode
	new  func() interface{} // pointer to a zero value to decode to
	pos  []string           // positional parameters, escaped
	nam  []string           // named parameters, escaped, in order of definition
	tags []string           // known tags
	lax  []string           // optional parameters that were omitted, with a zero value
	any  bool               // the order of parameters is arbitrary
}

func (m *aMsg) wire() string {
	return strings.Join(append(append([]string{}, m.pos...), m.nam...), " ")
}

// aGen makes valid ADC messages.
type aGen struct {
	r    *mon.Rand
	text func() string
	list func(n int) int // replaces a number of elements of a list
	// lastSID is the last generated identifier
	lastSID adc.SID
}

func newAGen(r *mon.Rand) *aGen {
	g := &aGen{r: r, list: func(n int) int { return n }}
	g.text = func() string { return adcText(r) }
	return g
}

// scaleAGen makes messages with big texts or long lists, up to about the given number of bytes.
func scaleAGen(r *mon.Rand, max int) *aGen {
	g := newAGen(r)
	left := max
	short := false
	g.text = func() string {
		if short {
			left -= 4
			return mon.Pick(r, "", "a", "b ", "\\", "\n", "word")
		}
		if r.P(1, 4) {
			return adcText(r)
		}
		s := gen.ScaleText(r, gen.Scale(r, left), "")
		left -= len(s)
		return s
	}
	g.list = func(n int) int {
		if left <= 0 || r.P(1, 6) {
			return n
		}
		short = r.P(3, 4)
		return gen.Scale(r, 1+left/8)
	}
	return g
}

var adcPieces = []string{
	" ", "  ", "\n", "\n\n", "\\", "\\\\", "\\s", "\\n", "\\\\s", "\\ ", "s", "n", "ns", "sn", "\\t", "\\\n", "a", "b", "word", "NI", "ID", "AD", "RM", "+", "-", "/", ",", "+TCP4", "BINF AAAA", "\nIMSG x\n",
	"\r", "\t", "日本", "é", "\xff", "\x80", "\xc3", "0", "1", "-1", "#", "PMAAAA", "FF", "TO", "|", "$", "\x01", "\x7f", "ME1",
}

// adcText is any text without NUL.
func adcText(r *mon.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		b := r.Bytes(gen.Size(r, 400))
		for i := range b {
			if b[i] == 0 {
				b[i] = '\\'
			}
		}
		return string(b)
	case 2:
		return gen.Text(r, 300, "")
	}
	var sb strings.Builder
	for i, n := 0, 1+r.Intn(8); i < n; i++ {
		sb.WriteString(mon.Pick(r, adcPieces...))
	}
	return sb.String()
}

func (g *aGen) sid() (id adc.SID) {
	// messages often refer to the same user twice
	if g.lastSID != (adc.SID{}) && g.r.P(1, 6) {
		return g.lastSID
	}
	defer func() { g.lastSID = id }()
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	for i := range id {
		id[i] = alpha[g.r.Intn(32)]
	}
	return
}

func (g *aGen) hash() (h tiger.Hash) {
	g.r.Fill(h[:])
	switch g.r.Intn(8) {
	case 0:
		h = tiger.Hash{}
	case 1:
		for i := range h {
			h[i] = 0xff
		}
	}
	return
}

func (g *aGen) fea() (f adc.Feature) {
	r := g.r
	s := mon.Pick(r, "TCP4", "UDP4", "SEGA", "ADC0", "NAT0", "BASE", "TIGR", "ZLIF", "A\\sB", "+-+-", "日x", "\xff\xfe\xfd\xfc", "abcd", "ADRM", "RMAD", "\\\\\\\\")
	if r.Bool() {
		s = string([]byte{byte('A' + r.Intn(26)), byte('A' + r.Intn(26)), byte('A' + r.Intn(26)), byte('0' + r.Intn(10))})
	}
	copy(f[:], s)
	return
}

// wire escapes a feature: it is sent as it is.
func (g *aGen) feaPlain() (f adc.Feature) {
	for {
		f = g.fea()
		if !strings.ContainsAny(string(f[:]), "\\") {
			return
		}
	}
}

func (g *aGen) int(bits int) int64 {
	r := g.r
	max := int64(1)<<uint(bits-1) - 1
	v := mon.Pick(r, 0, 0, 1, 1, 2, 3, 9, 10, 100, -1, -10, max, max-1, -max, -max-1, int64(r.Intn(1000)), int64(r.U64()), int64(r.U64())>>32, 1<<31, 1<<53+1, 1<<62+1)
	if bits < 64 {
		v = v << uint(64-bits) >> uint(64-bits)
	}
	return v
}

// bool2 converts flags.
func bool2(v bool) string {
	if v {
		return "1"
	}
	return "0"
}

// set assigns a random value to the field and returns its wire forms and if it is a zero value.
func (g *aGen) set(f aField, v reflect.Value, zero bool) (wire []string, isZero bool) {
	r := g.r
	one := func(s string) ([]string, bool) { return []string{f.tag + s}, v.IsZero() }
	switch f.kind {
	case 's':
		if !zero {
			v.SetString(g.text())
		}
		return one(ref.ADCEscape(v.String()))
	case 'i':
		if !zero {
			v.SetInt(g.int(v.Type().Bits()))
		}
		return one(strconv.FormatInt(v.Int(), 10))
	case 'b':
		if !zero {
			v.SetBool(r.Bool())
		}
		return one(bool2(v.Bool()))
	case 'h', 'c':
		var h tiger.Hash
		if !zero {
			h = g.hash()
		}
		v.Set(reflect.ValueOf(h).Convert(v.Type()))
		return one(b32(h[:]))
	case 'H', 'C':
		if zero {
			return nil, true
		}
		h := g.hash()
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(reflect.ValueOf(h).Convert(v.Type().Elem()))
		v.Set(p)
		return one(b32(h[:]))
	case 'd':
		if zero && f.tag != "" {
			return nil, true
		}
		id := g.sid()
		v.Set(reflect.ValueOf(id))
		return one(string(id[:]))
	case 'D':
		if zero {
			return nil, true
		}
		id := g.sid()
		v.Set(reflect.ValueOf(&id))
		return one(string(id[:]))
	case 'f':
		var arr adc.ExtFeatures
		if !zero {
			for i, n := 0, g.list(r.Intn(5)); i < n; i++ {
				f := g.feaPlain()
				if strings.Contains(string(f[:]), ",") {
					continue
				}
				arr = append(arr, f)
			}
		}
		var ss []string
		for _, f := range arr {
			ss = append(ss, string(f[:]))
		}
		v.Set(reflect.ValueOf(arr))
		return one(strings.Join(ss, ","))
	case 'r':
		n := g.list(mon.Pick(r, 0, 1, 1, 2, 3, 5, r.Intn(40)))
		if zero {
			n = 0
		}
		for i := 0; i < n; i++ {
			s := g.text()
			v.Set(reflect.Append(v, reflect.ValueOf(s)))
			wire = append(wire, f.tag+ref.ADCEscape(s))
		}
		return wire, n == 0
	case 'p':
		var ss []string
		for i, n := 0, 1+g.list(r.Intn(5)); i < n; i++ {
			s := strings.Replace(g.text(), "/", "", -1)
			v.Set(reflect.Append(v, reflect.ValueOf(s)))
			ss = append(ss, ref.ADCEscape(s))
		}
		return one(strings.Join(ss, "/"))
	case 'x':
		if zero {
			return nil, true
		}
		n := int(g.int(64))
		v.Set(reflect.ValueOf(&n))
		return one(strconv.Itoa(n))
	case 'o':
		if zero {
			return []string{f.tag}, true
		}
		p := reflect.New(v.Type().Elem())
		w := ""
		switch p := p.Interface().(type) {
		case *adc.SID:
			*p = g.sid()
			w = string(p[:])
		case *tiger.Hash:
			*p = g.hash()
			w = b32(p[:])
		case *int32:
			*p = int32(g.int(32))
			w = strconv.Itoa(int(*p))
		case *int:
			*p = int(g.int(64))
			w = strconv.Itoa(*p)
		}
		v.Set(p)
		return one(w)
	case 'q':
		s := g.text()
		if zero || s == "" {
			return nil, true
		}
		v.Set(reflect.ValueOf(&s))
		return one(ref.ADCEscape(s))
	case 'n':
		n := g.list(r.Intn(4))
		if zero {
			n = 0
		}
		for i := 0; i < n; i++ {
			x := g.int(64)
			v.Set(reflect.Append(v, reflect.ValueOf(x)))
			wire = append(wire, f.tag+strconv.FormatInt(x, 10))
		}
		return wire, n == 0
	case 'm':
		n := g.list(r.Intn(4))
		if zero {
			n = 0
		}
		for i := 0; i < n; i++ {
			x := g.feaPlain()
			v.Set(reflect.Append(v, reflect.ValueOf(x)))
			wire = append(wire, f.tag+string(x[:]))
		}
		return wire, n == 0
	case 'w':
		if zero {
			return nil, true
		}
		x := g.feaPlain()
		add := r.Bool()
		v.Set(reflect.ValueOf(adc.ModFeatures{x: add}))
		if add {
			return one("AD" + string(x[:]))
		}
		return one("RM" + string(x[:]))
	case 'l':
		if zero {
			return nil, true
		}
		l := aList{Items: []string{"x"}}
		for i, n := 0, g.list(r.Intn(3)); i < n; i++ {
			l.Items = append(l.Items, strings.Replace(g.text(), ",", "", -1))
		}
		v.Set(reflect.ValueOf(l))
		return one(ref.ADCEscape(strings.Join(l.Items, ",")))
	}
	panic("kind " + string(f.kind))
}

func (g *aGen) spec(s aSpec) *aMsg {
	r := g.r
	out := &aMsg{cmd: s.cmd, new: s.new}
	p := s.new()
	v := reflect.ValueOf(p).Elem()
	if len(s.nam) == 0 {
		out.tags = noTags
	}
	mode := r.Intn(4) // 0: everything, 1: nothing, other: random
	for _, f := range s.pos {
		zero := mode == 1 || mode > 1 && r.P(1, 4)
		w, _ := g.set(f, v.FieldByName(f.name), zero)
		out.pos = append(out.pos, w...)
	}
	for _, f := range s.nam {
		zero := mode == 1 || mode > 1 && r.P(1, 2)
		w, isZero := g.set(f, v.FieldByName(f.name), zero)
		out.tags = append(out.tags, f.tag)
		if !isZero || f.req {
			out.nam = append(out.nam, w...)
		} else if f.kind == 'i' || f.kind == 's' || f.kind == 'b' {
			out.lax = append(out.lax, w...)
		}
	}
	if r.Bool() {
		out.m = p.(adc.Message)
	} else {
		out.m = v.Interface().(adc.Message)
	}
	return out
}

// noTags is for messages without named parameters: unknown ones may still follow.
var noTags = []string{"\xff\xff"}

// custom codecs
var aSpecials = map[string]func(g *aGen) *aMsg{
	"SUP": func(g *aGen) *aMsg {
		out := &aMsg{cmd: "SUP", new: func() interface{} { return &adc.Supported{} }, any: true, tags: []string{"AD", "RM"}}
		m := adc.Supported{Features: adc.ModFeatures{}}
		for i, n := 0, g.list(g.r.Intn(8)); i < n; i++ {
			f := g.feaPlain()
			if _, ok := m.Features[f]; ok {
				continue
			}
			m.Features[f] = g.r.P(3, 4)
			if m.Features[f] {
				out.nam = append(out.nam, "AD"+string(f[:]))
			} else {
				out.nam = append(out.nam, "RM"+string(f[:]))
			}
		}
		out.m = m
		return out
	},
	"STA": func(g *aGen) *aMsg {
		r := g.r
		// the description may be followed by parameters (FC, TL, FM, ...), which the library does not know
		m := adc.Status{Sev: adc.Severity(mon.Pick(r, 0, 1, 2, 2, 3, 9)), Code: mon.Pick(r, 0, 1, 9, 10, 51, 99, r.Intn(100)), Msg: g.text()}
		return &aMsg{cmd: "STA", m: m, new: func() interface{} { return &adc.Status{} }, tags: noTags,
			pos: []string{fmt.Sprintf("%d%02d", int(m.Sev), m.Code), ref.ADCEscape(m.Msg)}}
	},
	"ZON": func(g *aGen) *aMsg {
		return &aMsg{cmd: "ZON", m: adc.ZOn{}, new: func() interface{} { return &adc.ZOn{} }}
	},
	"ZOF": func(g *aGen) *aMsg {
		return &aMsg{cmd: "ZOF", m: &adc.ZOff{}, new: func() interface{} { return &adc.ZOff{} }}
	},
	"SID": func(g *aGen) *aMsg {
		m := adc.SIDAssign{SID: g.sid()}
		return &aMsg{cmd: "SID", m: m, new: func() interface{} { return &adc.SIDAssign{} }, pos: []string{string(m.SID[:])}}
	},
	"GPA": func(g *aGen) *aMsg {
		m := adc.GetPassword{Salt: g.r.Bytes(g.list(g.r.Intn(40)))}
		return &aMsg{cmd: "GPA", m: m, new: func() interface{} { return &adc.GetPassword{} }, pos: []string{b32(m.Salt)}}
	},
	"GET": func(g *aGen) *aMsg {
		m := adc.GetRequest{Type: g.text(), Path: g.text(), Start: g.int(64), Bytes: g.int(64), Compressed: g.r.Bool()}
		return &aMsg{cmd: "GET", m: m, new: func() interface{} { return &adc.GetRequest{} }, pos: getPos(m)}
	},
	"SND": func(g *aGen) *aMsg {
		m := adc.GetResponse{Type: g.text(), Path: g.text(), Start: g.int(64), Bytes: g.int(64), Compressed: g.r.Bool()}
		return &aMsg{cmd: "SND", m: &m, new: func() interface{} { return &adc.GetResponse{} }, pos: getPos(adc.GetRequest(m))}
	},
	"INF-mod": func(g *aGen) *aMsg {
		out := &aMsg{cmd: "INF", new: func() interface{} { return &adc.UserInfoMod{} }, any: false}
		var m adc.UserInfoMod
		for i, n := 0, g.list(mon.Pick(g.r, 0, 1, 2, 5, g.r.Intn(40))); i < n; i++ {
			f := adc.Field{Value: g.text()}
			copy(f.Tag[:], mon.Pick(g.r, "NI", "ID", "DE", "SS", "+a", "\xff\xfe", "é", "A1", "//", "sn"))
			m = append(m, f)
			out.pos = append(out.pos, string(f.Tag[:])+ref.ADCEscape(f.Value))
		}
		out.m = m
		return out
	},
}

func getPos(m adc.GetRequest) []string {
	out := []string{ref.ADCEscape(m.Type), ref.ADCEscape(m.Path), strconv.FormatInt(m.Start, 10), strconv.FormatInt(m.Bytes, 10)}
	if m.Compressed {
		out = append(out, "ZL1")
	}
	return out
}

var aSpecialNames = []string{"SUP", "STA", "ZON", "ZOF", "SID", "GPA", "GET", "SND", "INF-mod"}

// aTypes is a number of kinds of messages.
func aTypes() int { return len(aSpecs) + len(aSpecialNames) }

func (g *aGen) pick(i int) *aMsg {
	i %= aTypes()
	if i < len(aSpecs) {
		return g.spec(aSpecs[i])
	}
	return aSpecials[aSpecialNames[i-len(aSpecs)]](g)
}

func (g *aGen) any() *aMsg { return g.pick(g.r.Intn(aTypes())) }

// registered reports if the library decodes the command to this type.
func (m *aMsg) registered() bool {
	switch m.new().(type) {
	case *adc.HubInfo, *adc.UserInfoMod, *aCustom:
		return false
	}
	return true
}

// deref returns a value behind a pointer.
func deref(p interface{}) interface{} {
	v := reflect.ValueOf(p)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return v.Elem().Interface()
	}
	return p
}

// raw makes a message with an arbitrary command and payload.
func (g *aGen) raw() *adc.RawMessage {
	r := g.r
	m := &adc.RawMessage{}
	copy(m.Type[:], mon.Pick(r, "INF", "MSG", "ABC", "ZZZ", "123", "日", "\xff\xfe\xfd", "   ", "+a-"))
	switch r.Intn(4) {
	case 0:
	case 1:
		m.Data = []byte(ref.ADCEscape(g.text()))
	default:
		m.Data = []byte(strings.Replace(g.text(), "\n", " ", -1))
	}
	if len(m.Data) == 0 {
		m.Data = nil
	}
	return m
}
