package props

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c26() mon.Property {
	return mon.Property{
		ID: "C26",
		Rule: "Every numeric field of every message of both protocols is listed with its range. A number text (canonical around all powers of two and ten and the limits of the field, huge, signed, zero padded, fractional, exponential, hexadecimal, grouped, non-ASCII digits, empty, junk; plus all texts of up to 3 characters over digits and number punctuation) is put into the wire form of the message; " +
			"math/big decides whether the decoder must return that exact value, may return it or refuse, or must refuse. Values of the whole range of the Go type are also encoded and decoded. Non-trivial: every text; distinct by field and text.",
		Assume: []string{"exponents of ADC float notation are small", "documented lenient defaults: an invalid share size of MyINFO is 0, an empty hub count is 1, a negative size of an NMDC search means unrestricted, a context of a user command ends at the first non-digit, empty values of ADC fields are zero"},
		Monitors: []mon.Monitor{
			{Name: "texts", Quick: 180000, Thorough: 5000000, Run: c26Texts},
			{Name: "short-texts-exhaustive", Quick: len(numFields()) * 17, Thorough: len(numFields()) * 17, Run: c26Short},
			{Name: "limits-exhaustive", Quick: len(numFields()), Thorough: len(numFields()), Run: c26Limits},
			{Name: "encode-decode", Quick: 60000, Thorough: 1000000, Run: c26Encode},
			{Name: "encode-kinds", Quick: 9000, Thorough: 300000, Run: c26Kinds},
		},
	}
}

// numField is a numeric field of a message.
type numField struct {
	name string
	// wire makes a message body with a given text in the field
	wire func(s string) string
	// new makes a message to decode to
	new func() interface{}
	// field is a path of the field in Go
	field  string
	lo, hi *big.Int
	// lenient text kinds
	adc     bool     // decimal notation is accepted; empty is zero
	noEmpty bool     // meaning of an empty text is not checked
	junk0   bool     // invalid values are read as zero
	noNeg   bool     // meaning of negative values is not checked
	noTail  bool     // digits followed by other characters are not checked
	trim    bool     // spaces around are allowed
	skip    []string // values with another meaning
	skipEnc string   // value which is not written as is
	cmd     string
	// set makes a message to encode with a value
	base func() interface{}
	// read gets a value which is not in a single field
	read func(m interface{}) *big.Int
}

func bigInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }

var (
	bigZero = bigInt("0")
	bigOne  = bigInt("1")
	maxI64  = bigInt("9223372036854775807")
	minI64  = bigInt("-9223372036854775808")
	maxU64  = bigInt("18446744073709551615")
)

var numFieldList []*numField

func numFields() []*numField {
	if numFieldList == nil {
		numFieldList = append(nmdcNumFields(), adcNumFields()...)
	}
	return numFieldList
}

func nmdcNumFields() []*numField {
	const tth = "TTH:LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ"
	var out []*numField
	add := func(name, tmpl string, msg func() nmdc.Message, field string, lo, hi *big.Int, opts ...func(*numField)) *numField {
		if strings.Count(tmpl, "@") != 1 {
			panic("bad template: " + tmpl)
		}
		f := &numField{name: "NMDC " + name, field: field, lo: lo, hi: hi, trim: true, cmd: msg().Type(),
			wire: func(s string) string { return strings.Replace(tmpl, "@", s, 1) },
			base: func() interface{} { return msg() },
			new:  func() interface{} { return reflect.New(reflect.TypeOf(msg()).Elem()).Interface() }}
		for _, o := range opts {
			o(f)
		}
		out = append(out, f)
		return f
	}
	get := func() nmdc.Message { return &nmdc.ADCGet{ContentType: "file", Identifier: "id", Start: 1, Length: 2} }
	add("ADCGET start", "file id @ 2", get, "Start", bigZero, maxU64)
	add("ADCGET length", "file id 1 @", get, "Length", bigInt("-1"), maxI64)
	add("ADCGET downloaded", "file id 1 2 DB@", func() nmdc.Message {
		return &nmdc.ADCGet{ContentType: "file", Identifier: "id", Start: 1, Length: 2, DownloadedBytes: new(uint64)}
	}, "DownloadedBytes", bigZero, maxU64)
	add("ADCGET downloaded compressed", "file id 1 2 ZL1 DB@", func() nmdc.Message {
		return &nmdc.ADCGet{ContentType: "file", Identifier: "id", Start: 1, Length: 2, Compressed: true, DownloadedBytes: new(uint64)}
	}, "DownloadedBytes", bigZero, maxU64)
	snd := func() nmdc.Message {
		return &nmdc.ADCSnd{ContentType: "file", Identifier: "id", Start: 1, Length: 2, Compressed: true}
	}
	add("ADCSND start", "file id @ 2 ZL1", snd, "Start", bigZero, maxU64)
	add("ADCSND length", "file id 1 @ ZL1", snd, "Length", bigZero, maxU64)
	add("Direction", "Upload @", func() nmdc.Message { return &nmdc.Direction{Upload: true, Number: 1} }, "Number", bigOne, bigInt("32767"))
	add("Direction download", "Download @", func() nmdc.Message { return &nmdc.Direction{Number: 1} }, "Number", bigOne, bigInt("32767"))
	hub := func() nmdc.Message {
		m := &nmdc.HubINFO{Name: "n", Host: "h", Desc: "d", I1: 1, I2: 2, I3: 3, I4: 4, Owner: "o", State: "s", Encoding: "e"}
		m.Soft.Name, m.Soft.Version = "soft", "1"
		return m
	}
	add("HubINFO 1", "n$h$d$@$2$3$4$soft 1$o$s$e", hub, "I1", minI64, maxI64)
	add("HubINFO 2", "n$h$d$1$@$3$4$soft 1$o$s$e", hub, "I2", minI64, maxI64)
	add("HubINFO 3", "n$h$d$1$2$@$4$soft 1$o$s$e", hub, "I3", minI64, maxI64)
	add("HubINFO 4", "n$h$d$1$2$3$@$soft 1$o$s$e", hub, "I4", minI64, maxI64)
	ucmd := func() nmdc.Message { return &nmdc.UserCommand{Typ: 1, Context: 2, Path: []string{"p"}, Command: "c"} }
	add("UserCommand type", "@ 2 p $c", ucmd, "Typ", minI64, maxI64, func(f *numField) { f.trim = false; f.noNeg = true })
	add("UserCommand context", "1 @ p $c", ucmd, "Context", bigZero, maxI64, func(f *numField) { f.trim = false; f.noTail = true })
	sep := func() nmdc.Message { return &nmdc.UserCommand{Typ: 0, Context: 2} }
	add("UserCommand separator context", "0 @", sep, "Context", bigZero, maxI64, func(f *numField) { f.trim = false; f.noTail = true })
	info := func() nmdc.Message {
		m := &nmdc.MyINFO{Name: "n", Desc: "d", Mode: nmdc.UserModeActive, HubsNormal: 1, HubsRegistered: 2, HubsOperator: 3, Slots: 4, Conn: "c", Flag: 1, Email: "e", ShareSize: 5}
		m.Client.Name, m.Client.Version = "cl", "1"
		return m
	}
	const infoTag = "$ALL n d<cl V:1,M:A,H:%s,S:%s>$ $c\x01$e$%s$"
	it := func(h, s, sh string) string { return fmt.Sprintf(infoTag, h, s, sh) }
	add("MyINFO share", it("1/2/3", "4", "@"), info, "ShareSize", bigZero, maxU64, func(f *numField) { f.junk0 = true; f.noEmpty = true })
	add("MyINFO hubs normal", it("@/2/3", "4", "5"), info, "HubsNormal", minI64, maxI64)
	add("MyINFO hubs registered", it("1/@/3", "4", "5"), info, "HubsRegistered", minI64, maxI64)
	add("MyINFO hubs operator", it("1/2/@", "4", "5"), info, "HubsOperator", minI64, maxI64)
	add("MyINFO slots", it("1/2/3", "@", "5"), info, "Slots", minI64, maxI64)
	f := add("MyINFO hubs", it("@", "4", "5"), info, "HubsNormal", minI64, maxI64, func(f *numField) { f.noEmpty = true })
	f.base = nil // the short form is not written
	search := func() nmdc.Message {
		return &nmdc.Search{Address: "a:1", SizeRestricted: true, IsMaxSize: false, Size: 1, DataType: nmdc.DataTypeVideo, Pattern: "x"}
	}
	add("Search size", "a:1 T?F?@?7?x", search, "Size", bigZero, maxU64, func(f *numField) { f.noNeg = true; f.noEmpty = true })
	add("Search type", "Hub:n F?T?0?@?x", func() nmdc.Message {
		return &nmdc.Search{User: "n", IsMaxSize: true, DataType: nmdc.DataTypeVideo, Pattern: "x"}
	}, "DataType", bigZero, maxU64, func(f *numField) { f.noEmpty = true; f.skip = []string{"9"}; f.skipEnc = "0" })
	sr := func() nmdc.Message {
		return &nmdc.SR{From: "f", Path: []string{"p", "q"}, Size: 1, FreeSlots: 2, TotalSlots: 3, HubName: "hub", HubAddress: "a"}
	}
	add("SR size", "f p\\q\x05@ 2/3\x05hub (a)", sr, "Size", bigZero, maxU64, func(f *numField) { f.trim = false })
	add("SR free slots", "f p\\q\x051 @/3\x05hub (a)", sr, "FreeSlots", minI64, maxI64, func(f *numField) { f.trim = false })
	add("SR total slots", "f p\\q\x051 2/@\x05"+tth+" (a)", func() nmdc.Message {
		m := sr().(*nmdc.SR)
		m.HubName = ""
		h := nmdc.TTH{}
		if err := h.FromBase32(tth[4:]); err != nil {
			panic(err)
		}
		m.TTH = &h
		return m
	}, "TotalSlots", minI64, maxI64, func(f *numField) { f.trim = false })
	dir := func() nmdc.Message {
		return &nmdc.SR{From: "f", Path: []string{"p", "q"}, IsDir: true, FreeSlots: 2, TotalSlots: 3, HubName: "hub", HubAddress: "a"}
	}
	digits := func(f *numField) { f.trim = false; f.noNeg = true; f.noTail = true; f.noEmpty = true; f.junk0 = true }
	add("SR directory free slots", "f p\\q @/3\x05hub (a)", dir, "FreeSlots", bigZero, maxI64, digits)
	add("SR directory total slots", "f p\\q 2/@\x05hub (a)", dir, "TotalSlots", bigZero, maxI64, digits)
	return out
}

func adcNumFields() []*numField {
	var out []*numField
	rng := func(k reflect.Kind) (*big.Int, *big.Int) {
		switch k {
		case reflect.Int16:
			return bigInt("-32768"), bigInt("32767")
		case reflect.Int32:
			return bigInt("-2147483648"), bigInt("2147483647")
		}
		return minI64, maxI64
	}
	for _, s := range aSpecs {
		s := s
		pos := make([]string, len(s.pos))
		for i, f := range s.pos {
			switch f.kind {
			case 'i':
				pos[i] = "1"
			case 'b':
				pos[i] = "1"
			case 'h':
				pos[i] = "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ"
			case 'd':
				pos[i] = "AAAB"
			case 'o':
				pos[i] = ""
			default:
				pos[i] = "x"
			}
		}
		fields := append(append([]aField{}, s.pos...), s.nam...)
		for i, f := range fields {
			i, f := i, f
			if f.kind != 'i' && f.kind != 'x' && f.kind != 'n' {
				continue
			}
			typ := reflect.TypeOf(s.new()).Elem()
			gf, ok := typ.FieldByName(f.name)
			if !ok {
				panic("no field " + f.name)
			}
			kt := gf.Type
			if kt.Kind() == reflect.Ptr || kt.Kind() == reflect.Slice {
				kt = kt.Elem()
			}
			nf := &numField{name: fmt.Sprintf("ADC %v.%s", typ, f.name), field: f.name, adc: true, new: s.new, cmd: s.cmd}
			nf.lo, nf.hi = rng(kt.Kind())
			if i < len(s.pos) {
				nf.wire = func(v string) string {
					p := append([]string{}, pos...)
					p[i] = v
					return strings.Join(p, " ")
				}
			} else {
				nf.wire = func(v string) string { return strings.Join(append(append([]string{}, pos...), f.tag+v), " ") }
			}
			nf.base = func() interface{} {
				m := s.new()
				if err := adc.Unmarshal([]byte(nf.wire("1")), m); err != nil {
					return nil
				}
				return m
			}
			out = append(out, nf)
		}
	}
	get := func() interface{} { return &adc.GetRequest{Type: "file", Path: "p", Start: 1, Bytes: 2} }
	snd := func() interface{} {
		return &adc.GetResponse{Type: "file", Path: "p", Start: 1, Bytes: 2, Compressed: true}
	}
	plain := func(cmd, tmpl, field string, base func() interface{}) {
		f := &numField{name: "ADC " + cmd + " " + field, field: field, cmd: cmd, base: base, lo: minI64, hi: maxI64,
			wire: func(s string) string { return strings.Replace(tmpl, "@", s, 1) },
			new:  func() interface{} { return reflect.New(reflect.TypeOf(base()).Elem()).Interface() }}
		out = append(out, f)
	}
	plain("GET", "file p @ 2", "Start", get)
	plain("GET", "file p 1 @", "Bytes", get)
	plain("SND", "file p @ 2 ZL1", "Start", snd)
	plain("SND", "file p 1 @ ZL1", "Bytes", snd)
	sta := func() interface{} { return &adc.Status{Sev: adc.Recoverable, Code: 1, Msg: "m"} }
	for _, tmpl := range []string{"@ m", "@"} {
		plain("STA", tmpl, "severity and code of "+tmpl, sta)
		f := out[len(out)-1]
		f.base = nil // two fields; written values are checked by C13
		f.new = func() interface{} { return &adc.Status{Sev: 3, Code: 7, Msg: "old"} }
		f.read = func(m interface{}) *big.Int {
			st := m.(*adc.Status)
			n := big.NewInt(int64(st.Sev))
			return n.Mul(n, big.NewInt(100)).Add(n, big.NewInt(int64(st.Code)))
		}
	}
	return out
}

// num reads the field.
func (f *numField) num(m interface{}) (*big.Int, bool) {
	if f.read != nil {
		return f.read(m), true
	}
	v := reflect.ValueOf(m).Elem().FieldByName(f.field)
	for {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return nil, false
			}
			v = v.Elem()
			continue
		case reflect.Slice:
			if v.Len() != 1 {
				return nil, false
			}
			v = v.Index(0)
			continue
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return new(big.Int).SetUint64(v.Uint()), true
		}
		return big.NewInt(v.Int()), true
	}
}

func (f *numField) setNum(m interface{}, n *big.Int) {
	v := reflect.ValueOf(m).Elem().FieldByName(f.field)
	for {
		switch v.Kind() {
		case reflect.Ptr:
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
			continue
		case reflect.Slice:
			v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			v = v.Index(0)
			continue
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(n.Uint64())
		default:
			v.SetInt(n.Int64())
		}
		return
	}
}

type verdict int

const (
	numRefuse verdict = iota
	numMay
	numMust
	numAny
)

func onlyDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

// judge decides what the decoder has to do with a text.
func (f *numField) judge(s string) (verdict, *big.Int) {
	bad := numRefuse
	t := s
	may := false
	if f.trim {
		if t = strings.Trim(s, " "); t != s {
			may = true
		}
	}
	if t == "" {
		if f.noEmpty {
			return numAny, nil
		}
		if f.adc {
			return numMay, bigZero
		}
		return bad, nil
	}
	neg, d := false, t
	sign := false
	if d[0] == '-' || d[0] == '+' {
		neg, sign, d = d[0] == '-', true, d[1:]
	}
	if neg && f.noNeg {
		return numAny, nil
	}
	if onlyDigits(d) {
		n := bigInt(d)
		if neg {
			n.Neg(n)
		}
		if n.Cmp(f.lo) < 0 || n.Cmp(f.hi) > 0 {
			return bad, nil
		}
		for _, v := range f.skip {
			if n.String() == v {
				return numAny, nil
			}
		}
		switch {
		case sign && f.lo.Sign() == 0:
			return bad, nil // no signs
		case d != "0" && d[0] == '0', sign && !neg, neg && n.Sign() == 0, may:
			return numMay, n
		}
		return numMust, n
	}
	if f.noTail && d != "" && !sign && d[0] >= '0' && d[0] <= '9' {
		return numAny, nil
	}
	if f.adc {
		if r, ok := decimal(t); ok {
			if r.IsInt() && r.Num().Cmp(f.lo) >= 0 && r.Num().Cmp(f.hi) <= 0 {
				if plainFloat.MatchString(t) {
					return numMust, new(big.Int).Set(r.Num())
				}
				return numMay, new(big.Int).Set(r.Num())
			}
			return bad, nil
		}
	}
	return bad, nil
}

// plainFloat matches numbers as clients that send integers as floats write them.
var plainFloat = regexp.MustCompile(`^(-?[1-9][0-9]{0,14}\.0{1,6}|[1-9](\.[0-9]{1,9})?e\+(0[0-9]|1[0-4]))$`)

// decimal parses a decimal notation with a small exponent.
func decimal(s string) (*big.Rat, bool) {
	for i := 0; i < len(s); i++ {
		if c := s[i]; (c < '0' || c > '9') && strings.IndexByte("+-.eE", c) < 0 {
			return nil, false
		}
	}
	return new(big.Rat).SetString(s)
}

func decodeAny(m interface{}, body string) error {
	if m, ok := m.(nmdc.Message); ok {
		return m.UnmarshalNMDC(nil, []byte(body))
	}
	return adc.Unmarshal([]byte(body), m)
}

func (f *numField) check(t *mon.T, s string) {
	ver, want := f.judge(s)
	if ver == numAny {
		return
	}
	m := f.new()
	body := f.wire(s)
	err := decodeAny(m, body)
	var got *big.Int
	ok := false
	if err == nil {
		got, ok = f.num(m)
	}
	t.Eval(1)
	switch {
	case err != nil:
		if ver == numMust {
			t.Failf("number-refused", "%s: %q refused: %v", f.name, s, err)
		}
		t.Ev("refused", 1)
	case ver == numRefuse:
		if f.junk0 && ok && got.Sign() == 0 {
			t.Ev("read as the documented default", 1)
			return
		}
		if f.junk0 && f.noTail {
			// the text became a part of the path
			return
		}
		t.Failf("number-accepted", "%s: %q accepted as %v", f.name, s, got)
	case !ok && want.Sign() == 0:
		t.Ev("absent value", 1)
	default:
		if !ok || got.Cmp(want) != 0 {
			t.Failf("number-wrong", "%s: %q read as %v, expected %v", f.name, s, got, want)
		}
		t.Ev("decoded exactly", 1)
	}
}

func around(r *mon.Rand, base *big.Int, spread int) *big.Int {
	return new(big.Int).Add(base, big.NewInt(int64(r.Range(-spread, spread))))
}

func numText(r *mon.Rand, f *numField) string {
	num := func() string {
		switch r.Intn(8) {
		case 0:
			return around(r, f.hi, 3).String()
		case 1:
			return around(r, f.lo, 3).String()
		case 2, 3:
			n := new(big.Int).Lsh(bigOne, uint(mon.Pick(r, 7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, r.Intn(140))))
			return around(r, n, 3).String()
		case 4:
			n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(24))), nil)
			return around(r, n, 3).String()
		case 5:
			return fmt.Sprint(r.Intn(1000))
		case 6:
			// wraps to a small number
			n := new(big.Int).Lsh(bigOne, uint(mon.Pick(r, 32, 63, 64, 64, 128)))
			n.Mul(n, big.NewInt(int64(r.Range(1, 20))))
			return n.Add(n, big.NewInt(int64(r.Intn(2000)))).String()
		default:
			n := r.Range(1, 25)
			if r.P(1, 10) {
				n = r.Range(25, 400)
				if r.P(1, 10) {
					n = gen.Scale(r, 20000)
				}
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + r.Intn(10))
			}
			return string(b)
		}
	}
	s := num()
	switch r.Intn(12) {
	case 0:
		s = mon.Pick(r, "+", "-", "--", "++", "+-", "-+", "+++", "- ", "+ ") + s
	case 1:
		s = strings.Repeat("0", 1+gen.Count(r, 25)) + s
	case 2:
		s += mon.Pick(r, ".", ".0", ".00", "e+00", "e+03", "e+06", "e+12", ".5", ".000", ".00000000000000000000000000001", "e0", "e1", "E2", "e-1", "e+3", "e30", "e-30", ".e1", "f", "L", "u", "k", "KB", "%", ";")
	case 3:
		s = mon.Pick(r, "0x", "0X", "0b", "0o", "0", ".", "x", "#", "~", "Inf", "NaN", "nan", "+Inf", "infinity", "e", "_", "1_000_", "1,", "1'") + s
	case 4:
		p := r.Intn(len(s) + 1)
		s = s[:p] + mon.Pick(r, "_", ",", ".", "e", "-", "+", "\x00", "\t", "\n", "٣", "５", "\xff", "'", "a", ":", ";", "\x01") + s[p:]
	case 5:
		if f.trim {
			s = strings.Repeat(" ", r.Intn(3)) + s + strings.Repeat(" ", r.Intn(3))
		}
	case 6:
		if f.trim && r.Bool() {
			p := r.Intn(len(s) + 1)
			s = s[:p] + " " + s[p:]
		}
	case 7:
		s = mon.Pick(r, "", "-", "+", ".", "e", "x", "-0", "+0", "00", "0.0", "1e1", "1e", "Ａ", "１", "٣", "½", "²", "null", "true", "--1", "1-", "1+1", "0x1p4", "1e0", "\t1", "1\t", "\r1", "\v", "1\xa0")
	}
	return s
}

// usable reports if the text can be a value of the field, and not end it.
func (f *numField) usable(s string) bool {
	if f.adc || strings.HasPrefix(f.name, "ADC ") {
		return !strings.ContainsAny(s, " \n")
	}
	if strings.ContainsAny(s, "$|?/<>,\x05\\:") {
		return false
	}
	if !f.trim && strings.ContainsAny(s, " \t\r\n\v\f") || !f.trim && strings.Contains(s, "\xa0") {
		return false
	}
	if strings.Contains(f.name, "ADCGET") || strings.Contains(f.name, "ADCSND") {
		return !strings.Contains(s, " ")
	}
	return true
}

func c26Texts(t *mon.T) {
	f := numFields()[t.Index%len(numFields())]
	for i := 0; i < 8; i++ {
		s := numText(t.R, f)
		if !f.usable(s) {
			continue
		}
		t.Logf("%s: %q", f.name, s)
		f.check(t, s)
		t.Seen(f.name + s)
		if i == 0 {
			t.Sample(func() string {
				v, n := f.judge(s)
				return fmt.Sprintf("%s: %s verdict %d value %v; body %s", f.name, gen.Quote([]byte(s)), v, n, gen.Quote([]byte(f.wire(s))))
			})
		}
	}
}

const numChars = "0123456789+-.ex_ "

func c26Short(t *mon.T) {
	n := len(numFields())
	f := numFields()[t.Index%n]
	a := numChars[t.Index/n%len(numChars)]
	do := func(s string) {
		if f.usable(s) {
			f.check(t, s)
		}
	}
	do(string([]byte{a}))
	for _, b := range []byte(numChars) {
		do(string([]byte{a, b}))
		for _, c := range []byte(numChars) {
			do(string([]byte{a, b, c}))
		}
	}
	for c := 0; c < 256; c++ {
		do(string([]byte{byte(c)}))
		do(string([]byte{a, byte(c)}))
		do(string([]byte{byte(c), a}))
		do(string([]byte{'1', byte(c), a}))
	}
	t.Seen(f.name + string(rune(a)))
}

func c26Limits(t *mon.T) {
	f := numFields()[t.Index%len(numFields())]
	for _, base := range []*big.Int{bigZero, f.lo, f.hi, maxI64, minI64, maxU64, bigInt("65536"), bigInt("4294967296"), bigInt("2147483648"), bigInt("340282366920938463463374607431768211456"), bigInt("1000000000"), bigInt("10000000000000000000"), bigInt("100000000000000000000")} {
		for d := -20; d <= 20; d++ {
			n := new(big.Int).Add(base, big.NewInt(int64(d)))
			for k := 1; k <= 3; k++ {
				m := new(big.Int).Mul(n, big.NewInt(int64(k)))
				for _, s := range []string{m.String(), "0" + m.String(), "+" + m.String(), m.String() + "0"} {
					if f.usable(s) {
						f.check(t, s)
					}
				}
			}
		}
	}
	for n := 1; n <= 400; n++ {
		f.check(t, strings.Repeat("9", n))
		f.check(t, "1"+strings.Repeat("0", n))
		f.check(t, strings.Repeat("0", n)+"7")
	}
	t.Seen(f.name)
	t.Sample(func() string {
		return fmt.Sprintf("%s: %v..%v in %s", f.name, f.lo, f.hi, gen.Quote([]byte(f.wire("@"))))
	})
}

// c26Encode writes any value of the Go type and reads it back.
func c26Encode(t *mon.T) {
	r := t.R
	f := numFields()[t.Index%len(numFields())]
	if f.base == nil {
		return
	}
	n := new(big.Int)
	switch r.Intn(5) {
	case 0:
		n.Set(around(r, f.hi, 2))
	case 1:
		n.Set(around(r, f.lo, 2))
	case 2:
		n.Set(around(r, new(big.Int).Lsh(bigOne, uint(r.Intn(64))), 1))
	case 3:
		n.Neg(around(r, new(big.Int).Lsh(bigOne, uint(r.Intn(64))), 1))
	default:
		n.SetUint64(r.U64() >> uint(r.Intn(64)))
	}
	if n.Cmp(f.lo) < 0 || n.Cmp(f.hi) > 0 || n.Sign() < 0 && f.noNeg || n.String() == f.skipEnc {
		return
	}
	for _, v := range f.skip {
		if n.String() == v {
			return
		}
	}
	m := f.base()
	if m == nil {
		t.Failf("number-refused", "%s: %q refused", f.name, f.wire("1"))
	}
	f.setNum(m, n)
	if got, ok := f.num(m); !ok || got.Cmp(n) != 0 {
		return // not a value of the type
	}
	var buf bytes.Buffer
	var err error
	if nm, ok := m.(nmdc.Message); ok {
		err = nm.MarshalNMDC(nil, &buf)
	} else {
		err = adc.Marshal(&buf, deref(m).(adc.Message))
	}
	if err != nil {
		t.Failf("encode", "%s = %v: %v", f.name, n, err)
	}
	body := buf.String()
	if !f.adc {
		if want := f.wire(n.String()); body != want {
			t.Failf("encode-wire", "%s = %v: written %q, expected %q", f.name, n, body, want)
		}
	} else if n.Sign() != 0 && !strings.Contains(" "+body+" ", n.String()+" ") {
		t.Failf("encode-wire", "%s = %v: written %q", f.name, n, body)
	}
	m2 := f.new()
	if err := decodeAny(m2, body); err != nil {
		t.Failf("decode-own", "%s = %v: written as %q, refused: %v", f.name, n, body, err)
	}
	got, ok := f.num(m2)
	if !ok && n.Sign() == 0 {
		got, ok = bigZero, true // omitted
	}
	if !ok || got.Cmp(n) != 0 {
		t.Failf("decode-own", "%s = %v: written as %q, read as %v", f.name, n, body, got)
	}
	t.Eval(2)
	t.Ev("encoded and decoded", 1)
	t.Seen(f.name + n.String())
	t.Sample(func() string { return fmt.Sprintf("%s = %v: %s", f.name, n, gen.Quote([]byte(body))) })
}

// aNums has integers of all kinds that can be encoded.
type aNums struct {
	A uint64   `adc:"#"`
	B uint16   `adc:"BB,req"`
	C uint32   `adc:"CC,req"`
	D uint     `adc:"DD,req"`
	E int16    `adc:"EE,req"`
	F int32    `adc:"FF,req"`
	G int64    `adc:"GG,req"`
	H int      `adc:"HH,req"`
	I *uint64  `adc:"II"`
	J []uint32 `adc:"JJ"`
}

func (aNums) Cmd() adc.MsgType { return adc.MsgType{'N', 'U', 'M'} }

// c26Kinds writes numbers of all kinds of Go integers with the reflection based codec.
func c26Kinds(t *mon.T) {
	r := t.R
	num := func() uint64 {
		switch r.Intn(4) {
		case 0:
			return mon.Pick[uint64](r, 0, 1, 1<<16-1, 1<<15, 1<<32-1, 1<<31, 1<<63, 1<<64-1, 1<<63-1)
		case 1:
			return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3))
		}
		return r.U64() >> uint(r.Intn(64))
	}
	m := aNums{A: num(), B: uint16(num()), C: uint32(num()), D: uint(num()), E: int16(num()), F: int32(num()), G: int64(num()), H: int(num())}
	want := []string{fmt.Sprint(m.A), fmt.Sprintf("BB%d", m.B), fmt.Sprintf("CC%d", m.C), fmt.Sprintf("DD%d", m.D), fmt.Sprintf("EE%d", m.E), fmt.Sprintf("FF%d", m.F), fmt.Sprintf("GG%d", m.G), fmt.Sprintf("HH%d", m.H)}
	if r.Bool() {
		v := num()
		m.I = &v
		want = append(want, fmt.Sprintf("II%d", v))
	}
	for i, n := 0, r.Intn(4); i < n; i++ {
		m.J = append(m.J, uint32(num()))
		want = append(want, fmt.Sprintf("JJ%d", m.J[i]))
	}
	var buf bytes.Buffer
	if err := adc.Marshal(&buf, mon.Pick[adc.Message](r, m, &m)); err != nil {
		t.Failf("encode", "%+v: %v", m, err)
	}
	if got := buf.String(); got != strings.Join(want, " ") {
		t.Failf("encode-wire", "%+v: written %q, expected %q", m, got, strings.Join(want, " "))
	}
	// signed ones are read back
	var m2 struct {
		A string `adc:"#"`
		E int16  `adc:"EE"`
		F int32  `adc:"FF"`
		G int64  `adc:"GG"`
		H int    `adc:"HH"`
	}
	if err := adc.Unmarshal(buf.Bytes(), &m2); err != nil || m2.E != m.E || m2.F != m.F || m2.G != m.G || m2.H != m.H || m2.A != want[0] {
		t.Failf("decode-own", "%q: read as %+v, %v", buf.String(), m2, err)
	}
	t.Eval(2)
	t.Seen(buf.String())
	t.Sample(func() string { return gen.Quote(buf.Bytes()) })
}
