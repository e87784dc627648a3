package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c28() mon.Property {
	return mon.Property{
		ID: "C28",
		Rule: "Each case takes one form of an incomplete or malformed message from a catalogue (all forms are visited in turn) and fills it with random words, numbers and hashes. Decode forms are given to the message itself, to every read method of a Reader between two valid messages, and (ADC) to each packet kind; " +
			"encode forms are written between two valid messages. Oracle: an error and never a message; neighbours are received or sent intact, and nothing of the refused message is on the wire. Non-trivial: every case; distinct by form and content.",
		Assume: []string{"the catalogue lists forms which no documented leniency of the formats accepts"},
		Monitors: []mon.Monitor{
			{Name: "nmdc-decode", Quick: 90000, Thorough: 2000000, Run: c28NMDCDecode},
			{Name: "nmdc-encode", Quick: 30000, Thorough: 600000, Run: c28NMDCEncode},
			{Name: "adc-decode", Quick: 90000, Thorough: 2000000, Run: c28ADCDecode},
			{Name: "adc-encode", Quick: 30000, Thorough: 600000, Run: c28ADCEncode},
			{Name: "adc-routing", Quick: 60000, Thorough: 1000000, Run: c28ADCRouting},
			{Name: "adc-api", Quick: 15000, Thorough: 300000, Run: c28ADCAPI},
		},
	}
}

// c28g fills forms with harmless content.
type c28g struct{ r *mon.Rand }

func (g *c28g) w() string {
	const alpha = "abcdefghijklmnopqrstuvwxyz"
	b := make([]byte, g.r.Range(3, 12))
	for i := range b {
		b[i] = alpha[g.r.Intn(len(alpha))]
	}
	return string(b)
}

func (g *c28g) addr() string {
	return fmt.Sprintf("%d.%d.%d.%d:%d", g.r.Intn(256), g.r.Intn(256), g.r.Intn(256), g.r.Intn(256), g.r.Range(1, 65535))
}

func (g *c28g) n() string { return strconv.Itoa(g.r.Intn(100000)) }

// num is text which is not a number.
func (g *c28g) junk() string { return mon.Pick(g.r, "x", "1x", "x1", "1-2", "0x1z", "1e3x", g.w()) }

func (g *c28g) hash() string {
	var h tiger.Hash
	g.r.Fill(h[:])
	return b32(h[:])
}

// badHash is text which is not a hash.
func (g *c28g) badHash() string {
	h := g.hash()
	switch g.r.Intn(5) {
	case 0:
		return h[:g.r.Range(1, 38)]
	case 1:
		return h + mon.Pick(g.r, "A", "AA", "=")
	case 2:
		i := g.r.Intn(39)
		return h[:i] + mon.Pick(g.r, "0", "1", "8", "9", "-", "=", "*", "/") + h[i+1:]
	case 3:
		return h[:38] + "="
	}
	i := g.r.Intn(39)
	return h[:i] + mon.Pick(g.r, "a", "k", "z", "_", ".") + h[i+1:]
}

func (g *c28g) badName() string {
	if g.r.P(1, 4) {
		return strings.Repeat("n", g.r.Range(257, 600))
	}
	return g.around(mon.Pick(g.r, "$", "\x00", "\r", "\n", "\t"))
}

// around puts text at the start, in the middle, or at the end of a word.
func (g *c28g) around(s string) string {
	switch g.r.Intn(4) {
	case 0:
		return s + g.w()
	case 1:
		return g.w() + s
	}
	return g.w() + s + g.w()
}

type c28form struct {
	what string
	typ  string
	body func(g *c28g) string
}

// myInfo makes an argument of MyINFO.
func (g *c28g) myInfo(tag, mode string) string {
	return "$ALL " + g.w() + " " + g.w() + tag + "$" + mode + "$" + g.n() + "\x01$" + g.w() + "@x$" + g.n() + "$"
}

func (g *c28g) myTag(hubs, slots string) string {
	return "<" + g.w() + " V:1.2,M:A,H:" + hubs + ",S:" + slots + ">"
}

var c28NMDC = func() []c28form {
	var arr []c28form
	add := func(typ, what string, body func(g *c28g) string) {
		arr = append(arr, c28form{typ: typ, what: what, body: body})
	}
	text := func(typ, what string, parts ...string) {
		add(typ, what, func(g *c28g) string { return g.fill(strings.Join(parts, "")) })
	}
	// placeholders: %w word, %b bad name, %a address, %n number, %j not a number, %h hash, %x bad hash
	text("To:", "no sender", "%w")
	text("To:", "no sender", "%w $<%w> %w")
	text("To:", "no name", "%w From: %w")
	text("To:", "no name", "%w From: %w %w")
	text("To:", "name is not closed", "%w From: %w $<%w")
	text("To:", "name is not closed", "%w From: %w $<%w %w")
	text("MCTo", "no sender", "%w %w %w")
	text("MCTo", "no sender", "%w")
	text("MCTo", "no text", "%w $%w")
	text("", "name is not closed", "<%w")
	text("", "name is not closed", "<%w %w %w")
	text("", "line break in the name", "<%w\n%w> %w")
	text("UserCommand", "empty", "")
	text("UserCommand", "no context", "1")
	text("UserCommand", "bad type", "%j 1 %w $%w")
	text("UserCommand", "bad context", "1 x%w %w $%w")
	text("UserCommand", "no command", "1 3 %w %w")
	text("UserCommand", "no path", "1 3 $%w")
	text("ConnectToMe", "no address", "%w")
	text("RevConnectToMe", "no target", "%w")
	for _, typ := range []string{"ADCGET", "ADCSND"} {
		text(typ, "one field", "file")
		text(typ, "empty", "")
		text(typ, "two fields", "file %w")
		text(typ, "three fields", "file %w %n")
		text(typ, "bad start", "file %w %j %n")
		text(typ, "bad start", "file %w -%n %n")
		text(typ, "no start", "file %w  %n")
		text(typ, "bad length", "file %w %n %j")
		text(typ, "no length", "file %w %n ")
		text(typ, "bad length", "file %w %n -2")
	}
	text("ADCGET", "bad number of downloaded bytes", "file %w %n %n DB%j")
	text("ADCGET", "no number of downloaded bytes", "file %w %n %n DB")
	text("ADCGET", "bad number of downloaded bytes", "file %w %n %n ZL1 DB-%n")
	text("ADCGET", "bad number of downloaded bytes", "file %w %n %n DB%j ZL1")
	text("ADCSND", "negative length", "file %w %n -1")
	text("ADCSND", "unknown flag", "file %w %n %n ZL2")
	text("ADCSND", "unknown flag", "file %w %n %n Z")
	text("ADCSND", "unknown flag", "file %w %n %n zl1")
	text("ADCSND", "unknown flag", "file %w %n %n ZL1 ")
	text("ADCSND", "unknown flag", "file %w %n %n ZL1 %w")
	text("ADCSND", "unknown flag", "file %w %n %n %w")
	text("Direction", "no number", "Upload")
	text("Direction", "no number", "Download ")
	text("Direction", "unknown direction", "%w 5")
	text("Direction", "unknown direction", "upload 5")
	text("Direction", "unknown direction", "Downloads 5")
	text("Direction", "unknown direction", "Up 5")
	text("Direction", "unknown direction", " 5")
	text("Direction", "bad number", "Upload %j")
	text("Direction", "bad number", "Download -5")
	for _, v := range []string{"0", "32768", "65537", "4294967297", "18446744073709551617"} {
		text("Direction", "number out of range", "Upload "+v)
		text("Direction", "number out of range", "Download "+v)
	}
	for i := 0; i < 4; i++ {
		nums := []string{"%n", "%n", "%n", "%n"}
		nums[i] = "%j"
		s := "%w$%w$%w$" + strings.Join(nums, "$") + "$%w$%w"
		text("HubINFO", "bad number", s)
		nums[i] = ""
		text("HubINFO", "no number", "%w$%w$%w$"+strings.Join(nums, "$")+"$%w$%w")
	}
	for _, who := range []string{"Hub:%w", "%a"} {
		text("Search", "no query", who)
		text("Search", "empty query", who, " ")
		text("Search", "missing fields", who, " F?T?0?1")
		text("Search", "missing fields", who, " F?T?0")
		text("Search", "missing fields", who, " F?T")
		text("Search", "missing fields", who, " %w")
		for _, fl := range []string{"X", "", "TT", "t", "1", "FT", " "} {
			text("Search", "bad flag", who, " ", fl, "?T?0?1?%w")
			text("Search", "bad flag", who, " F?", fl, "?0?1?%w")
		}
		text("Search", "bad size", who, " T?T?%j?1?%w")
		text("Search", "bad size", who, " T?T?-%j?1?%w")
		text("Search", "bad size", who, " T?T?-?1?%w")
		text("Search", "bad type", who, " F?T?0?%j?%w")
		text("Search", "bad type", who, " F?T?0?-1?%w")
		text("Search", "no type", who, " F?T?0??%w")
		text("Search", "no hash", who, " F?T?0?9?%w")
		text("Search", "no hash", who, " F?T?0?9?")
		text("Search", "no prefix", who, " F?T?0?9?%h")
		text("Search", "no hash", who, " F?T?0?9?TTH:")
		text("Search", "bad hash", who, " F?T?0?9?TTH:%x")
		text("Search", "text after hash", who, " F?T?0?9?TTH:%h%w")
	}
	text("SR", "only name", "%w")
	text("SR", "no separators", "%w %w 1/2")
	text("SR", "no size", "%w %w.txt\x05%w (%a)")
	text("SR", "no slots", "%w %w.txt\x05%n\x05%w (%a)")
	text("SR", "no size", "%w %w.txt\x05 1/2\x05%w (%a)")
	text("SR", "bad size", "%w %w.txt\x05%j 1/2\x05%w (%a)")
	text("SR", "bad size", "%w %w.txt\x05-%n 1/2\x05%w (%a)")
	text("SR", "no total slots", "%w %w.txt\x05%n 1\x05%w (%a)")
	text("SR", "no total slots", "%w %w.txt\x05%n 1/\x05%w (%a)")
	text("SR", "no free slots", "%w %w.txt\x05%n /2\x05%w (%a)")
	text("SR", "bad slots", "%w %w.txt\x05%n %j/2\x05%w (%a)")
	text("SR", "bad slots", "%w %w.txt\x05%n 1/%j\x05%w (%a)")
	text("SR", "no address", "%w %w.txt\x05%n 1/2\x05%w")
	text("SR", "no address", "%w %w.txt\x05%n 1/2\x05")
	text("SR", "no space before the address", "%w %w.txt\x05%n 1/2\x05%w(%a)")
	text("SR", "address is not closed", "%w %w.txt\x05%n 1/2\x05%w (%a")
	text("SR", "address is not closed", "%w %w.txt\x05%n 1/2\x05TTH:%h (%a")
	text("SR", "text after the address", "%w %w.txt\x05%n 1/2\x05%w (%a)%w")
	text("SR", "text after the address", "%w %w.txt\x05%n 1/2\x05TTH:%h (%a)%w")
	text("SR", "empty target", "%w %w.txt\x05%n 1/2\x05%w (%a)\x05")
	text("SR", "empty target", "%w %w.txt\x05%n 1/2\x05TTH:%h (%a)\x05")
	text("SR", "bad hash", "%w %w.txt\x05%n 1/2\x05TTH:%x (%a)")
	text("SR", "only hash", "%w %w.txt\x05%n 1/2\x05TTH:%h")
	text("SR", "only hash", "%w %w.txt\x05%n 1/2\x05TTH:%h ")
	text("SR", "no space after hash", "%w %w.txt\x05%n 1/2\x05TTH:%h(%a)")
	text("SR", "no bracket after hash", "%w %w.txt\x05%n 1/2\x05TTH:%h %a)")
	text("SR", "directory without free slots", "%w %w /5\x05%w (%a)")
	text("SR", "directory without total slots", "%w %w 4/\x05%w (%a)")
	text("SR", "no space before the slots of a directory", "%w %w3/4\x05%w (%a)")
	text("SR", "no space before the slots of a directory", "%w %w\\3/4\x05TTH:%h (%a)")
	text("SR", "no slots of a directory", "%w %w\\%w\x05%w (%a)\x05%w")
	text("SR", "bad slots of a directory", "%w %w %j/4\x05%w (%a)")
	text("SR", "too many slots of a directory", "%w %w 1/2/3\x05%w (%a)")
	text("SA", "no address", "%h")
	text("SA", "no space", "%h%a")
	text("SA", "bad hash", "%x %a")
	text("SA", "empty", "")
	text("SP", "no name", "%h")
	text("SP", "no space", "%h%w")
	text("SP", "bad hash", "%x %w")
	text("SP", "empty", "")
	add("MyINFO", "wrong prefix", func(g *c28g) string { return strings.TrimPrefix(g.myInfo("", "A"), mon.Pick(g.r, "$", "$ALL ")) })
	add("MyINFO", "wrong prefix", func(g *c28g) string {
		return mon.Pick(g.r, "$all ", "$AL ", "$ALLL ", "ALL$ ") + g.myInfo("", "A")[5:]
	})
	text("MyINFO", "only name", "$ALL %w")
	text("MyINFO", "no fields", "$ALL %w %w")
	add("MyINFO", "field missing", func(g *c28g) string { return strings.TrimSuffix(g.myInfo(g.myTag("1/2/3", "4"), " "), "$") })
	add("MyINFO", "field missing", func(g *c28g) string { return "$ALL " + g.w() + " " + g.w() + "$ $1\x01$" + g.w() })
	add("MyINFO", "field missing", func(g *c28g) string {
		// fields are terminated, but one of them is not there
		s := "$ALL " + g.w() + " " + g.w() + mon.Pick(g.r, "", g.myTag("1/2/3", "4")) + "$"
		return s + mon.Pick(g.r, " $1\x01$", " $1\x01$"+g.w()+"$", " $1\x01$"+g.n()+"$", g.n()+"\x01$"+g.w()+"$"+g.n()+"$")
	})
	add("MyINFO", "extra field", func(g *c28g) string { return g.myInfo(g.myTag("1/2/3", "4"), " ") + mon.Pick(g.r, "$", "x$") })
	add("MyINFO", "long mode", func(g *c28g) string { return g.myInfo(g.myTag("1/2/3", "4"), mon.Pick(g.r, "AP", "  ")) })
	add("MyINFO", "empty mode", func(g *c28g) string { return g.myInfo(mon.Pick(g.r, "", g.myTag("1/2/3", "4")), "") })
	add("MyINFO", "empty tag", func(g *c28g) string { return g.myInfo("<", mon.Pick(g.r, "A", " ")) })
	for _, hubs := range []string{"1/2", "1/2/3/4", "1//2", "/1/2", "1/2/", "/", "//", "x", "%j/1/2", "1/%j/2", "1/2/%j", "%j"} {
		hubs := hubs
		add("MyINFO", "bad hub counts", func(g *c28g) string { return g.myInfo(g.myTag(g.fill(hubs), "3"), " ") })
	}
	for _, slots := range []string{"%j", "", "1/2", "%w"} {
		slots := slots
		add("MyINFO", "bad slots", func(g *c28g) string { return g.myInfo(g.myTag("1/2/3", g.fill(slots)), " ") })
	}
	for _, tag := range []string{"<%w V:1,M:A,%w>", "<%w V:1,:A>", "<:A,M:P>", "<%w V:1,M:A,H:1/2/3,S:1,:>", "<%w V:1,M>", "<%w,M:A,S>"} {
		tag := tag
		add("MyINFO", "field of the tag without a name", func(g *c28g) string { return g.myInfo(g.fill(tag), " ") })
	}
	for _, typ := range []string{"GetNickList", "GetPass", "BadPass", "MaxedOut", "HubIsFull", "ZOn", "GetTopic"} {
		text(typ, "unexpected argument", "%w")
		text(typ, "unexpected argument", " ")
		text(typ, "unexpected argument", "0")
	}
	// bad names
	for _, f := range [][2]string{
		{"Hello", "%b"}, {"ValidateNick", "%b"}, {"ValidateDenide", "%b"}, {"MyNick", "%b"}, {"Quit", "%b"}, {"LogedIn", "%b"}, {"Kick", "%b"}, {"Close", "%b"},
		{"To:", "%b From: %w $<%w> %w"}, {"To:", "%w From: %b $<%w> %w"}, {"To:", "%w From: %w $<%b> %w"},
		{"MCTo", "%b $%w %w"}, {"MCTo", "%w $%b %w"}, {"", "<%b> %w"}, {"ConnectToMe", "%b %a"}, {"ConnectToMe", "%w %aN %b"}, {"RevConnectToMe", "%b %w"}, {"RevConnectToMe", "%w %b"},
		{"OpList", "%b$$"}, {"OpList", "%w$$%b$$"}, {"BotList", "%b$$%w$$"}, {"UserIP", "%b 1.2.3.4$$"}, {"UserIP", "%w 1.2.3.4$$%b 1.2.3.5$$"},
		{"SP", "%h %b"}, {"SR", "%b %w.txt\x05%n 1/2\x05%w (%a)"}, {"SR", "%w %w.txt\x05%n 1/2\x05%w (%a)\x05%b"}, {"Search", "Hub:%b F?T?0?1?%w"}, {"MyINFO", "$ALL %b %w$ $1\x01$x$1$"},
	} {
		text(f[0], "bad name", f[1])
	}
	// texts with null characters
	for _, f := range [][2]string{
		{"HubName", "%z"}, {"HubTopic", "%z"}, {"SetTopic", "%z"}, {"BotINFO", "%z"}, {"MyPass", "%z"}, {"Failed", "%z"}, {"Error", "%z"}, {"", "<%w> %z"}, {"", "%z"},
		{"To:", "%w From: %w $<%w> %z"}, {"MCTo", "%w $%w %z"}, {"UserCommand", "1 3 %z $%w"}, {"UserCommand", "1 3 %w $%z"}, {"Search", "%a F?T?0?1?%z"}, {"SR", "%w %z.txt\x05%n 1/2\x05%w (%a)"}, {"SR", "%w %w.txt\x05%n 1/2\x05%z (%a)"},
		{"ADCGET", "file %z 1 2"}, {"ADCSND", "%z %w 1 2"}, {"HubINFO", "%z$%w$%w$1$2$3$4$%w"}, {"HubINFO", "%w$%w$%z$1$2$3$4$%w"}, {"HubINFO", "%w$%w$%w$1$2$3$4$%w$%z"}, {"HubINFO", "%w$%w$%w$1$2$3$4$%w$%w$%z"},
		{"MyINFO", "$ALL %w %z$ $1\x01$x$1$"}, {"MyINFO", "$ALL %w %w$ $%z\x01$x$1$"}, {"MyINFO", "$ALL %w %w$ $1\x01$%z$1$"},
	} {
		text(f[0], "null character", f[1])
	}
	return arr
}()

// fill replaces placeholders.
func (g *c28g) fill(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			sb.WriteByte(s[i])
			continue
		}
		i++
		switch s[i] {
		case 'w':
			sb.WriteString(g.w())
		case 'b':
			sb.WriteString(g.badName())
		case 'a':
			sb.WriteString(g.addr())
		case 'n':
			sb.WriteString(g.n())
		case 'j':
			sb.WriteString(g.junk())
		case 'h':
			sb.WriteString(g.hash())
		case 'x':
			sb.WriteString(g.badHash())
		case 'z':
			sb.WriteString(g.around("\x00"))
		default:
			panic("bad form: " + s)
		}
	}
	return sb.String()
}

func c28NMDCDecode(t *mon.T) {
	r := t.R
	g := &c28g{r}
	f := c28NMDC[t.Index%len(c28NMDC)]
	body := f.body(g)
	t.Logf("%s: %s: %q", f.typ, f.what, body)
	t.Seen(f.typ + " " + body)
	t.Sample(func() string { return fmt.Sprintf("%s (%s): %q", f.typ, f.what, body) })
	fail := func(how string, v interface{}) {
		t.Failf("accepted "+f.typ+" "+f.what, "%s: %q is accepted as %s", how, body, dump(v))
	}
	m := nmdc.NewMessage(f.typ)
	if err := m.UnmarshalNMDC(nil, []byte(body)); err == nil {
		fail("direct", m)
	}
	t.Eval(1)
	line := body
	if f.typ != "" {
		line = "$" + f.typ + " " + body
	}
	if m, err := nmdc.Unmarshal(nil, []byte(line+"|")); err == nil {
		fail("Unmarshal", m)
	}
	a, b := "<alice> "+g.w(), "$Hello "+g.w()
	rd := nmdc.NewReader(gen.NewReader(r.Fork(), []byte(a+"|"+line+"|"+b+"|")))
	if m, err := rd.ReadMsg(); err != nil {
		t.Failf("message before", "%q: %v", a, err)
	} else if c, ok := m.(*nmdc.ChatMessage); !ok || "<"+c.Name+"> "+c.Text != a {
		t.Failf("message before", "%q: received %s", a, dump(m))
	}
	skipped := 0
	switch how := r.Intn(4); how {
	case 0:
		if m, err := rd.ReadMsg(); err == nil || m != nil {
			fail("ReadMsg", m)
		}
	case 1:
		m := nmdc.NewMessage(f.typ)
		if err := rd.ReadMsgTo(m); err == nil {
			fail("ReadMsgTo", m)
		}
	case 2:
		if m, err := rd.ReadMsgToAny(&nmdc.Version{}, nmdc.NewMessage(f.typ)); err == nil || m != nil {
			fail("ReadMsgToAny", m)
		}
	case 3:
		if strings.Contains(line, "\x00") {
			// not seen by the hook
			if m, err := rd.ReadMsg(); err == nil || m != nil {
				fail("ReadMsg", m)
			}
			break
		}
		rd.OnUnmarshalError = func(text []byte, err error) (bool, error) {
			if err == nil {
				t.Failf("hook-no-error", "%q", text)
			}
			skipped++
			return false, nil
		}
	}
	m, err := rd.ReadMsg()
	if err != nil {
		t.Failf("message after", "%q after %q: %v", b, line, err)
	} else if h, ok := m.(*nmdc.Hello); !ok || "$Hello "+string(h.Name) != b {
		fail("ReadMsg with a hook or the next message", m)
	}
	t.Eval(3)
	t.Ev("refused NMDC messages", 1)
	t.Ev("skipped by the hook", skipped)
}

var c28NMDCEnc = func() []func(g *c28g) (string, nmdc.Message) {
	type M = nmdc.Message
	tth := func(g *c28g) *nmdc.TTH {
		var h tiger.Hash
		g.r.Fill(h[:])
		return &h
	}
	arr := []func(g *c28g) (string, M){
		func(g *c28g) (string, M) { return "no target", &nmdc.ConnectToMe{Address: g.addr()} },
		func(g *c28g) (string, M) {
			return "no target", &nmdc.ConnectToMe{Address: g.addr(), Kind: nmdc.CTMPassiveReq, Src: g.w()}
		},
		func(g *c28g) (string, M) {
			return "unknown kind", &nmdc.ConnectToMe{Targ: g.w(), Address: g.addr(), Kind: nmdc.CTMKind(mon.Pick(g.r, -1, 3, 100)), Src: mon.Pick(g.r, "", "x")}
		},
		func(g *c28g) (string, M) {
			return "source of an active request", &nmdc.ConnectToMe{Targ: g.w(), Address: g.addr(), Kind: nmdc.CTMActive, Src: g.w(), Secure: g.r.Bool()}
		},
		func(g *c28g) (string, M) {
			return "source of a response", &nmdc.ConnectToMe{Targ: g.w(), Address: g.addr(), Kind: nmdc.CTMPassiveResp, Src: g.w(), Secure: g.r.Bool()}
		},
		func(g *c28g) (string, M) {
			return "passive request without a source", &nmdc.ConnectToMe{Targ: g.w(), Address: g.addr(), Kind: nmdc.CTMPassiveReq, Secure: g.r.Bool()}
		},
		func(g *c28g) (string, M) {
			return "hash search without a hash", &nmdc.Search{Address: g.addr(), DataType: nmdc.DataTypeTTH, Pattern: g.w()}
		},
		func(g *c28g) (string, M) {
			return "hash search without a hash", &nmdc.Search{User: g.w(), DataType: nmdc.DataTypeTTH}
		},
		func(g *c28g) (string, M) {
			return "result without a path", &nmdc.SR{From: g.w(), TTH: tth(g), HubAddress: g.addr(), IsDir: g.r.Bool()}
		},
		func(g *c28g) (string, M) {
			return "separator in the path", &nmdc.SR{From: g.w(), Path: []string{g.w(), g.w() + "\x05" + g.w()}, TTH: tth(g), HubAddress: g.addr(), IsDir: g.r.Bool()}
		},
		func(g *c28g) (string, M) {
			return "separator in the hub name", &nmdc.SR{From: g.w(), Path: []string{g.w()}, HubName: g.w() + "\x05" + g.w(), HubAddress: g.addr(), IsDir: g.r.Bool()}
		},
		func(g *c28g) (string, M) {
			return "unsupported flag", &nmdc.MyINFO{Name: g.w(), Conn: g.n(), Flag: nmdc.UserFlag(mon.Pick(g.r, '$', '|')), Mode: 'A'}
		},
	}
	names := []func(b string, g *c28g) M{
		func(b string, g *c28g) M { return &nmdc.Hello{Name: nmdc.Name(b)} },
		func(b string, g *c28g) M { return &nmdc.ValidateNick{Name: nmdc.Name(b)} },
		func(b string, g *c28g) M { return &nmdc.Quit{Name: nmdc.Name(b)} },
		func(b string, g *c28g) M { return &nmdc.ChatMessage{Name: b, Text: g.w()} },
		func(b string, g *c28g) M { return &nmdc.PrivateMessage{To: b, From: g.w(), Name: g.w(), Text: g.w()} },
		func(b string, g *c28g) M { return &nmdc.PrivateMessage{To: g.w(), From: b, Name: g.w(), Text: g.w()} },
		func(b string, g *c28g) M { return &nmdc.PrivateMessage{To: g.w(), From: g.w(), Name: b, Text: g.w()} },
		func(b string, g *c28g) M { return &nmdc.MCTo{To: b, From: g.w(), Text: g.w()} },
		func(b string, g *c28g) M { return &nmdc.MCTo{To: g.w(), From: b, Text: g.w()} },
		func(b string, g *c28g) M { return &nmdc.ConnectToMe{Targ: b, Address: g.addr()} },
		func(b string, g *c28g) M {
			return &nmdc.ConnectToMe{Targ: g.w(), Address: g.addr(), Kind: nmdc.CTMPassiveReq, Src: b}
		},
		func(b string, g *c28g) M { return &nmdc.RevConnectToMe{From: b, To: g.w()} },
		func(b string, g *c28g) M { return &nmdc.RevConnectToMe{From: g.w(), To: b} },
		func(b string, g *c28g) M { return &nmdc.OpList{Names: nmdc.Names{g.w(), b}} },
		func(b string, g *c28g) M { return &nmdc.BotList{Names: nmdc.Names{b, g.w()}} },
		func(b string, g *c28g) M {
			return &nmdc.UserIP{List: []nmdc.UserAddress{{Name: g.w(), IP: "1.2.3.4"}, {Name: b, IP: "1.2.3.5"}}}
		},
		func(b string, g *c28g) M { return &nmdc.TTHSearchPassive{TTH: *tth(g), User: b} },
		func(b string, g *c28g) M { return &nmdc.Search{User: b, Pattern: g.w()} },
		func(b string, g *c28g) M { return &nmdc.SR{From: b, Path: []string{g.w()}, HubAddress: g.addr()} },
		func(b string, g *c28g) M {
			return &nmdc.SR{From: g.w(), Path: []string{g.w()}, TTH: tth(g), HubAddress: g.addr(), To: b}
		},
		func(b string, g *c28g) M { return &nmdc.MyINFO{Name: b, Mode: 'A'} },
	}
	for _, fnc := range names {
		fnc := fnc
		arr = append(arr, func(g *c28g) (string, M) {
			b := g.badName()
			if strings.ContainsAny(b, "$") {
				// can be escaped in some forms; refused as a plain name
				b = strings.Replace(b, "$", "\n", -1)
			}
			return "bad name", fnc(b, g)
		})
	}
	texts := []func(b string, g *c28g) M{
		func(b string, g *c28g) M { return &nmdc.ChatMessage{Name: g.w(), Text: b} },
		func(b string, g *c28g) M { return &nmdc.ChatMessage{Text: b} },
		func(b string, g *c28g) M { return &nmdc.PrivateMessage{To: g.w(), From: g.w(), Name: g.w(), Text: b} },
		func(b string, g *c28g) M { return &nmdc.MCTo{To: g.w(), From: g.w(), Text: b} },
		func(b string, g *c28g) M { return &nmdc.HubName{String: nmdc.String(b)} },
		func(b string, g *c28g) M { return &nmdc.HubTopic{Text: b} },
		func(b string, g *c28g) M { return &nmdc.MyPass{String: nmdc.String(b)} },
		func(b string, g *c28g) M { return &nmdc.Failed{Err: errors.New(b)} },
		func(b string, g *c28g) M { return &nmdc.Error{Err: errors.New(b)} },
		func(b string, g *c28g) M {
			return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{g.w(), b}, Command: g.w()}
		},
		func(b string, g *c28g) M {
			return &nmdc.UserCommand{Typ: 1, Context: 3, Path: []string{g.w()}, Command: b}
		},
		func(b string, g *c28g) M { return &nmdc.Search{Address: g.addr(), Pattern: b} },
		func(b string, g *c28g) M {
			return &nmdc.SR{From: g.w(), Path: []string{g.w(), b}, TTH: tth(g), HubAddress: g.addr()}
		},
		func(b string, g *c28g) M {
			return &nmdc.SR{From: g.w(), Path: []string{g.w()}, HubName: b, HubAddress: g.addr()}
		},
		func(b string, g *c28g) M {
			return &nmdc.ADCGet{ContentType: "file", Identifier: nmdc.String(b), Length: -1}
		},
		func(b string, g *c28g) M { return &nmdc.ADCGet{ContentType: nmdc.String(b), Identifier: "x"} },
		func(b string, g *c28g) M { return &nmdc.ADCSnd{ContentType: "file", Identifier: nmdc.String(b)} },
		func(b string, g *c28g) M { return &nmdc.ADCSnd{ContentType: nmdc.String(b), Identifier: "x"} },
		func(b string, g *c28g) M { return &nmdc.HubINFO{Name: b} },
		func(b string, g *c28g) M { return &nmdc.HubINFO{Name: "x", Desc: b} },
		func(b string, g *c28g) M { return &nmdc.HubINFO{Name: "x", Owner: b} },
		func(b string, g *c28g) M { return &nmdc.HubINFO{Name: "x", State: b} },
		func(b string, g *c28g) M { return &nmdc.MyINFO{Name: "x", Desc: b} },
		func(b string, g *c28g) M { return &nmdc.MyINFO{Name: "x", Conn: b} },
		func(b string, g *c28g) M { return &nmdc.MyINFO{Name: "x", Email: b} },
	}
	for _, fnc := range texts {
		fnc := fnc
		arr = append(arr, func(g *c28g) (string, M) { return "null character", fnc(g.around("\x00"), g) })
	}
	return arr
}()

func c28NMDCEncode(t *mon.T) {
	r := t.R
	g := &c28g{r}
	what, m := c28NMDCEnc[t.Index%len(c28NMDCEnc)](g)
	desc := fmt.Sprintf("%s %s: %s", m.Type(), what, dump(m))
	t.Logf("%s", desc)
	t.Seen(desc)
	t.Sample(func() string { return desc })
	if b, err := nmdc.Marshal(nil, m); err == nil {
		t.Failf("encoded "+m.Type()+" "+what, "%s is encoded to %q", dump(m), b)
	} else if len(b) != 0 {
		t.Failf("encoded with an error", "%s: %q with %v", desc, b, err)
	}
	out := gen.NewWriter()
	w := nmdc.NewWriterSize(out, mon.Pick(r, 0, 16, 4096))
	want := ""
	good := func() {
		s := g.w()
		want += "$Hello " + s + "|"
		if err := w.WriteMsg(&nmdc.Hello{Name: nmdc.Name(s)}); err != nil {
			t.Failf("good message", "after or before %s: %v", desc, err)
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		good()
	}
	switch r.Intn(3) {
	case 0:
		if err := w.WriteMsg(m); err == nil {
			t.Failf("written "+m.Type()+" "+what, "%s", desc)
		}
	case 1:
		s := g.w()
		want += "$Hello " + s + "|"
		if err := w.WriteMsg(&nmdc.Hello{Name: nmdc.Name(s)}, m); err == nil {
			t.Failf("written "+m.Type()+" "+what, "%s", desc)
		}
	case 2:
		for i := 0; i < 3; i++ {
			if err := w.WriteMsg(m); err == nil {
				t.Failf("written "+m.Type()+" "+what, "%s", desc)
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		good()
	}
	if err := w.Flush(); err != nil {
		t.Failf("flush", "after %s: %v", desc, err)
	}
	if got := string(out.Bytes()); got != want {
		t.Failf("wire", "%s: on the wire %q, expected %q", desc, got, want)
	}
	t.Eval(3)
	t.Ev("NMDC messages refused on encoding", 1)
}

// c28ADCSpecial are forms for types with their own format.
var c28ADCSpecial = func() []c28form {
	var arr []c28form
	text := func(typ, what, s string) {
		arr = append(arr, c28form{typ: typ, what: what, body: func(g *c28g) string { return g.fill(s) }})
	}
	for _, typ := range []string{"GET", "SND"} {
		text(typ, "empty", "")
		text(typ, "one field", "file")
		text(typ, "two fields", "file %w")
		text(typ, "three fields", "file %w %n")
		text(typ, "no start", "file %w  %n")
		text(typ, "bad start", "file %w %j %n")
		text(typ, "no length", "file %w %n ")
		text(typ, "bad length", "file %w %n %j")
		text(typ, "unknown flag", "file %w %n %n ZL2")
		text(typ, "unknown flag", "file %w %n %n Z")
		text(typ, "unknown flag", "file %w %n %n zl1")
		text(typ, "unknown flag", "file %w %n %n ZL")
		text(typ, "unknown flag", "file %w %n %n ZL11")
		text(typ, "unknown flag", "file %w %n %n %w")
		text(typ, "unknown flag", "file %w %n %n ZL1 %w")
	}
	text("STA", "empty", "")
	text("STA", "no code", " %w")
	text("STA", "bad code", "%j %w")
	text("STA", "bad code", "%w")
	text("SID", "short", "AAA")
	text("SID", "long", "AAAAA")
	text("SID", "empty", "")
	text("SID", "extra field", "AAAA BBBB")
	text("SUP", "short feature", "ADBAS")
	text("SUP", "long feature", "ADBASE ADTIGER")
	text("SUP", "empty feature", "ADBASE AD")
	text("SUP", "short feature", "ADBASE RMTIG")
	text("SUP", "empty feature", "RM")
	text("GPA", "bad salt", "1890")
	text("GPA", "bad salt", "AAAAAAA*")
	text("GPA", "bad salt", "aaaaaaaa")
	for _, v := range []string{"A", "AAA", "AAAAAA", "AAAAAAAAA", "AAAAAAAAAAA", "AAAA\rAAAA", "AAAAAAAA\r", "\r"} {
		// lengths that no salt has, and a break inside of the salt
		text("GPA", "bad salt", v)
	}
	text("RCM", "no token", "ADC/1.0")
	text("CTM", "no port", "ADC/1.0")
	text("CTM", "no token", "ADC/1.0 %n")
	text("CTM", "bad port", "ADC/1.0 %j %w")
	text("GFI", "no path", "file")
	text("QUI", "short id", "AAA")
	text("QUI", "long id", "AAAAA")
	text("QUI", "empty", "")
	text("QUI", "bad id of the operator", "AAAA IDBBBBB")
	text("PAS", "empty", "")
	text("PAS", "bad hash", "%x")
	text("SCH", "bad hash", "TR%x TOaaa")
	text("RES", "bad hash", "TOaaa TR%x")
	text("INF", "bad id", "ID%x NI%w")
	text("INF", "bad private id", "ID%h PD%x NI%w")
	text("INF", "short feature", "NI%w SUTCP")
	text("INF", "long feature", "NI%w SUTCP4,UDP44")
	text("INF", "empty feature", "NI%w SUTCP4,,UDP4")
	text("INF", "empty feature", "NI%w SUTCP4,")
	text("MSG", "bad flag", "%w ME11")
	text("MSG", "bad flag", "%w ME%w")
	text("MSG", "bad id", "%w PMAAAAA")
	text("MSG", "bad id", "%w PMAAA")
	return arr
}()

// c28ADCDecode refuses payloads of ADC messages.
func c28ADCDecode(t *mon.T) {
	r := t.R
	g := &c28g{r}
	var (
		cmd, what, body string
		alloc           func() interface{}
		reg             = true
	)
	if t.Index%2 == 0 {
		f := c28ADCSpecial[t.Index/2%len(c28ADCSpecial)]
		cmd, what, body = f.typ, f.what, f.body(g)
		var typ adc.MsgType
		copy(typ[:], cmd)
		for _, fnc := range adcTargets {
			v := fnc()
			if m, ok := deref(v).(adc.Message); ok && m.Cmd() == typ && reflect.TypeOf(v).Kind() == reflect.Ptr {
				if _, raw := v.(*adc.RawMessage); !raw {
					alloc = fnc
					break
				}
			}
		}
	} else {
		ag := newAGen(r)
		ag.text = g.w
		spec := aSpecs[t.Index/2%len(aSpecs)]
		m := ag.spec(spec)
		cmd, alloc = m.cmd, m.new
		reg = m.registered()
		pos, nam := append([]string{}, m.pos...), append([]string{}, m.nam...)
		if len(pos) >= 2 && r.P(1, 3) {
			// required positional parameters are missing
			what = "positional parameters are missing"
			pos, nam = pos[:r.Range(1, len(pos)-1)], nil
			if len(pos) == 1 && pos[0] == "" {
				pos[0] = "x"
			}
		} else {
			// a single parameter is repeated
			var idx []int
			for i, s := range nam {
				for _, f := range spec.nam {
					if len(f.tag) == 2 && strings.HasPrefix(s, f.tag) && strings.IndexByte("sibxqDCH", f.kind) >= 0 && !c28custom(spec, f) {
						idx = append(idx, i)
						break
					}
				}
			}
			if len(idx) == 0 {
				return
			}
			i := idx[r.Intn(len(idx))]
			what = "single parameter is repeated"
			j := r.Intn(len(nam) + 1)
			nam = append(nam[:j:j], append([]string{nam[i]}, nam[j:]...)...)
		}
		body = strings.Join(append(pos, nam...), " ")
	}
	if alloc == nil {
		t.Failf("harness-no-type", "%s", cmd)
	}
	var typ adc.MsgType
	copy(typ[:], cmd)
	desc := fmt.Sprintf("%s %s: %q", cmd, what, body)
	t.Logf("%s", desc)
	t.Seen(cmd + " " + body)
	t.Sample(func() string { return desc })
	fail := func(how string, v interface{}) {
		t.Failf("accepted "+cmd+" "+what, "%s: %q is accepted as %s", how, body, dump(v))
	}
	v := alloc()
	if err := adc.Unmarshal([]byte(body), v); err == nil {
		fail("Unmarshal", v)
	}
	t.Eval(1)
	t.Ev("refused ADC payloads", 1)
	kinds := []string{"I" + cmd, "H" + cmd, "C" + cmd, "B" + cmd + " AAAA", "D" + cmd + " AAAA BBBB", "E" + cmd + " AAAA BBBB", "U" + cmd + " " + g.hash()}
	if cmd != "SUP" && (body == "" || strings.IndexByte(" +-", body[0]) < 0) {
		kinds = append(kinds, "F"+cmd+" AAAA +TCP4 -NAT0")
	}
	line := kinds[r.Intn(len(kinds))]
	if body != "" {
		line += " " + body
	}
	line += "\n"
	p, err := adc.DecodePacketRaw([]byte(line))
	if err != nil {
		t.Failf("raw", "%q: %v", line, err)
	}
	raw, ok := p.Message().(*adc.RawMessage)
	if !ok || raw.Type != typ || string(raw.Data) != body {
		t.Failf("raw", "%q: %s", line, dump(p))
	}
	if m, ok := alloc().(adc.Message); ok {
		if err = p.DecodeMessageTo(m); err == nil {
			fail("DecodeMessageTo", m)
		}
	}
	if reg {
		if _, hub := alloc().(*adc.HubInfo); hub {
			return // another type is registered for the command
		}
		if m, err := adc.UnmarshalMessage(typ, []byte(body)); err == nil || m != nil {
			fail("UnmarshalMessage", m)
		}
		if m, err := raw.Decode(); err == nil || m != nil {
			fail("Decode", m)
		}
		if err := p.DecodeMessage(); err == nil {
			fail("DecodeMessage", p)
		}
		if m, err := adc.DecodePacket([]byte(line)); err == nil || m != nil {
			fail("DecodePacket", m)
		}
		a, b := g.w(), g.w()
		rd := adc.NewReader(gen.NewReader(r.Fork(), []byte("IMSG "+a+"\n"+line+"CMSG "+b+"\n")))
		if m, err := rd.ReadInfo(); err != nil || deref(m).(adc.ChatMessage).Text != a {
			t.Failf("message before", "%q: %v %v", a, m, err)
		}
		switch {
		case line[0] == 'I' && r.Bool():
			if m, err := rd.ReadInfo(); err == nil || m != nil {
				fail("ReadInfo", m)
			}
		case line[0] == 'C' && r.Bool():
			if m, err := rd.ReadClient(); err == nil || m != nil {
				fail("ReadClient", m)
			}
		default:
			if m, err := rd.ReadPacket(); err == nil || m != nil {
				fail("ReadPacket", m)
			}
		}
		if m, err := rd.ReadClient(); err != nil || deref(m).(adc.ChatMessage).Text != b {
			t.Failf("message after", "%q after %q: %v %v", b, line, m, err)
		}
		t.Eval(7)
	}
	// a hub can still relay the refused payload
	if raw, ok := p.Message().(*adc.RawMessage); !ok || raw.Type != typ || string(raw.Data) != body {
		t.Failf("payload lost", "%q: after a refused decoding the packet is %s", line, dump(p))
	}
	var buf bytes.Buffer
	if err := p.MarshalPacketADC(&buf); err != nil || buf.String() != line {
		t.Failf("payload lost", "%q: relayed as %q %v", line, buf.String(), err)
	}
	t.Eval(2)
}

// c28custom reports if the type decodes itself: the first value is used.
func c28custom(s aSpec, f aField) bool {
	rt := reflect.TypeOf(deref(s.new()))
	fld, ok := rt.FieldByName(f.name)
	if !ok {
		return true
	}
	_, ok = reflect.New(fld.Type).Interface().(adc.Unmarshaler)
	return ok
}

var errC28 = errors.New("refused by the caller")

// aRefuse fails to encode and decode.
type aRefuse struct{ X int }

func (aRefuse) MarshalADC(buf *bytes.Buffer) error {
	buf.WriteString("partial")
	return errC28
}
func (*aRefuse) UnmarshalADC(data []byte) error { return errC28 }

// message types of callers which cannot be encoded or decoded
type (
	aBadFloat struct {
		A string  `adc:"#"`
		F float64 `adc:"FL,req"`
	}
	aBadPosFloat struct {
		F float64 `adc:"#"`
	}
	aBadMap struct {
		A string            `adc:"NI"`
		M map[string]string `adc:"#"`
	}
	aBadStruct struct {
		S struct{ A int } `adc:"ST,req"`
	}
	aBadSlice struct {
		S []float32 `adc:"SL"`
	}
	aBadPtr struct {
		P *complex128 `adc:"PT"`
	}
	aBadNested struct {
		S [][]string `adc:"NS"`
	}
	aBadMarsh struct {
		A string  `adc:"#"`
		M aRefuse `adc:"MM,req"`
	}
	aBadPosMarsh struct {
		M aRefuse `adc:"#"`
		A string  `adc:"NI"`
	}
	aBadMarshSlice struct {
		M []aRefuse `adc:"MM"`
	}
	aBadMarshPtr struct {
		M *aRefuse `adc:"MM"`
	}
	aBadSelf   struct{ aRefuse }
	aBadInt    int
	aBadString string
)

func (aBadFloat) Cmd() adc.MsgType      { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadPosFloat) Cmd() adc.MsgType   { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadMap) Cmd() adc.MsgType        { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadStruct) Cmd() adc.MsgType     { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadSlice) Cmd() adc.MsgType      { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadPtr) Cmd() adc.MsgType        { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadNested) Cmd() adc.MsgType     { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadMarsh) Cmd() adc.MsgType      { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadPosMarsh) Cmd() adc.MsgType   { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadMarshSlice) Cmd() adc.MsgType { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadMarshPtr) Cmd() adc.MsgType   { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadSelf) Cmd() adc.MsgType       { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadInt) Cmd() adc.MsgType        { return adc.MsgType{'Q', 'A', 'A'} }
func (aBadString) Cmd() adc.MsgType     { return adc.MsgType{'Q', 'A', 'A'} }

// c28Bad makes a message that cannot be encoded, a pointer to decode to and a payload that selects the bad field.
var c28Bad = []func(g *c28g) (adc.Message, interface{}, string){
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadFloat{A: g.w(), F: mon.Pick(g.r, 0, 1.5, math.Inf(1))}, &aBadFloat{}, g.fill("%w FL1")
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadPosFloat{F: 1.5}, &aBadPosFloat{}, g.fill("%n")
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadMap{A: g.w(), M: map[string]string{"a": "b"}}, &aBadMap{}, g.fill("%w NI%w")
	},
	func(g *c28g) (adc.Message, interface{}, string) { return &aBadStruct{}, &aBadStruct{}, "ST1" },
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadSlice{S: []float32{1, 2}}, &aBadSlice{}, "SL1 SL2"
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return &aBadPtr{P: new(complex128)}, &aBadPtr{}, "PT1"
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadNested{S: [][]string{{"a"}, {g.w()}}}, &aBadNested{}, g.fill("NS%w NS%w")
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadMarsh{A: g.w()}, &aBadMarsh{}, g.fill("%w MM%w")
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadPosMarsh{A: g.w()}, &aBadPosMarsh{}, g.fill("%w NI%w")
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadMarshSlice{M: make([]aRefuse, g.r.Range(1, 3))}, &aBadMarshSlice{}, g.fill("MM%w")
	},
	func(g *c28g) (adc.Message, interface{}, string) {
		return aBadMarshPtr{M: &aRefuse{X: 1}}, &aBadMarshPtr{}, g.fill("MM%w")
	},
	func(g *c28g) (adc.Message, interface{}, string) { return aBadSelf{}, &aBadSelf{}, g.fill("%w") },
	func(g *c28g) (adc.Message, interface{}, string) { return aBadInt(5), new(aBadInt), "5" },
	func(g *c28g) (adc.Message, interface{}, string) { return aBadString(g.w()), new(aBadString), g.w() },
}

func c28ADCEncode(t *mon.T) {
	r := t.R
	g := &c28g{r}
	m, v, body := c28Bad[t.Index%len(c28Bad)](g)
	desc := fmt.Sprintf("%T %s", m, dump(m))
	t.Logf("%s, payload %q", desc, body)
	t.Seen(desc + body)
	t.Sample(func() string { return desc })
	var buf bytes.Buffer
	if err := adc.Marshal(&buf, m); err == nil {
		t.Failf(fmt.Sprintf("encoded %T", m), "%s is encoded to %q", desc, buf.String())
	}
	if err := adc.Unmarshal([]byte(body), v); err == nil {
		t.Failf(fmt.Sprintf("decoded %T", m), "%q is accepted as %s", body, dump(v))
	}
	if err := (&adc.RawMessage{Type: m.Cmd(), Data: []byte(body)}).MarshalADC(&buf); err != nil {
		t.Failf("raw", "%v", err)
	}
	p := &adc.InfoPacket{Msg: &adc.RawMessage{Type: m.Cmd(), Data: []byte(body)}}
	if to, ok := v.(adc.Message); ok {
		if err := p.DecodeMessageTo(to); err == nil {
			t.Failf(fmt.Sprintf("decoded %T", m), "%q is accepted as %s", body, dump(to))
		}
	}
	out := gen.NewWriter()
	w := adc.NewWriterSize(out, mon.Pick(r, 0, 16, 4096))
	want := ""
	good := func() {
		s := g.w()
		want += "IMSG " + s + "\n"
		if err := w.WriteInfo(adc.ChatMessage{Text: s}); err != nil {
			t.Failf("good message", "%s: %v", desc, err)
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		good()
	}
	for i := r.Range(1, 3); i > 0; i-- {
		var err error
		how := r.Intn(9)
		sid := adc.SID{'A', 'B', 'C', 'D'}
		switch how {
		case 0:
			err = w.WriteInfo(m)
		case 1:
			err = w.WriteClient(m)
		case 2:
			err = w.WritePacket(&adc.HubPacket{Msg: m})
		case 3:
			err = w.WriteBroadcast(sid, m)
		case 4:
			err = w.WritePacket(&adc.DirectPacket{ID: sid, To: sid, Msg: m})
		case 5:
			err = w.WritePacket(&adc.EchoPacket{ID: sid, To: sid, Msg: m})
		case 6:
			err = w.WritePacket(&adc.FeaturePacket{ID: sid, Sel: []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}}, Msg: m})
		case 7:
			err = w.WritePacket(&adc.UDPPacket{Msg: m})
		case 8:
			err = w.BroadcastStream(sid).WriteMessage(m)
		}
		if err == nil {
			t.Failf(fmt.Sprintf("written %T", m), "method %d: %s", how, desc)
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		good()
	}
	if err := w.Flush(); err != nil {
		t.Failf("flush", "%s: %v", desc, err)
	}
	if got := string(out.Bytes()); got != want {
		t.Failf("wire", "%s: on the wire %q, expected %q", desc, got, want)
	}
	t.Eval(5)
	t.Ev("ADC messages refused on encoding", 1)
}

// c28ADCRouting gives incomplete routing headers directly to the packets.
func c28ADCRouting(t *mon.T) {
	r := t.R
	g := &c28g{r}
	kinds := []struct {
		kind byte
		new  func() adc.Packet
	}{
		{'I', func() adc.Packet { return &adc.InfoPacket{} }},
		{'H', func() adc.Packet { return &adc.HubPacket{} }},
		{'C', func() adc.Packet { return &adc.ClientPacket{} }},
		{'B', func() adc.Packet { return &adc.BroadcastPacket{} }},
		{'D', func() adc.Packet { return &adc.DirectPacket{} }},
		{'E', func() adc.Packet { return &adc.EchoPacket{} }},
		{'F', func() adc.Packet { return &adc.FeaturePacket{} }},
		{'U', func() adc.Packet { return &adc.UDPPacket{} }},
	}
	k := kinds[t.Index%len(kinds)]
	var data, what string
	pay := mon.Pick(r, "", " "+g.w(), " NI"+g.w()+" SS1")
	switch n := r.Intn(4); {
	case n == 0:
		what = "no line delimiter"
		data = map[byte]string{'I': pay, 'H': pay, 'C': pay, 'B': "AAAA" + pay, 'D': "AAAA BBBB" + pay, 'E': "AAAA BBBB" + pay, 'F': "AAAA" + pay, 'U': g.hash() + pay}[k.kind]
	case k.kind == 'I' || k.kind == 'H' || k.kind == 'C':
		what = "empty"
	case k.kind == 'B' || k.kind == 'F':
		what = "incomplete id"
		data = mon.Pick(r, "", "\n", "A\n", "AA\n", "AAA\n", "AAAAA\n", "AAAAAA x\n", "AAAA\tx\n", "AAAANI\n")
		if k.kind == 'F' && r.P(1, 3) {
			what = "incomplete feature"
			data = "AAAA " + mon.Pick(r, "+TCP4 ", "-NAT0 +TCP4 ", "") + mon.Pick(r, "+", "-") + mon.Pick(r, "", "T", "TC", "TCP") + "\n"
		}
	case k.kind == 'U':
		what = "bad id"
		data = g.badHash()
		if len(data) == 39 || len(data) < 39 {
			data += pay
		}
		data += "\n"
		if r.P(1, 3) {
			what = "no separator"
			data = g.hash() + mon.Pick(r, "x", "NIx", "\t", "A") + "\n"
		} else if r.P(1, 4) {
			what = "short"
			data = mon.Pick(r, "", "\n", "A\n", g.hash()[:38]+"\n")
		}
	default:
		what = "incomplete ids"
		data = mon.Pick(r, "", "\n", "AAAA\n", "AAAA \n", "AAAA B\n", "AAAA BBB\n", "AAAABBBB\n", "AAAABBBBB\n", "AAAABBBBBB\n", "AAAA BBBBB\n", "AAAAABBBB NI\n", "AAAA BBBBNIx\n", "AAA BBBB NI\n", "AAAA  BBBB x\n")
		if strings.HasPrefix(data, "AAAA  BBBB") {
			data = "AAAA  BBB" + g.w() + "\n" // the second id has a space and no separator follows
		}
	}
	t.Logf("%c %s: %q", k.kind, what, data)
	t.Seen(string(k.kind) + data)
	t.Sample(func() string { return fmt.Sprintf("%c %s: %q", k.kind, what, data) })
	p := k.new()
	exact := make([]byte, len(data)) // no spare capacity
	copy(exact, data)
	if err := p.UnmarshalPacketADC(adc.MsgType{'M', 'S', 'G'}, exact[:len(data):len(data)]); err == nil {
		t.Failf("accepted "+string(k.kind)+" "+what, "%q is accepted as %s", data, dump(p))
	}
	t.Eval(1)
	if what != "empty" && data != "" {
		line := string(k.kind) + "MSG " + data
		if p, err := adc.DecodePacketRaw([]byte(line)); err == nil || p != nil {
			t.Failf("accepted "+string(k.kind)+" "+what, "%q is accepted as %s", line, dump(p))
		}
		if p, err := adc.DecodePacket([]byte(line)); err == nil || p != nil {
			t.Failf("accepted "+string(k.kind)+" "+what, "%q is accepted as %s", line, dump(p))
		}
		t.Eval(2)
	}
	t.Ev("refused routing headers", 1)
}

// c28ADCAPI checks that a message is never decoded to another type or from another kind of a packet.
func c28ADCAPI(t *mon.T) {
	r := t.R
	g := &c28g{r}
	text := g.w()
	lines := []string{"IMSG " + text, "HMSG " + text, "CMSG " + text, "BMSG AAAA " + text, "DMSG AAAA BBBB " + text, "EMSG AAAA BBBB " + text, "FMSG AAAA +TCP4 " + text, "UMSG " + g.hash() + " " + text}
	line := lines[t.Index%len(lines)] + "\n"
	t.Logf("%q", line)
	t.Seen(line)
	t.Sample(func() string { return fmt.Sprintf("%q", line) })
	p, err := adc.DecodePacketRaw([]byte(line))
	if err != nil {
		t.Failf("valid packet", "%q: %v", line, err)
	}
	// another type
	other := mon.Pick[adc.Message](r, &adc.UserInfo{}, &adc.SearchRequest{}, &adc.Status{}, &adc.ZOn{}, &adc.RawMessage{Type: adc.MsgType{'M', 'S', 'H'}})
	if err := p.DecodeMessageTo(other); err == nil {
		t.Failf("decoded as another type", "%q is accepted as %s", line, dump(other))
	}
	var m adc.ChatMessage
	if err := p.DecodeMessageTo(&m); err != nil || m.Text != text {
		t.Failf("valid packet", "%q: %v %v", line, m, err)
	}
	if err := p.DecodeMessage(); err != nil {
		t.Failf("valid packet", "%q: %v", line, err)
	}
	// already decoded
	var m2 adc.ChatMessage
	if err := p.DecodeMessageTo(&m2); err == nil && m2.Text != text {
		t.Failf("decoded twice", "%q is accepted as %s", line, dump(m2))
	}
	if err := p.DecodeMessage(); err != nil || deref(p.Message()).(adc.ChatMessage).Text != text {
		t.Failf("decoded twice", "%q: %s %v", line, dump(p), err)
	}
	// another kind of a packet
	rd := adc.NewReader(gen.NewReader(r.Fork(), []byte(line+"IMSG next\n")))
	if r.Bool() {
		m, err := rd.ReadInfo()
		if line[0] == 'I' {
			if err != nil || deref(m).(adc.ChatMessage).Text != text {
				t.Failf("valid packet", "%q: %v %v", line, m, err)
			}
		} else if err == nil || m != nil {
			t.Failf("another kind", "ReadInfo: %q is accepted as %s", line, dump(m))
		}
	} else {
		m, err := rd.ReadClient()
		if line[0] == 'C' {
			if err != nil || deref(m).(adc.ChatMessage).Text != text {
				t.Failf("valid packet", "%q: %v %v", line, m, err)
			}
		} else if err == nil || m != nil {
			t.Failf("another kind", "ReadClient: %q is accepted as %s", line, dump(m))
		}
	}
	if m, err := rd.ReadInfo(); err != nil || deref(m).(adc.ChatMessage).Text != "next" {
		t.Failf("message after", "after %q: %v %v", line, m, err)
	}
	t.Eval(6)
	t.Ev("packets", 1)
}
