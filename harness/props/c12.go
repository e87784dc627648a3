package props

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	dctypes "github.com/direct-connect/go-dc/types"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c12() mon.Property {
	return mon.Property{
		ID: "C12",
		Rule: "own-writer: a valid message of each registered type is encoded and parsed with an independent parser of the canonical grammar. peer-variants: an independent encoder writes a message of each type in a random accepted variant (key case and order, absent tags, legacy modes, optional fields, raw or escaped or legacy-escaped separators, numbers with spaces, lists with or without terminators) and the library must decode the values the encoder started from. " +
			"grid: all combinations of the small-domain fields (search flags, size forms, data types, connection kinds, modes, flags, tag keys). Non-trivial: every case; distinct by wire bytes.",
		Assume: []string{"the grammar of the NMDC protocol and of its widely used extensions as restated in harness/ref/nmdc.go and harness/props/c12.go"},
		Monitors: []mon.Monitor{
			{Name: "own-writer", Quick: 480000, Thorough: 3000000, Run: c12Own},
			{Name: "own-scale", Quick: 6000, Thorough: 100000, Run: func(t *mon.T) { c12Write(t, scaleNGen(t.R, scaleBytes(t.R))) }},
			{Name: "peer-variants", Quick: 720000, Thorough: 4000000, Run: c12Variants},
			{Name: "grid", Quick: c12GridSize, Thorough: c12GridSize, Run: c12Grid},
			{Name: "vocabulary", Quick: 4096, Thorough: 4096, Run: c12Vocab},
		},
	}
}

func c12Own(t *mon.T) { c12Write(t, newNGen(t.R)) }

func c12Write(t *mon.T, g *nGen) {
	typ := nmdcTypes[t.Index%len(nmdcTypes)]
	p := g.pick(typ)
	if c, ok := p.in.(*nmdc.ChatMessage); ok && c.Name == "" && strings.HasPrefix(c.Text, "<") {
		return
	}
	wire, err := nmdc.Marshal(nil, p.in)
	if err != nil {
		t.Failf("marshal-error", "%v: %s", err, dump(p.in))
	}
	cmd, rec, err := ref.NMDC(string(wire))
	t.Eval(1)
	if err != nil {
		t.Failf("malformed", "independent parser: %v: %s for %s", err, q(wire), dump(p.in))
	}
	if cmd != typ {
		t.Failf("command", "independent parser: %q: %s", cmd, q(wire))
	}
	if g, w := rec.String(), flat(p.want).String(); g != w {
		t.Failf("values-"+typ, "independent parser sees other values:\n got %s\nwant %s\nwire %s", g, w, q(wire))
	}
	t.Ev("own-"+typ, 1)
	t.Seen(string(wire))
}

// peer writes messages in accepted variants.
type peer struct {
	r *mon.Rand
	g *nGen
}

// esc writes a text with separators escaped one way or another.
func (p *peer) esc(s string, must string) string {
	r := p.r
	var sb strings.Builder
	style := r.Intn(4)
	for _, c := range s {
		k := style
		if k == 3 {
			k = r.Intn(3)
		}
		forms := map[rune][3]string{
			'$': {"&#36;", "/%DCN036%/", "&#36;"},
			'|': {"&#124;", "/%DCN124%/", "&#124;"},
			'&': {"&amp;", "&amp;", "&#38;"},
			'<': {"&lt;", "<", "&#60;"},
			'>': {"&gt;", ">", "&#62;"},
			'`': {"`", "/%DCN096%/", "&#96;"},
			'~': {"~", "/%DCN126%/", "~"},
		}[c]
		if forms[0] == "" {
			sb.WriteRune(c)
			continue
		}
		f := forms[k]
		if strings.ContainsRune(must, c) && f == string(c) {
			f = forms[0]
		}
		sb.WriteString(f)
	}
	out := sb.String()
	return out
}

// okEsc checks that writing did not create an unintended legacy escape.
func (p *peer) text(max int, not string) (val, wire string) {
	val = gen.Text(p.r, max, not+"%")
	return val, p.esc(val, "")
}

// name is a value and a wire form; raw angle brackets are only used when asked for.
func (p *peer) name(must string) (val, wire string) {
	for {
		val = gen.Name(p.r, false)
		val = strings.Map(func(c rune) rune {
			if c == '%' || c == '\v' || c == '\f' || c == 0x85 || c == 0xa0 || c == 0x2028 {
				return -1
			}
			return c
		}, val)
		if p.r.P(1, 6) {
			val += mon.Pick(p.r, "$", "|", "$x", "|y") // can only be escaped
		}
		wire = p.esc(val, must)
		if val != "" && len(wire) <= 256 {
			return val, wire
		}
	}
}

// num adds spaces around a number.
func (p *peer) num(s string) string {
	if p.r.P(1, 4) {
		return strings.Repeat(" ", p.r.Intn(3)) + s + strings.Repeat(" ", p.r.Intn(3))
	}
	return s
}

func (p *peer) key(c byte) string {
	if p.r.Bool() {
		c |= 0x20
	}
	return string([]byte{c})
}

func small(r *mon.Rand) int { return mon.Pick(r, 0, 1, 2, 5, 10, 99, 100, 1234, 65535, 2147483647) }

var peerGens = map[string]func(p *peer) (wire string, want nmdc.Message){
	"": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.ChatMessage{}
		var text, name string
		m.Text, text = p.text(200, "")
		switch r.Intn(4) {
		case 0:
			// no name
			if m.Text == "" || strings.HasPrefix(text, "<") {
				m.Text = "x" + m.Text
				text = "x" + text
			}
			return text, m
		case 1:
			// raw brackets in the name
			m.Name, name = p.name("<")
			return "<" + name + "> " + text, m
		case 2:
			// no space after the name
			m.Name, name = p.name("<>")
			m.Text = "hello" + gen.Text(r, 30, ">%&$|")
			return "<" + name + ">" + m.Text, m
		}
		m.Name, name = p.name("<>")
		return "<" + name + "> " + text, m
	},
	"To:": func(p *peer) (string, nmdc.Message) {
		m := &nmdc.PrivateMessage{}
		var to, from, name, text string
		m.To, to = p.name("")
		m.From, from = p.name("")
		m.Name, name = m.From, from
		if p.r.Bool() {
			m.Name, name = p.name("")
		}
		m.Text, text = p.text(200, "")
		if p.r.P(1, 4) {
			// raw dollars in the text
			text = strings.Replace(text, "&#36;", "$", -1)
		}
		return "$To: " + to + " From: " + from + " $<" + name + "> " + text, m
	},
	"MCTo": func(p *peer) (string, nmdc.Message) {
		m := &nmdc.MCTo{}
		var to, from, text string
		m.To, to = p.name("")
		m.From, from = p.name("")
		m.Text, text = p.text(200, "")
		return "$MCTo " + to + " $" + from + " " + text, m
	},
	"UserCommand": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.UserCommand{Typ: nmdc.UCmdType(mon.Pick(r, 0, 1, 2, 255)), Context: nmdc.UCmdContext(r.Range(1, 15))}
		s := fmt.Sprintf("$UserCommand %d %d", m.Typ, m.Context)
		if m.Typ == nmdc.TypeSeparator || m.Typ == nmdc.TypeErase {
			if r.Bool() {
				s += " "
			}
			return s, m
		}
		var path []string
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			v := strings.Trim(gen.Text(r, 30, "\\%"), " \t\r\n")
			if v == "" {
				v = "p"
			}
			m.Path = append(m.Path, v)
			path = append(path, p.esc(v, "$|"))
		}
		m.Command = strings.Trim(gen.Text(r, 100, "%"), " \t\r\n")
		if m.Command == "" {
			m.Command = "c"
		}
		c := p.esc(m.Command, "|")
		if r.Bool() {
			// commands are usually sent with raw dollars
			c = strings.Replace(c, "&#36;", "$", -1)
		}
		// empty elements of the path are ignored
		menu := path[0]
		if r.P(1, 8) {
			menu = "\\" + menu
		}
		for _, v := range path[1:] {
			menu += mon.Pick(r, "\\", "\\", "\\", "\\\\") + v
		}
		if r.P(1, 8) {
			menu += "\\"
		}
		return s + " " + menu + mon.Pick(r, " ", " ", "") + "$" + c, m
	},
	"MyINFO": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.MyINFO{}
		name, desc := "", ""
		m.Name, name = p.name("")
		m.Desc, desc = p.text(100, "")
		legacy := " "
		if r.P(1, 3) {
			legacy = mon.Pick(r, "A", "P", "5")
		}
		tag := ""
		if r.P(1, 5) {
			// no tag
			m.Desc = strings.Replace(m.Desc, "<", "", -1)
			desc = p.esc(m.Desc, "")
			if legacy != " " {
				m.Mode = nmdc.UserMode(legacy[0])
			}
		} else {
			client := mon.Pick(r, "++", "EiskaltDC++", "ApexDC", "My Client", "StrgDC++", "DC Viewer", "a V b", "x v y", "")
			m.Client = dctypes.Software{Name: client}
			var fields []string
			if r.P(4, 5) {
				m.Mode = mon.Pick(r, nmdc.UserModeActive, nmdc.UserModePassive, nmdc.UserModeSOCKS5, nmdc.UserModeUnknown)
				v := string([]byte{byte(m.Mode)})
				if m.Mode == 0 {
					v = mon.Pick(r, " ", "")
				}
				fields = append(fields, p.key('M')+":"+v)
			}
			switch r.Intn(5) {
			case 0:
			case 1:
				m.HubsNormal = small(r)
				fields = append(fields, p.key('H')+":"+p.num(strconv.Itoa(m.HubsNormal)))
			case 2:
				m.HubsNormal = 1
				fields = append(fields, p.key('H')+":")
			default:
				m.HubsNormal, m.HubsRegistered, m.HubsOperator = small(r), small(r), small(r)
				fields = append(fields, p.key('H')+":"+p.num(strconv.Itoa(m.HubsNormal))+"/"+p.num(strconv.Itoa(m.HubsRegistered))+"/"+p.num(strconv.Itoa(m.HubsOperator)))
			}
			if r.P(4, 5) {
				m.Slots = small(r)
				fields = append(fields, p.key('S')+":"+p.num(strconv.Itoa(m.Slots)))
			}
			for _, k := range []byte("OLBFZ") {
				if r.P(1, 5) {
					v := mon.Pick(r, "1", "0", "50", "2.5", "")
					if m.Extra == nil {
						m.Extra = map[string]string{}
					}
					m.Extra[string([]byte{k})] = v
					fields = append(fields, p.key(k)+":"+v)
				}
			}
			if r.P(1, 8) {
				if m.Extra == nil {
					m.Extra = map[string]string{}
				}
				m.Extra["xx"] = "y"
				fields = append(fields, "xx:y")
			}
			vers := mon.Pick(r, "0.868", "1", "2.0[3]", "0.401 beta")
			head := ""
			switch r.Intn(4) {
			case 0:
				head = client + " v:" + vers
				m.Client.Version = vers
			case 1:
				// the version is a separate field
				head = client
				fields = append(fields, p.key('V')+":"+vers)
				m.Client.Version = vers
			case 2:
				head = client // no version
			default:
				head = client + " V:" + vers
				m.Client.Version = vers
			}
			out := make([]string, len(fields))
			for i, j := range r.Perm(len(fields)) {
				out[i] = fields[j]
			}
			tag = "<" + strings.Join(append([]string{head}, out...), ",")
			if r.P(1, 8) {
				tag += ","
			}
			if tag == "<" {
				tag += "," // not an empty tag
			}
			tag += ">"
		}
		m.Flag = nmdc.UserFlag(r.Range(1, 255))
		if m.Flag == '$' || m.Flag == '|' {
			m.Flag = 1
		}
		conn := ""
		m.Conn = mon.Pick(r, "", "1", "1000", "LAN(T1)", "Cable", "20 Mb/s", "0.02", "Satellite")
		conn = m.Conn + string([]byte{byte(m.Flag)})
		if r.P(1, 10) {
			m.Conn, m.Flag, conn = "", 0, ""
		}
		m.ShareSize = p.g.u64()
		share := p.num(u(m.ShareSize))
		if r.P(1, 10) {
			m.ShareSize, share = 0, ""
		}
		email := ""
		m.Email, email = p.text(30, "")
		return "$MyINFO $ALL " + name + " " + desc + tag + "$" + legacy + "$" + conn + "$" + email + "$" + share + "$", m
	},
	"HubINFO": func(p *peer) (string, nmdc.Message) {
		r := p.r
		full := p.g.pick("HubINFO").in.(*nmdc.HubINFO)
		m := &nmdc.HubINFO{}
		n := r.Range(1, 11)
		var f []string
		add := func(s string, set func()) {
			if len(f) < n {
				f = append(f, s)
				set()
			}
		}
		txt := func(dst *string) {
			v, w := p.text(40, "")
			add(w, func() { *dst = v })
		}
		num := func(dst *int) {
			v := small(r)
			add(p.num(strconv.Itoa(v)), func() { *dst = v })
		}
		txt(&m.Name)
		add(full.Host, func() { m.Host = full.Host })
		txt(&m.Desc)
		num(&m.I1)
		num(&m.I2)
		num(&m.I3)
		num(&m.I4)
		soft := full.Soft.Name
		if full.Soft.Version != "" {
			soft += " " + full.Soft.Version
		}
		add(soft, func() { m.Soft = full.Soft })
		txt(&m.Owner)
		txt(&m.State)
		add(full.Encoding, func() { m.Encoding = full.Encoding })
		return "$HubINFO " + strings.Join(f, "$"), m
	},
	"Search": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.Search{SizeRestricted: r.Bool(), IsMaxSize: r.Bool(), DataType: nmdc.DataType(r.Range(1, 10))}
		who := ""
		if r.Bool() {
			m.Address = p.g.addr()
			who = m.Address
		} else {
			n, w := p.name("")
			m.User, who = n, "Hub:"+w
		}
		fl := tf(m.SizeRestricted) + "?" + tf(m.IsMaxSize)
		m.Size = p.g.u64()
		size := p.num(u(m.Size))
		switch r.Intn(6) {
		case 0:
			m.Size, size = 0, ""
		case 1:
			// no restriction
			m.SizeRestricted, m.Size, size = false, 0, "-1"
		}
		pat := ""
		if m.DataType == nmdc.DataTypeTTH {
			m.TTH = p.g.tth()
			pat = "TTH:" + b32(m.TTH[:]) + mon.Pick(r, "", "$")
		} else {
			m.Pattern = gen.Text(r, 60, "%")
			// each space is a dollar; a dollar is escaped
			pat = strings.Replace(p.esc(m.Pattern, "$|"), " ", "$", -1)
			if r.P(1, 6) {
				pat = strings.Replace(pat, "$", " ", -1) // some do not replace spaces
			}
		}
		return fmt.Sprintf("$Search %s %s?%s?%s?%s", who, fl, size, p.num(strconv.Itoa(int(m.DataType))), pat), m
	},
	"SR": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.SR{IsDir: r.Bool()}
		var from string
		m.From, from = p.name("")
		var path []string
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			v := gen.Text(r, 40, "\\\x05%")
			if r.P(1, 4) {
				// looks like slots or a size
				v += mon.Pick(r, " 1/2", "/2", "/01", " 3/4/5", "1/2", " 12/", " /3", " 7", "/", " ")
			}
			m.Path = append(m.Path, v)
			path = append(path, p.esc(v, ""))
		}
		wpath := strings.Join(path, "\\")
		m.FreeSlots, m.TotalSlots = small(r), small(r)
		s := "$SR " + from + " " + wpath
		if !m.IsDir {
			m.Size = p.g.u64()
			s += "\x05" + u(m.Size)
		}
		s += fmt.Sprintf(" %d/%d\x05", m.FreeSlots, m.TotalSlots)
		m.HubAddress = p.g.addr()
		if r.P(1, 4) {
			m.HubAddress = "1.2.3.4"
		}
		if r.Bool() {
			m.TTH = p.g.tth()
			s += "TTH:" + b32(m.TTH[:])
		} else {
			var w string
			m.HubName, w = p.text(60, "\x05")
			if strings.HasPrefix(m.HubName, "TTH:") {
				m.HubName, w = "x"+m.HubName, "x"+w
			}
			s += w
		}
		s += " (" + m.HubAddress + ")"
		if r.Bool() {
			var to string
			m.To, to = p.name("")
			s += "\x05" + to
		}
		return s, m
	},
	"SA": func(p *peer) (string, nmdc.Message) {
		m := &nmdc.TTHSearchActive{TTH: *p.g.tth(), Address: p.g.addr()}
		return "$SA " + b32(m.TTH[:]) + " " + m.Address, m
	},
	"SP": func(p *peer) (string, nmdc.Message) {
		m := &nmdc.TTHSearchPassive{TTH: *p.g.tth()}
		var w string
		m.User, w = p.name("")
		return "$SP " + b32(m.TTH[:]) + " " + w, m
	},
	"ConnectToMe": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.ConnectToMe{Address: p.g.addr(), Kind: nmdc.CTMKind(r.Intn(3)), Secure: r.Bool()}
		var w string
		m.Targ, w = p.name("")
		s := "$ConnectToMe " + w + " " + m.Address + []string{"", "N", "R"}[m.Kind]
		if m.Secure {
			s += "S"
		}
		if m.Kind == nmdc.CTMPassiveReq {
			m.Src, w = p.name("")
			s += " " + w
		}
		return s, m
	},
	"RevConnectToMe": func(p *peer) (string, nmdc.Message) {
		m := &nmdc.RevConnectToMe{}
		var a, b string
		m.From, a = p.name("")
		m.To, b = p.name("")
		return "$RevConnectToMe " + a + " " + b, m
	},
	"OpList": func(p *peer) (string, nmdc.Message) { l, w := p.list(); return "$OpList " + w, &nmdc.OpList{Names: l} },
	"BotList": func(p *peer) (string, nmdc.Message) {
		l, w := p.list()
		return "$BotList " + w, &nmdc.BotList{Names: l}
	},
	"UserIP": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := &nmdc.UserIP{}
		var f []string
		for i, n := 0, mon.Pick(r, 0, 1, 2, 5, 20); i < n; i++ {
			v, w := p.name("")
			a := nmdc.UserAddress{Name: v, IP: mon.Pick(r, "1.2.3.4", "2001:db8::1", "")}
			if a.IP != "" {
				w += " " + a.IP
			}
			m.List = append(m.List, a)
			f = append(f, w)
		}
		s := "$UserIP " + strings.Join(f, "$$")
		if r.Bool() {
			s += "$$"
			if r.P(1, 4) {
				s += "\r"
			}
		}
		return s, m
	},
	"FailOver": func(p *peer) (string, nmdc.Message) {
		m := p.g.pick("FailOver").in.(*nmdc.FailOver)
		if len(m.Host) == 0 {
			return mon.Pick(p.r, "$FailOver", "$FailOver "), m
		}
		return "$FailOver " + strings.Join(m.Host, ","), m
	},
	"Lock": func(p *peer) (string, nmdc.Message) {
		m := p.g.pick("Lock").in.(*nmdc.Lock)
		s := "$Lock "
		if !m.NoExt {
			s += "EXTENDEDPROTOCOL"
		}
		s += m.Lock
		switch {
		case m.PK != "" && m.Ref != "":
			s += " Pk=" + m.PK + "Ref=" + m.Ref
		case m.PK != "":
			s += " Pk=" + m.PK
		case m.Ref != "":
			s += mon.Pick(p.r, " Ref=", " Pk=Ref=") + m.Ref
		default:
			s += mon.Pick(p.r, "", " Pk=", " ")
		}
		return s, m
	},
	"Supports": func(p *peer) (string, nmdc.Message) {
		m := p.g.pick("Supports").in.(*nmdc.Supports)
		s := "$Supports"
		for _, e := range m.Ext {
			s += strings.Repeat(" ", 1+p.r.Intn(2)) + e
		}
		return s + mon.Pick(p.r, "", " ", "  "), m
	},
	"ADCGET": func(p *peer) (string, nmdc.Message) {
		r := p.r
		m := p.g.pick("ADCGET").in.(*nmdc.ADCGet)
		m.ContentType = nmdc.String(gen.Text(r, 10, " %"))
		m.Identifier = nmdc.String(gen.Text(r, 60, " %"))
		s := fmt.Sprintf("$ADCGET %s %s %d %d", p.esc(string(m.ContentType), ""), p.esc(string(m.Identifier), ""), m.Start, m.Length)
		var f []string
		if m.Compressed {
			f = append(f, "ZL1")
		}
		if m.DownloadedBytes != nil {
			f = append(f, "DB"+u(*m.DownloadedBytes))
		}
		if r.P(1, 4) {
			f = append(f, "XX1") // unknown flag
		}
		for _, i := range r.Perm(len(f)) {
			s += " " + f[i]
		}
		return s, m
	},
	"ADCSND": func(p *peer) (string, nmdc.Message) {
		m := p.g.pick("ADCSND").in.(*nmdc.ADCSnd)
		m.ContentType = nmdc.String(gen.Text(p.r, 10, " %"))
		m.Identifier = nmdc.String(gen.Text(p.r, 60, " %"))
		s := fmt.Sprintf("$ADCSND %s %s %d %d", p.esc(string(m.ContentType), ""), p.esc(string(m.Identifier), ""), m.Start, m.Length)
		if m.Compressed {
			s += " ZL1"
		}
		return s, m
	},
	"Direction": func(p *peer) (string, nmdc.Message) {
		m := p.g.pick("Direction").in.(*nmdc.Direction)
		s := "Download"
		if m.Upload {
			s = "Upload"
		}
		return fmt.Sprintf("$Direction %s %s", s, p.num(strconv.Itoa(int(m.Number)))), m
	},
}

func (p *peer) list() (nmdc.Names, string) {
	var (
		vals nmdc.Names
		ws   []string
	)
	for i, n := 0, mon.Pick(p.r, 0, 1, 2, 3, 10, 40); i < n; i++ {
		v, w := p.name("")
		vals = append(vals, v)
		ws = append(ws, w)
	}
	return vals, strings.Join(ws, "$$") + mon.Pick(p.r, "$$", "$$", "")
}

func init() {
	for _, s := range []string{"GetTopic", "BadPass", "GetPass", "ZOn", "HubIsFull", "MaxedOut", "GetNickList"} {
		s := s
		peerGens[s] = func(p *peer) (string, nmdc.Message) {
			return "$" + s + mon.Pick(p.r, "", " "), nmdc.NewMessage(s)
		}
	}
	for _, s := range []string{"Kick", "Close", "ValidateNick", "ValidateDenide", "MyNick", "Quit", "LogedIn", "Hello"} {
		s := s
		peerGens[s] = func(p *peer) (string, nmdc.Message) {
			v, w := p.name("")
			n := nmdc.Name(v)
			m := map[string]nmdc.Message{"Kick": &nmdc.Kick{Name: n}, "Close": &nmdc.Close{Name: n}, "ValidateNick": &nmdc.ValidateNick{Name: n}, "ValidateDenide": &nmdc.ValidateDenide{Name: n},
				"MyNick": &nmdc.MyNick{Name: n}, "Quit": &nmdc.Quit{Name: n}, "LogedIn": &nmdc.LogedIn{Name: n}, "Hello": &nmdc.Hello{Name: n}}[s]
			return "$" + s + " " + w, m
		}
	}
	for _, s := range []string{"SetTopic", "MyPass", "HubName", "HubTopic", "BotINFO", "SetIcon", "SetLogo", "Failed", "Error"} {
		s := s
		peerGens[s] = func(p *peer) (string, nmdc.Message) {
			v, w := p.text(100, "")
			n := nmdc.String(v)
			var err error
			if v != "" {
				err = errors.New(v)
			}
			m := map[string]nmdc.Message{"SetTopic": &nmdc.SetTopic{String: n}, "MyPass": &nmdc.MyPass{String: n}, "HubName": &nmdc.HubName{String: n}, "HubTopic": &nmdc.HubTopic{Text: v},
				"BotINFO": &nmdc.BotINFO{String: n}, "SetIcon": &nmdc.SetIcon{String: n}, "SetLogo": &nmdc.SetLogo{String: n}, "Failed": &nmdc.Failed{Err: err}, "Error": &nmdc.Error{Err: err}}[s]
			if p.r.P(1, 5) {
				w = strings.Replace(w, "&#36;", "$", -1) // a raw dollar is not a separator here
			}
			return "$" + s + " " + w, m
		}
	}
	for _, s := range []string{"ForceMove", "Version"} {
		s := s
		peerGens[s] = func(p *peer) (string, nmdc.Message) {
			m := p.g.pick(s).in
			return "$" + s + " " + flat(m)["value"], m
		}
	}
}

var peerTypes = func() []string {
	var out []string
	for _, typ := range nmdcTypes {
		if _, ok := peerGensHas(typ); ok {
			out = append(out, typ)
		}
	}
	return out
}

func peerGensHas(typ string) (func(p *peer) (string, nmdc.Message), bool) {
	f, ok := peerGens[typ]
	return f, ok
}

func checkPeer(t *mon.T, typ, line string, want nmdc.Message) {
	if _, ok := want.(*nmdc.ChatMessage); ok && line == "" {
		return
	}
	t.Eval(1)
	got, err := nmdc.Unmarshal(nil, []byte(line+"|"))
	if err != nil {
		t.Failf("rejected-"+typ, "a peer's message is rejected: %v: %q, expected %s", err, line, dump(want))
	}
	if g, w := dump(got), dump(want); g != w {
		t.Failf("values-"+typ, "decoded to other values:\n got %s\nwant %s\nwire %q", g, w, line)
	}
	t.Seen(line)
}

func c12Variants(t *mon.T) {
	types := peerTypes()
	typ := types[t.Index%len(types)]
	p := &peer{r: t.R, g: newNGen(t.R)}
	line, want := peerGens[typ](p)
	checkPeer(t, typ, line, want)
	t.Ev("peer-"+typ, 1)
	t.Sample(func() string { return line })
}

// The grid enumerates small domains.
const (
	gridSearch  = 2 * 2 * 4 * 10 * 2
	gridCTM     = 3 * 2 * 5
	gridMode    = 6 * 6
	gridFlag    = 256
	gridTag     = 32 * 4
	c12GridSize = gridSearch + gridCTM + gridMode + gridFlag + gridTag
)

func c12Grid(t *mon.T) {
	i := t.Index
	next := func(n int) int {
		v := i % n
		i /= n
		return v
	}
	switch {
	case i < gridSearch:
		m := &nmdc.Search{SizeRestricted: next(2) == 1, IsMaxSize: next(2) == 1}
		fl := tf(m.SizeRestricted) + "?" + tf(m.IsMaxSize)
		size := []string{"0", "18446744073709551615", "", "-1"}[next(4)]
		switch size {
		case "-1":
			m.SizeRestricted = false
		case "18446744073709551615":
			m.Size = 1<<64 - 1
		}
		m.DataType = nmdc.DataType(1 + next(10))
		who := "1.1.1.1:1"
		if next(2) == 1 {
			who, m.User = "Hub:me", "me"
		} else {
			m.Address = who
		}
		pat := "a$b"
		m.Pattern = "a b"
		if m.DataType == nmdc.DataTypeTTH {
			m.Pattern, m.TTH, pat = "", new(tiger.Hash), "TTH:"+strings.Repeat("A", 39)
		}
		checkPeer(t, "Search", fmt.Sprintf("$Search %s %s?%s?%d?%s", who, fl, size, m.DataType, pat), m)
		return
	default:
		i -= gridSearch
	}
	if i < gridCTM {
		m := &nmdc.ConnectToMe{Targ: "t", Kind: nmdc.CTMKind(next(3)), Secure: next(2) == 1}
		m.Address = []string{"1.1.1.1:1", "[::1]:65535", "10.0.0.1:411", "[2001:db8:85a3::8a2e:370:7334]:0", "example.org:1412"}[next(5)]
		s := "$ConnectToMe t " + m.Address + []string{"", "N", "R"}[m.Kind]
		if m.Secure {
			s += "S"
		}
		if m.Kind == nmdc.CTMPassiveReq {
			m.Src = "src"
			s += " src"
		}
		checkPeer(t, "ConnectToMe", s, m)
		return
	}
	i -= gridCTM
	if i < gridMode {
		// the tag is more important than a legacy mode
		legacy := []string{" ", "A", "P", "5", "x", "0"}[next(6)]
		mode := []string{"none", "M:A", "M:P", "M:5", "M: ", "M:"}[next(6)]
		m := &nmdc.MyINFO{Name: "n", Desc: "d", Flag: 1, Conn: "c"}
		s := "$MyINFO $ALL n d"
		if mode == "none" {
			if legacy != " " {
				m.Mode = nmdc.UserMode(legacy[0])
			}
		} else {
			s += "<x V:1," + mode + ",H:1/2/3,S:4>"
			m.Client = dctypes.Software{Name: "x", Version: "1"}
			m.HubsNormal, m.HubsRegistered, m.HubsOperator, m.Slots = 1, 2, 3, 4
			if len(mode) == 3 && mode[2] != ' ' {
				m.Mode = nmdc.UserMode(mode[2])
			}
		}
		checkPeer(t, "MyINFO", s+"$"+legacy+"$c\x01$$0$", m)
		return
	}
	i -= gridMode
	if i < gridFlag {
		if i == 0 || i == '|' || i == '$' {
			return
		}
		m := &nmdc.MyINFO{Name: "n", Mode: 'A', Client: dctypes.Software{Name: "x", Version: "1"}, Conn: "50", Flag: nmdc.UserFlag(i), Email: "e@x", ShareSize: 77}
		checkPeer(t, "MyINFO", "$MyINFO $ALL n <x V:1,M:A>$ $50"+string([]byte{byte(i)})+"$e@x$77$", m)
		if m.Flag.IsSet(nmdc.FlagStatusAway) != (i&2 != 0) || m.Flag.IsSet(nmdc.FlagStatusServer) != (i&4 != 0) || m.Flag.IsSet(nmdc.FlagStatusFireball) != (i&8 != 0) ||
			m.Flag.IsSet(nmdc.FlagTLSDownload) != (i&16 != 0) || m.Flag.IsSet(nmdc.FlagTLSUpload) != (i&32 != 0) || m.Flag.IsSet(nmdc.FlagIPv4) != (i&64 != 0) || m.Flag.IsSet(nmdc.FlagIPv6) != (i&128 != 0) || m.Flag.IsSet(nmdc.FlagStatusNormal) != (i&1 != 0) {
			t.Failf("flag", "flags of 0x%x", i)
		}
		return
	}
	i -= gridFlag
	// presence and case of each tag key
	m := &nmdc.MyINFO{Name: "n", Flag: 1}
	up := next(4)
	key := func(c byte) string {
		if up&1 != 0 {
			c |= 0x20
		}
		return string([]byte{c})
	}
	var f []string
	if next(2) == 1 {
		f, m.Client.Name = append(f, "cl"), "cl"
	}
	if next(2) == 1 {
		f, m.Client.Version = append(f, key('V')+":9"), "9"
	}
	if next(2) == 1 {
		f, m.Mode = append(f, key('M')+":5"), '5'
	}
	if next(2) == 1 {
		f, m.HubsNormal, m.HubsRegistered, m.HubsOperator = append(f, key('H')+":3/2/1"), 3, 2, 1
	}
	if next(2) == 1 {
		f, m.Slots = append(f, key('S')+":8"), 8
	}
	if len(f) == 0 {
		return
	}
	if up&2 != 0 && f[0] != "cl" {
		for a, b := 0, len(f)-1; a < b; a, b = a+1, b-1 {
			f[a], f[b] = f[b], f[a]
		}
	}
	checkPeer(t, "MyINFO", "$MyINFO $ALL n <"+strings.Join(f, ",")+">$ $\x01$$0$", m)
}

// c12Ext is the list of extension names, as peers write them in $Supports.
var c12Ext = map[string]string{
	nmdc.ExtNoHello: "NoHello", nmdc.ExtNoGetINFO: "NoGetINFO", nmdc.ExtUserCommand: "UserCommand", nmdc.ExtUserIP2: "UserIP2", nmdc.ExtTTHSearch: "TTHSearch",
	nmdc.ExtZPipe0: "ZPipe0", nmdc.ExtTLS: "TLS", nmdc.ExtADCGet: "ADCGet", nmdc.ExtBotINFO: "BotINFO", nmdc.ExtHubINFO: "HubINFO", nmdc.ExtHubTopic: "HubTopic",
	nmdc.ExtBotList: "BotList", nmdc.ExtIN: "IN", nmdc.ExtMCTo: "MCTo", nmdc.ExtNickChange: "NickChange", nmdc.ExtClientNick: "ClientNick",
	nmdc.ExtFeaturedNetworks: "FeaturedNetworks", nmdc.ExtGetZBlock: "GetZBlock", nmdc.ExtClientID: "ClientID", nmdc.ExtXmlBZList: "XmlBZList",
	nmdc.ExtMinislots: "Minislots", nmdc.ExtTTHL: "TTHL", nmdc.ExtTTHF: "TTHF", nmdc.ExtTTHS: "TTHS", nmdc.ExtZLIG: "ZLIG", nmdc.ExtACTM: "ACTM",
	nmdc.ExtBZList: "BZList", nmdc.ExtSaltPass: "SaltPass", nmdc.ExtDHT0: "DHT0", nmdc.ExtFailOver: "FailOver", nmdc.ExtOpPlus: "OpPlus",
	nmdc.ExtQuickList: "QuickList", nmdc.ExtBanMsg: "BanMsg", nmdc.ExtNickRule: "NickRule", nmdc.ExtSearchRule: "SearchRule", nmdc.ExtExtJSON2: "ExtJSON2",
	nmdc.ExtLocale: "Locale",
}

// c12Vocab checks that named values of the library have the documented meaning on the wire.
func c12Vocab(t *mon.T) {
	r := t.R
	wire := func(m nmdc.Message, want string) {
		t.Eval(2)
		b, err := nmdc.Marshal(nil, m)
		if err != nil || string(b) != want {
			t.Failf("vocabulary", "%s is sent as %s, %v; expected %q", dump(m), q(b), err, want)
		}
		got, err := nmdc.Unmarshal(nil, []byte(want))
		if err != nil || dump(got) != dump(m) {
			t.Failf("vocabulary", "%q is received as %s, %v; expected %s", want, dump(got), err, dump(m))
		}
		t.Ev("named values compared", 1)
		t.Seen(want)
	}
	user := mon.Pick(r, "alice", "bob", "x.y", "юзер")
	// messages of the chat as users see them
	if s := (&nmdc.ChatMessage{Name: user, Text: "hi " + user}).String(); s != "<"+user+"> hi "+user {
		t.Failf("vocabulary", "a message of %q is shown as %q", user, s)
	}
	if s := (&nmdc.ChatMessage{Text: "* " + user}).String(); s != "* "+user {
		t.Failf("vocabulary", "a message of the hub is shown as %q", s)
	}
	// user command types and contexts
	for typ, v := range map[nmdc.UCmdType]int{nmdc.TypeSeparator: 0, nmdc.TypeRaw: 1, nmdc.TypeRawNickLimited: 2, nmdc.TypeErase: 255} {
		var ctx nmdc.UCmdContext
		want := 0
		for i, c := range []nmdc.UCmdContext{nmdc.ContextHub, nmdc.ContextUser, nmdc.ContextSearch, nmdc.ContextFileList} {
			if t.Index>>uint(i)&1 != 0 {
				ctx |= c
				want |= 1 << uint(i)
			}
		}
		if want == 0 {
			ctx, want = nmdc.ContextHub, 1
		}
		m := &nmdc.UserCommand{Typ: typ, Context: ctx}
		s := fmt.Sprintf("$UserCommand %d %d", v, want)
		if v == 1 || v == 2 {
			m.Path, m.Command = []string{"Menu", user}, "<%[mynick]> +x"
			s += " Menu\\" + user + "$<%[mynick]> +x"
		} else {
			s += " "
		}
		got, err := nmdc.Unmarshal(nil, []byte(s+"|"))
		u, ok := got.(*nmdc.UserCommand)
		if err != nil || !ok || u.Typ != typ || u.Context != ctx {
			t.Failf("vocabulary", "%q is received as %s, %v; expected type %d context %d", s, dump(got), err, int(typ), int(ctx))
		}
		b, err := nmdc.Marshal(nil, m)
		if pref := fmt.Sprintf("$UserCommand %d %d", v, want); err != nil || !strings.HasPrefix(string(b), pref) {
			t.Failf("vocabulary", "%s is sent as %s, %v; expected %q", dump(m), q(b), err, pref)
		}
		t.Eval(2)
	}
	// types of a search
	types := []nmdc.DataType{nmdc.DataTypeAny, nmdc.DataTypeAudio, nmdc.DataTypeCompressed, nmdc.DataTypeDocument, nmdc.DataTypeExecutable, nmdc.DataTypePicture, nmdc.DataTypeVideo,
		nmdc.DataTypeFolders, nmdc.DataTypeTTH, nmdc.DataTypeDiskImage, nmdc.DataTypeComics, nmdc.DataTypeBook, nmdc.DataTypeMagnet}
	for i, typ := range types {
		size := uint64(r.Intn(1000000))
		if typ == nmdc.DataTypeTTH {
			if typ != 9 {
				t.Failf("vocabulary", "search by hash is type %d, expected 9", typ)
			}
			continue
		}
		wire(&nmdc.Search{User: user, SizeRestricted: true, IsMaxSize: i&1 == 0, Size: size, DataType: typ, Pattern: "abc"},
			fmt.Sprintf("$Search Hub:%s T?%s?%d?%d?abc|", user, []string{"T", "F"}[i&1], size, i+1))
	}
	// modes and status flags of users
	mode := [][2]string{{"A", "A"}, {"P", "P"}, {"5", "5"}}[t.Index%3]
	md := map[string]nmdc.UserMode{"A": nmdc.UserModeActive, "P": nmdc.UserModePassive, "5": nmdc.UserModeSOCKS5}[mode[0]]
	var flag nmdc.UserFlag
	bits := 0
	for i, f := range []nmdc.UserFlag{nmdc.FlagStatusNormal, nmdc.FlagStatusAway, nmdc.FlagStatusServer, nmdc.FlagStatusFireball, nmdc.FlagTLSDownload, nmdc.FlagTLSUpload, nmdc.FlagIPv4, nmdc.FlagIPv6} {
		on := t.Index>>uint(4+i)&1 != 0
		if on {
			flag |= f
			bits |= 1 << uint(i)
		}
	}
	for i, f := range []nmdc.UserFlag{nmdc.FlagStatusNormal, nmdc.FlagStatusAway, nmdc.FlagStatusServer, nmdc.FlagStatusFireball, nmdc.FlagTLSDownload, nmdc.FlagTLSUpload, nmdc.FlagIPv4, nmdc.FlagIPv6} {
		if flag.IsSet(f) != (bits>>uint(i)&1 != 0) {
			t.Failf("vocabulary", "flags %#x: flag %d is %v", bits, i, flag.IsSet(f))
		}
		t.Eval(1)
	}
	if flag.IsSet(nmdc.FlagTLS) != (bits&0x30 != 0) {
		t.Failf("vocabulary", "flags %#x: TLS is %v", bits, flag.IsSet(nmdc.FlagTLS))
	}
	if bits != 0 && bits != '$' && bits != '|' && bits != '\n' && bits != '\r' && bits != '\t' {
		conn := mon.Pick(r, nmdc.ConnSpeedModem, nmdc.ConnSpeedServer)
		speed := map[string]string{nmdc.ConnSpeedModem: "1", nmdc.ConnSpeedServer: "1000"}[conn]
		wire(&nmdc.MyINFO{Name: user, Desc: "d", Client: dctypes.Software{Name: "c", Version: "1"}, Mode: md, HubsNormal: 1, HubsRegistered: 2, HubsOperator: 3, Slots: 4, Conn: conn, Flag: flag, ShareSize: 5},
			"$MyINFO $ALL "+user+" d<c V:1,M:"+mode[1]+",H:1/2/3,S:4>$ $"+speed+string([]byte{byte(bits)})+"$$5$|")
	}
	// kinds of connections
	for _, sec := range []bool{false, true} {
		suf := map[bool]string{true: "S"}[sec]
		wire(&nmdc.ConnectToMe{Targ: "bob", Address: "1.2.3.4:5", Kind: nmdc.CTMActive, Secure: sec}, "$ConnectToMe bob 1.2.3.4:5"+suf+"|")
		wire(&nmdc.ConnectToMe{Targ: "bob", Src: "al", Address: "1.2.3.4:5", Kind: nmdc.CTMPassiveReq, Secure: sec}, "$ConnectToMe bob 1.2.3.4:5N"+suf+" al|")
		wire(&nmdc.ConnectToMe{Targ: "bob", Address: "1.2.3.4:5", Kind: nmdc.CTMPassiveResp, Secure: sec}, "$ConnectToMe bob 1.2.3.4:5R"+suf+"|")
	}
	// extensions
	var exts, names []string
	for ext, name := range c12Ext {
		if ext != name {
			t.Failf("vocabulary", "extension %q must be %q", ext, name)
		}
		if r.P(1, 8) {
			exts, names = append(exts, ext), append(names, name)
		}
	}
	t.Eval(len(c12Ext))
	if len(exts) != 0 {
		wire(&nmdc.Supports{Ext: exts}, "$Supports "+strings.Join(names, " ")+"|")
	}
	if nmdc.DefaultKeyMagic != 5 || nmdc.SchemeNMDC != "dchub" || nmdc.SchemeNMDCS != "nmdcs" || nmdc.DefaultPort != 411 || nmdc.Delimiter != '|' {
		t.Failf("vocabulary", "magic byte, schemes, port or delimiter are changed")
	}
}
