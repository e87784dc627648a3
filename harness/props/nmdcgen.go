package props

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	dctypes "github.com/direct-connect/go-dc/types"

	"verif/harness/gen"
	"verif/harness/mon"
)

// nGen makes valid NMDC messages. Text and names come from replaceable sources.
type nGen struct {
	r    *mon.Rand
	text func(max int, not string) string
	name func(spaces bool) string
	list func(n int) int // replaces a number of elements of a list
	max  int
	low  bool // no bytes above 0x7f in fields that are not texts
}

func newNGen(r *mon.Rand) *nGen {
	g := &nGen{r: r, max: 300, list: func(n int) int { return n }}
	if r.P(1, 30) {
		g.max = 4000
	}
	g.text = func(max int, not string) string { return gen.Text(r, max, not) }
	g.name = func(spaces bool) string { return gen.Name(r, spaces) }
	return g
}

// scaleNGen makes messages with big texts or long lists, up to about the given number of bytes.
func scaleNGen(r *mon.Rand, max int) *nGen {
	g := newNGen(r)
	left := max
	g.text = func(max int, not string) string {
		if r.P(1, 4) {
			return gen.Text(r, max, not)
		}
		s := gen.ScaleText(r, gen.Scale(r, left), not)
		left -= len(s)
		return s
	}
	g.list = func(n int) int {
		if left <= 0 || r.P(1, 8) {
			return n
		}
		return gen.Scale(r, 1+left/10)
	}
	i, long := 0, r.P(1, 4)
	g.name = func(spaces bool) string {
		i++
		if i < 4 || i%16 == 0 {
			s := gen.Name(r, spaces)
			if !long && len(s) > 20 {
				s = gen.Clean(s, 20, "")
			}
			if s == "" {
				s = "x"
			}
			left -= len(s)
			return s
		}
		s := "u" + strconv.Itoa(i)
		left -= len(s) + 2
		return s
	}
	return g
}

func (g *nGen) txt(not string) string { return g.text(g.max, not) }

// raw is a text that is sent without any escaping.
func (g *nGen) raw(max int, not string) string {
	s := ""
	n := g.r.Intn(max + 1)
	for i := 0; i < n; i++ {
		s += mon.Pick(g.r, "a", "B", "0", "9", ".", ":", "-", "_", "/", "1.2", "x", "[", "]", "=", "@", "&", "#", "<", ">", ";", " ", "+", "'")
	}
	return strings.Map(func(c rune) rune {
		if strings.ContainsRune(not, c) {
			return -1
		}
		return c
	}, s)
}

func (g *nGen) addr() string {
	r := g.r
	return mon.Pick(r, "1.2.3.4:411", "127.0.0.1:1", "[2001:db8::1]:412", "hub.example.org:65535", fmt.Sprintf("%d.%d.%d.%d:%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(65536)))
}

func (g *nGen) tth() *nmdc.TTH {
	var h tiger.Hash
	g.r.Fill(h[:])
	switch g.r.Intn(8) {
	case 0:
		h = tiger.Hash{}
	case 1:
		for i := range h {
			h[i] = 0xff
		}
	}
	return &h
}

func (g *nGen) num() int {
	r := g.r
	return mon.Pick(r, 0, 1, 2, 9, 10, 100, 999999999, 1000000000, 1<<31-1, 1<<31, 1<<62, 1<<63-1, r.Intn(1000), -1, -5, -999999999, -1<<63)
}

func (g *nGen) u64() uint64 {
	r := g.r
	return mon.Pick(r, 0, 1, 9, 10, 99, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<63-1, 1<<63, 1<<64-1, 18446744073709551610, r.U64(), r.U64()>>20, r.U64()>>40, r.U64()>>56)
}

func (g *nGen) names(spaces bool) []string {
	var out []string
	for i, n := 0, g.list(mon.Pick(g.r, 0, 1, 1, 2, 3, 10, g.r.Intn(40))); i < n; i++ {
		out = append(out, g.name(spaces))
	}
	return out
}

// nPair is a message and its expected decoded form.
type nPair struct{ in, want nmdc.Message }

func same(m nmdc.Message) nPair { return nPair{m, m} }

func noPref(s, pref string) string {
	for strings.HasPrefix(s, pref) {
		s = s[len(pref):]
	}
	return s
}

func noSub(s, sub string) string {
	for strings.Contains(s, sub) {
		s = strings.Replace(s, sub, "", -1)
	}
	return s
}

var nmdcGens = map[string]func(g *nGen) nPair{
	"": func(g *nGen) nPair {
		m := &nmdc.ChatMessage{Text: g.txt("")}
		if g.r.P(3, 4) {
			m.Name = g.name(g.r.P(1, 4))
		} else {
			m.Text = noPref(m.Text, "<")
			if m.Text == "" {
				m.Text = "x" // an empty message is a keep-alive
			}
		}
		return same(m)
	},
	"To:": func(g *nGen) nPair {
		to := noSub(g.name(g.r.P(1, 4)), " From:")
		if to == "" {
			to = "to"
		}
		m := &nmdc.PrivateMessage{To: to, From: g.name(g.r.P(1, 4)), Text: g.txt("")}
		m.Name = m.From
		if g.r.Bool() {
			m.Name = g.name(g.r.P(1, 4))
		}
		if g.r.P(1, 40) {
			*mon.Pick(g.r, &m.To, &m.From, &m.Name) = ""
		}
		return same(m)
	},
	"MCTo": func(g *nGen) nPair {
		m := &nmdc.MCTo{To: g.name(g.r.P(1, 4)), From: g.name(false), Text: g.txt("")}
		if g.r.P(1, 40) {
			*mon.Pick(g.r, &m.To, &m.From) = ""
		}
		return same(m)
	},
	"UserCommand": func(g *nGen) nPair {
		m := &nmdc.UserCommand{
			Typ:     mon.Pick(g.r, nmdc.TypeSeparator, nmdc.TypeRaw, nmdc.TypeRawNickLimited, nmdc.TypeErase, nmdc.UCmdType(g.r.Intn(1000))),
			Context: nmdc.UCmdContext(mon.Pick(g.r, 1, 2, 4, 8, 15, 0, g.r.Intn(300))),
		}
		if g.r.P(1, 4) {
			return same(m)
		}
		for i, n := 0, 1+g.list(mon.Pick(g.r, 0, 0, 1, 2, 5)); i < n; i++ {
			p := strings.Trim(g.text(60, "\\"), " \t\r\n")
			if p == "" {
				p = "p"
			}
			m.Path = append(m.Path, p)
		}
		m.Command = strings.Trim(g.txt(""), " \t\r\n")
		if m.Command == "" {
			m.Command = "c"
		}
		return same(m)
	},
	"ForceMove":      func(g *nGen) nPair { return same(&nmdc.ForceMove{Address: g.raw(30, "")}) },
	"Kick":           func(g *nGen) nPair { return same(&nmdc.Kick{Name: g.nm()}) },
	"Close":          func(g *nGen) nPair { return same(&nmdc.Close{Name: g.nm()}) },
	"GetTopic":       func(g *nGen) nPair { return same(&nmdc.GetTopic{}) },
	"SetTopic":       func(g *nGen) nPair { return same(&nmdc.SetTopic{String: g.str()}) },
	"MyPass":         func(g *nGen) nPair { return same(&nmdc.MyPass{String: g.str()}) },
	"BadPass":        func(g *nGen) nPair { return same(&nmdc.BadPass{}) },
	"GetPass":        func(g *nGen) nPair { return same(&nmdc.GetPass{}) },
	"Failed":         func(g *nGen) nPair { return same(&nmdc.Failed{Err: g.err()}) },
	"Error":          func(g *nGen) nPair { return same(&nmdc.Error{Err: g.err()}) },
	"ValidateNick":   func(g *nGen) nPair { return same(&nmdc.ValidateNick{Name: g.nm()}) },
	"ValidateDenide": func(g *nGen) nPair { return same(&nmdc.ValidateDenide{Name: g.nm()}) },
	"MyNick":         func(g *nGen) nPair { return same(&nmdc.MyNick{Name: g.nm()}) },
	"Quit":           func(g *nGen) nPair { return same(&nmdc.Quit{Name: g.nm()}) },
	"LogedIn":        func(g *nGen) nPair { return same(&nmdc.LogedIn{Name: g.nm()}) },
	"Hello":          func(g *nGen) nPair { return same(&nmdc.Hello{Name: g.nm()}) },
	"MyINFO": func(g *nGen) nPair {
		r := g.r
		m := &nmdc.MyINFO{
			Name: g.name(false), Desc: g.txt(""),
			Client:     g.soft(",<$|"),
			Mode:       mon.Pick(r, nmdc.UserModeActive, nmdc.UserModePassive, nmdc.UserModeSOCKS5, nmdc.UserModeUnknown, 'x'),
			HubsNormal: g.num(), HubsRegistered: g.num(), HubsOperator: g.num(), Slots: g.num(),
			Conn: g.text(40, ""), Email: g.text(60, ""), ShareSize: g.u64(),
			Flag: nmdc.UserFlag(r.Intn(256)),
		}
		m.Client.Name = strings.Replace(strings.Replace(m.Client.Name, " V:", "", -1), " v:", "", -1)
		if r.Bool() {
			m.Conn = mon.Pick(r, "", "1", "1000", "0.005", "LAN(T1)", "20Mb/s")
		}
		if g.low {
			m.Flag &= 0x7f
		}
		if m.Flag == '$' || m.Flag == '|' {
			m.Flag = nmdc.FlagTLS
		}
		for i, n := 0, g.list(mon.Pick(r, 0, 0, 1, 2, 5)); i < n; i++ {
			if m.Extra == nil {
				m.Extra = map[string]string{}
			}
			k := mon.Pick(r, "O", "L", "B", "F", "Z", "X", "A", "AB", "hub", "Abc", "Q1", "{", "~", "[", "@", "_", "1")
			if i > 20 {
				k = "K" + strconv.Itoa(i)
			}
			m.Extra[k] = g.raw(10, ",<$|")
		}
		w := *m
		if w.Flag == 0 {
			w.Flag = nmdc.FlagStatusNormal
		}
		return nPair{m, &w}
	},
	"ZOn":       func(g *nGen) nPair { return same(&nmdc.ZOn{}) },
	"Version":   func(g *nGen) nPair { return same(&nmdc.Version{Vers: mon.Pick(g.r, "1,0091", g.raw(20, ""))}) },
	"HubName":   func(g *nGen) nPair { return same(&nmdc.HubName{String: g.str()}) },
	"HubIsFull": func(g *nGen) nPair { return same(&nmdc.HubIsFull{}) },
	"HubTopic":  func(g *nGen) nPair { return same(&nmdc.HubTopic{Text: g.txt("")}) },
	"FailOver": func(g *nGen) nPair {
		m := &nmdc.FailOver{}
		for i, n := 0, g.list(mon.Pick(g.r, 0, 1, 2, 5)); i < n; i++ {
			m.Host = append(m.Host, "h"+g.raw(20, ", "))
		}
		return same(m)
	},
	"BotINFO": func(g *nGen) nPair { return same(&nmdc.BotINFO{String: g.str()}) },
	"SetIcon": func(g *nGen) nPair { return same(&nmdc.SetIcon{String: g.str()}) },
	"SetLogo": func(g *nGen) nPair { return same(&nmdc.SetLogo{String: g.str()}) },
	"HubINFO": func(g *nGen) nPair {
		m := &nmdc.HubINFO{
			Name: g.txt(""), Host: g.raw(30, ""), Desc: g.txt(""),
			I1: g.num(), I2: g.num(), I3: g.num(), I4: g.num(),
			Soft: g.soft(""), Owner: g.text(60, ""), State: g.text(60, ""), Encoding: mon.Pick(g.r, "", "UTF-8", "cp1251", g.raw(10, "")),
		}
		m.Soft.Version = strings.Replace(m.Soft.Version, " ", "", -1)
		if m.Soft.Version == "" {
			m.Soft.Name = strings.Replace(m.Soft.Name, " ", "", -1)
		}
		return same(m)
	},
	"ConnectToMe": func(g *nGen) nPair {
		m := &nmdc.ConnectToMe{Targ: g.name(false), Address: g.addr(), Kind: nmdc.CTMKind(g.r.Intn(3)), Secure: g.r.Bool()}
		if m.Kind == nmdc.CTMPassiveReq {
			m.Src = g.name(false)
		}
		return same(m)
	},
	"RevConnectToMe": func(g *nGen) nPair {
		return same(&nmdc.RevConnectToMe{From: g.name(false), To: g.name(g.r.P(1, 4))})
	},
	"Search": func(g *nGen) nPair {
		r := g.r
		m := &nmdc.Search{SizeRestricted: r.Bool(), IsMaxSize: r.Bool(), Size: g.u64(), DataType: nmdc.DataType(r.Intn(16))}
		if r.P(1, 10) {
			m.DataType = nmdc.DataType(g.u64())
		}
		if r.Bool() {
			m.Address = g.addr()
		} else {
			m.User = g.name(false)
		}
		if r.P(1, 4) {
			m.DataType = nmdc.DataTypeTTH
		}
		if m.DataType == nmdc.DataTypeTTH {
			m.TTH = g.tth()
		} else {
			m.Pattern = g.txt("")
		}
		w := *m
		if !w.SizeRestricted {
			w.IsMaxSize = true
		}
		if w.DataType == 0 {
			w.DataType = nmdc.DataTypeAny
		}
		return nPair{m, &w}
	},
	"SR": func(g *nGen) nPair {
		r := g.r
		m := &nmdc.SR{From: g.name(false), IsDir: r.P(1, 3), Size: g.u64(), FreeSlots: r.Intn(100), TotalSlots: mon.Pick(r, 0, 5, 1<<31, 1<<62), HubAddress: g.addr()}
		if m.IsDir {
			m.Size = 0
		}
		if r.P(1, 6) {
			m.FreeSlots = -1
		}
		for i, n := 0, 1+g.list(mon.Pick(r, 0, 0, 1, 2, 7)); i < n; i++ {
			m.Path = append(m.Path, g.text(80, "\\\x05"))
		}
		if r.P(1, 4) {
			// looks like slots or a size
			m.Path[len(m.Path)-1] += mon.Pick(r, " 1/2", "/2", "/01", " 3/4/5", "1/2", " 12/", " /3", " 7", "/", " -1/2", " ")
		}
		if r.Bool() {
			m.TTH = g.tth()
		} else {
			m.HubName = noPref(g.text(100, "\x05"), "TTH:")
		}
		if r.Bool() {
			m.To = g.name(r.P(1, 4))
		}
		return same(m)
	},
	"SA": func(g *nGen) nPair { return same(&nmdc.TTHSearchActive{TTH: *g.tth(), Address: g.addr()}) },
	"SP": func(g *nGen) nPair {
		return same(&nmdc.TTHSearchPassive{TTH: *g.tth(), User: g.name(g.r.P(1, 4))})
	},
	"ADCGET": func(g *nGen) nPair {
		m := &nmdc.ADCGet{ContentType: nmdc.String(g.text(20, " ")), Identifier: nmdc.String(g.text(100, " ")), Start: g.u64(), Length: int64(g.u64() >> 1), Compressed: g.r.Bool()}
		if g.r.Bool() {
			m.ContentType, m.Identifier = "file", nmdc.String("TTH/"+g.tth().Base32())
		}
		if g.r.P(1, 3) {
			m.Length = -1
		}
		if g.r.P(1, 3) {
			v := g.u64()
			m.DownloadedBytes = &v
		}
		return same(m)
	},
	"ADCSND": func(g *nGen) nPair {
		m := &nmdc.ADCSnd{ContentType: nmdc.String(g.text(20, " ")), Identifier: nmdc.String(g.text(100, " ")), Start: g.u64(), Length: g.u64(), Compressed: g.r.Bool()}
		return same(m)
	},
	"Direction": func(g *nGen) nPair {
		return same(&nmdc.Direction{Upload: g.r.Bool(), Number: uint(mon.Pick(g.r, 1, 2, 32767, 1+g.r.Intn(32767)))})
	},
	"MaxedOut": func(g *nGen) nPair { return same(&nmdc.MaxedOut{}) },
	"Lock": func(g *nGen) nPair {
		m := &nmdc.Lock{NoExt: g.r.Bool(), Lock: g.raw(30, " ")}
		if g.r.P(1, 8) {
			m.Lock = "X" + m.Lock + mon.Pick(g.r, "EXTENDEDPROTOCOL", "Pk=", "Ref=") + m.Lock
		}
		if m.NoExt {
			m.Lock = noPref(m.Lock, "EXTENDEDPROTOCOL")
		}
		if g.r.Bool() {
			m.PK = noSub(g.raw(20, ""), "Ref=")
			if g.r.P(1, 6) {
				m.PK = "x" + m.PK + mon.Pick(g.r, "Pk=", "EXTENDEDPROTOCOL") + m.PK
			}
		}
		if g.r.P(1, 3) {
			m.Ref = g.raw(20, "")
			if g.r.P(1, 6) {
				m.Ref += mon.Pick(g.r, "Ref=", "?Ref=", " Ref=", " Pk=", "EXTENDEDPROTOCOL") + g.raw(10, "")
			}
		}
		return same(m)
	},
	"Key": func(g *nGen) nPair {
		b := make([]byte, g.r.Intn(40))
		g.r.Fill(b)
		for i := range b {
			if b[i] == '|' || b[i] == 0 {
				b[i] = 'k'
			}
		}
		return same(&nmdc.Key{Key: string(b)})
	},
	"Supports": func(g *nGen) nPair {
		m := &nmdc.Supports{}
		for i, n := 0, g.list(mon.Pick(g.r, 0, 1, 2, 20)); i < n; i++ {
			m.Ext = append(m.Ext, "E"+g.raw(10, " "))
		}
		return same(m)
	},
	"GetNickList": func(g *nGen) nPair { return same(&nmdc.GetNickList{}) },
	"OpList":      func(g *nGen) nPair { return same(&nmdc.OpList{Names: g.names(g.r.P(1, 4))}) },
	"BotList":     func(g *nGen) nPair { return same(&nmdc.BotList{Names: g.names(g.r.P(1, 4))}) },
	"UserIP": func(g *nGen) nPair {
		m := &nmdc.UserIP{}
		for _, s := range g.names(g.r.P(1, 4)) {
			m.List = append(m.List, nmdc.UserAddress{Name: s, IP: mon.Pick(g.r, "1.2.3.4", "2001:db8::1", "", g.raw(15, " "))})
		}
		return same(m)
	},
}

func (g *nGen) nm() nmdc.Name    { return nmdc.Name(g.name(g.r.P(1, 4))) }
func (g *nGen) str() nmdc.String { return nmdc.String(g.txt("")) }

func (g *nGen) err() error {
	s := g.txt("")
	if s == "" {
		return nil
	}
	return errors.New(s)
}

func (g *nGen) soft(not string) dctypes.Software {
	return dctypes.Software{
		Name:    mon.Pick(g.r, "++", "verlihub", "", "My Client", "DC Viewer", "a V b", "x v y", g.raw(12, not)),
		Version: mon.Pick(g.r, "0.777", "1", "", g.raw(8, not)),
	}
}

var nmdcTypes = func() []string {
	var out []string
	for typ := range nmdcGens {
		out = append(out, typ)
	}
	sort.Strings(out)
	return out
}()

// pick makes a message of a given or a random type.
func (g *nGen) pick(typ string) nPair { return nmdcGens[typ](g) }

// any makes a message of a random type; some are unregistered.
func (g *nGen) any() nPair {
	if g.r.P(1, 15) {
		return same(&nmdc.RawMessage{Typ: mon.Pick(g.r, "Foo", "X", "BarBaz", "a1", "Get:it", "some-thing", "v1.2", "a/b", "snake_case", "_", "Zz9", "aZ", "-:/._"), Data: []byte(g.raw(60, ""))})
	}
	return g.pick(nmdcTypes[g.r.Intn(len(nmdcTypes))])
}
