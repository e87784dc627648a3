package props

import (
	"fmt"
	"net/url"
	"strings"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

func c24() mon.Property {
	return mon.Property{
		ID: "C24",
		Rule: "A structured case builds an address from parts (scheme in any case, alias or none; user; name, IPv4, IPv6 with zone; port; path with trailing slashes; query; fragment), so the expected protocol, host and port are known without parsing; " +
			"equivalent spellings of it are normalised too. A hostile case mutates addresses and URL fragments; only relations are checked (dispatch agreement, idempotence, same protocol/host/port, no panic). The grid runs all combinations of a table of parts. " +
			"Non-trivial: the address was accepted, or had to be refused; distinct by string.",
		Assume: []string{"an address without a scheme has no \"://\" in its path or query"},
		Monitors: []mon.Monitor{
			{Name: "structured", Quick: 240000, Thorough: 2000000, Run: c24Structured},
			{Name: "hostile", Quick: 480000, Thorough: 5000000, Run: c24Hostile},
			{Name: "grid", Quick: c24Schemes * 11, Thorough: c24Schemes * 11, Run: c24Grid},
		},
	}
}

type addrParts struct {
	scheme string // as spelled, without ://; empty for none
	user   string
	host   string // as spelled
	name   string // host name, without brackets and escapes
	port   string // with the colon
	path   string
	query  string
	frag   string
}

func (a addrParts) String() string {
	s := a.user + a.host + a.port + a.path + a.query + a.frag
	if a.scheme != "" {
		s = a.scheme + "://" + s
	}
	return s
}

// proto is the canonical scheme, or empty if it's not supported.
func (a addrParts) proto() string {
	switch s := asciiLower(a.scheme); s {
	case "", "dchub", "nmdc":
		return "dchub"
	case "nmdcs", "adc", "adcs":
		return s
	}
	return ""
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func mixCase(r *mon.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && r.P(1, 3) {
			b[i] = c - 32
		}
	}
	return string(b)
}

var c24Hosts = []struct{ spelled, name string }{
	{"localhost", "localhost"}, {"example.com", "example.com"}, {"Hub.Example.ORG", "Hub.Example.ORG"}, {"10.0.0.1", "10.0.0.1"},
	{"a", "a"}, {"adc", "adc"}, {"dchub", "dchub"}, {"[::]", "::"}, {"[::1]", "::1"}, {"[2001:db8::ff00:42:8329]", "2001:db8::ff00:42:8329"},
	{"[fe80::1%25eth0]", "fe80::1%eth0"}, {"xn--d1abbgf6aiiy.xn--p1ai", "xn--d1abbgf6aiiy.xn--p1ai"}, {"хаб.рф", "хаб.рф"}, {"under_score.x-y.z", "under_score.x-y.z"},
	{"127.1", "127.1"}, {"example.com.", "example.com."},
}

var c24SchemeList = []string{"", "dchub", "nmdc", "nmdcs", "adc", "adcs", "DCHUB", "NMDC", "NmdcS", "ADC", "AdcS", "http", "https", "dchubs", "adcx", "xadc", "nmdc2", "adc.x", "adcs+x", "ftp", "d"}

const c24Schemes = 21

func c24Parts(r *mon.Rand) addrParts {
	h := mon.Pick(r, c24Hosts...)
	a := addrParts{host: h.spelled, name: h.name}
	switch r.Intn(8) {
	case 0:
	case 1:
		a.scheme = mon.Pick(r, c24SchemeList...)
	default:
		a.scheme = mixCase(r, mon.Pick(r, "dchub", "nmdc", "nmdcs", "adc", "adcs"))
	}
	switch r.Intn(5) {
	case 0:
	case 1:
		a.port = fmt.Sprint(":", r.Intn(65536))
	default:
		a.port = mon.Pick(r, ":411", ":411", ":412", ":5000", ":1", ":65535", ":80", ":443", ":0411")
	}
	if r.P(1, 8) {
		a.user = mon.Pick(r, "user@", "user:pass@", "u%40x@", "a:b%3Ac@")
	}
	if r.P(1, 3) {
		a.path = mon.Pick(r, "/", "//", "///", "/hub", "/hub/", "/a/b//", "/a%2Fb", "/a%2F", "/a%2F/", "/%2F", "/a b", "/хаб/", "/a//b/", "/./", "/..", "/a:b/", "/a@b")
	}
	if r.P(1, 3) {
		a.query = mon.Pick(r, "?", "?kp=SHA256/ABCDEF", "?kp=SHA256%2FABC&x=1", "?x=/", "?a=b/", "?kp=a:b@c", "?x=y?z", "?/")
	}
	if r.P(1, 10) {
		a.frag = mon.Pick(r, "#", "#top", "#a/", "#a%20b")
	}
	return a
}

func hostPort(u *url.URL) string { return u.Hostname() + "\x00" + u.Port() }

// c24Agree checks relations which hold for every string. It returns the normal form.
func c24Agree(t *mon.T, s string) (norm string, ok bool) {
	adcScheme := false
	if i := strings.Index(s, "://"); i >= 0 {
		sch := asciiLower(s[:i])
		adcScheme = sch == "adc" || sch == "adcs"
	}
	parse, normalize := nmdc.ParseAddr, nmdc.NormalizeAddr
	if adcScheme {
		parse, normalize = adc.ParseAddr, adc.NormalizeAddr
	}
	u1, err1 := dc.ParseAddr(s)
	u2, err2 := parse(s)
	if (err1 == nil) != (err2 == nil) {
		t.Failf("dispatch-parse", "%q (ADC %v): generic error %v, specific %v", s, adcScheme, err1, err2)
	}
	if err1 == nil && *u1 != *u2 && u1.String() != u2.String() {
		t.Failf("dispatch-parse", "%q (ADC %v): generic %q, specific %q", s, adcScheme, u1, u2)
	}
	n1, nerr1 := dc.NormalizeAddr(s)
	n2, nerr2 := normalize(s)
	if (nerr1 == nil) != (nerr2 == nil) || nerr1 == nil && n1 != n2 {
		t.Failf("dispatch-normalize", "%q (ADC %v): generic %q %v, specific %q %v", s, adcScheme, n1, nerr1, n2, nerr2)
	}
	t.Eval(2)
	if err1 == nil {
		switch u1.Scheme {
		case "adc", "adcs":
			if !adcScheme {
				t.Failf("dispatch-scheme", "%q parsed as %q by the NMDC side", s, u1)
			}
		case "dchub", "nmdcs":
			if adcScheme {
				t.Failf("dispatch-scheme", "%q parsed as %q by the ADC side", s, u1)
			}
		default:
			t.Failf("scheme-accepted", "%q accepted with a scheme %q", s, u1.Scheme)
		}
	}
	if nerr1 != nil {
		t.Ev("refused", 1)
		return "", false
	}
	if err1 != nil {
		t.Failf("normalized-unparsable", "%q: normalised to %q, but doesn't parse: %v", s, n1, err1)
	}
	n3, err := dc.NormalizeAddr(n1)
	if err != nil {
		t.Failf("normal-refused", "%q: normal form %q is refused: %v", s, n1, err)
	}
	if n3 != n1 {
		t.Failf("not-idempotent", "%q: normal form %q normalises to %q", s, n1, n3)
	}
	un, err := dc.ParseAddr(n1)
	if err != nil {
		t.Failf("normal-refused", "%q: normal form %q doesn't parse: %v", s, n1, err)
	}
	if un.Scheme != u1.Scheme || hostPort(un) != hostPort(u1) {
		t.Failf("normal-differs", "%q: scheme, host, port %q %q, normal form %q has %q %q", s, u1.Scheme, hostPort(u1), n1, un.Scheme, hostPort(un))
	}
	if un.Hostname() == "" {
		t.Failf("no-host", "%q accepted as %q", s, n1)
	}
	if adcScheme && un.Port() == "" {
		t.Failf("no-port", "%q accepted as %q", s, n1)
	}
	// the normal form has its scheme spelled out
	if !strings.HasPrefix(n1, u1.Scheme+"://") {
		t.Failf("normal-scheme", "%q: normal form %q", s, n1)
	}
	t.Eval(5)
	t.Ev("normalised", 1)
	return n1, true
}

func c24Check(t *mon.T, a addrParts) (string, bool) {
	s := a.String()
	norm, ok := c24Agree(t, s)
	if a.scheme == "" && strings.Contains(s, "://") {
		return norm, ok // looks like another scheme
	}
	proto := a.proto()
	isADC := proto == "adc" || proto == "adcs"
	u, perr := dc.ParseAddr(s)
	switch {
	case proto == "":
		if perr == nil || ok {
			t.Failf("scheme-accepted", "%q accepted: %v, %q", s, u, norm)
		}
	case a.name == "":
		if ok {
			t.Failf("no-host", "%q accepted: %q", s, norm)
		}
	case isADC && len(a.port) < 2:
		if ok {
			t.Failf("no-port", "%q accepted: %q", s, norm)
		}
	default:
		if perr != nil || !ok {
			_, nerr := dc.NormalizeAddr(s)
			t.Failf("refused", "%q refused: %v, %v", s, perr, nerr)
		}
		if want := proto + "\x00" + a.name + "\x00" + strings.TrimPrefix(a.port, ":"); u.Scheme+"\x00"+hostPort(u) != want {
			t.Failf("parts", "%q parsed as %q %q, expected %q", s, u.Scheme, hostPort(u), want)
		}
		un, _ := url.Parse(norm) // independent of the library
		if un == nil || un.Scheme != proto || hostPort(un) != a.name+"\x00"+strings.TrimPrefix(a.port, ":") {
			t.Failf("normal-parts", "%q normalised to %q", s, norm)
		}
	}
	t.Eval(1)
	t.Seen(s)
	return norm, ok
}

func c24Structured(t *mon.T) {
	r := t.R
	a := c24Parts(r)
	if r.P(1, 12) {
		a.host, a.name = "", ""
	}
	norm, ok := c24Check(t, a)
	t.Sample(func() string { return fmt.Sprintf("%q -> %q %v", a.String(), norm, ok) })
	if !ok {
		return
	}
	// other spellings
	b := a
	switch b.proto() {
	case "dchub":
		b.scheme = mon.Pick(r, "", "dchub", "nmdc", "DCHUB", "Nmdc")
	default:
		b.scheme = mixCase(r, b.proto())
	}
	c := strings.TrimRight(b.path, "/")
	if !strings.HasSuffix(strings.ToLower(c), "%2f") {
		b.path = c + strings.Repeat("/", r.Intn(4))
	}
	n2, ok2 := c24Check(t, b)
	if !ok2 || n2 != norm {
		t.Failf("spelling", "%q normalises to %q, but %q to %q (%v)", a.String(), norm, b.String(), n2, ok2)
	}
	t.Ev("spellings compared", 1)
}

func c24Grid(t *mon.T) {
	if len(c24SchemeList) != c24Schemes {
		panic("table size")
	}
	scheme := c24SchemeList[t.Index%c24Schemes]
	path := []string{"", "/", "//", "/a", "/a/", "/a//", "/%2F", "/a%2Fb/", "/ ", "/..", "/a/../"}[t.Index/c24Schemes%11]
	hosts := append(c24Hosts[:len(c24Hosts):len(c24Hosts)], struct{ spelled, name string }{"", ""})
	for _, h := range hosts {
		for _, port := range []string{"", ":", ":0", ":411", ":65535"} {
			for _, user := range []string{"", "u@"} {
				for _, query := range []string{"", "?", "?kp=SHA256/X", "?x=/"} {
					c24Check(t, addrParts{scheme: scheme, user: user, host: h.spelled, name: h.name, port: port, path: path, query: query})
				}
			}
		}
	}
}

func c24Hostile(t *mon.T) {
	r := t.R
	var s string
	switch r.Intn(4) {
	case 0:
		s = string(r.Bytes(r.Intn(30)))
	case 1:
		for i, n := 0, r.Intn(8); i < n; i++ {
			s += mon.Pick(r, "://", ":", "/", "//", "adc", "adcs", "dchub", "nmdc", "nmdcs", "ADC", "@", "?", "#", "[", "]", "[::1]", "%", "%25", "%2F", "h", "x.y", ":411", "411", " ", "\t", "\x00", "é", "\xff", "\\", "kp=", "::", ".", "+", "-")
		}
	default:
		s = c24Parts(r).String()
		s = string(mutate(r, []byte(s), []string{"://", ":", "/", "//", "adc", "dchub", "@", "?", "#", "[", "]", "%", "%2F", ":411", " ", "\x00", "\n", "é"}))
	}
	norm, ok := c24Agree(t, s)
	t.Logf("%q -> %q %v", s, norm, ok)
	t.Seen(s)
	t.Sample(func() string { return fmt.Sprintf("%s -> %q %v", gen.Quote([]byte(s)), norm, ok) })
	// parsers of both protocols must not panic on addresses of the other one
	adc.ParseAddr(s)
	adc.NormalizeAddr(s)
	if n, err := nmdc.NormalizeAddr(s); err == nil {
		if n2, err := nmdc.NormalizeAddr(n); err != nil || n2 != n {
			t.Failf("not-idempotent", "nmdc: %q -> %q -> %q %v", s, n, n2, err)
		}
	}
}
