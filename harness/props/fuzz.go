package props

import (
	"strings"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/gen"
	"verif/harness/mon"
)

var nmdcTokens = []string{
	"$", "|", "<", ">", "> ", " ", "  ", "&", "&#36;", "&#124;", "&amp;", "&lt;", "&#0;", "&#00000000000000000000000000;", "&#xD800;", "&#1114112;", "/%DCN000%/", "/%DCN036%/", "/%DCN124%/", "/%DCN",
	"$ALL ", "$$", "?", "T?F?", "TTH:", "Hub:", "\x05", "\x00", "\r", "\n", "\t", "(", ")", " (", "/", "\\", " 1/2", "\x051", "From: ", " From: ", " $<", "$<", " $", "V:", " V:", ",M:A", ",H:", ",H:1/", ",S:", ",", ":", "=",
	"Pk=", "Ref=", "EXTENDEDPROTOCOL", "0", "1", "-1", "-", "+", "99999999999999999999", "18446744073709551615", "18446744073709551616", "9223372036854775808", "ZL1", "DB", "DB1", "Download", "Upload", "255 ", "0 3",
	"\xff", "\xd0", "\xc3\x28", "\x80", "é", "日本", "a", "b", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA1", "1.2.3.4:411", "N", "R", "S", "NS", "RS", "file", "TTH/", "<++ V:0.1,M:A,H:1/0/0,S:3>", "$ $", "$A$", "\u2028", "\u0085", "\u00a0",
}

// mutate changes the data in a random way.
func mutate(r *mon.Rand, b []byte, tokens []string) []byte {
	b = append([]byte{}, b...)
	for i, n := 0, mon.Pick(r, 0, 1, 1, 1, 2, 3, 6); i < n; i++ {
		p := r.Intn(len(b) + 1)
		switch r.Intn(9) {
		case 0: // cut
			if r.Bool() {
				b = b[:p]
			} else {
				b = b[p:]
			}
		case 1: // delete a range
			e := p + r.Intn(8)
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:p], b[e:]...)
		case 2, 3: // insert a token
			b = insert(b, p, []byte(mon.Pick(r, tokens...)))
		case 4: // replace a byte
			if p < len(b) {
				b[p] = byte(r.U64())
			}
		case 5: // replace by a token
			tok := mon.Pick(r, tokens...)
			e := p + len(tok)
			if e > len(b) {
				e = len(b)
			}
			b = append(append(append([]byte{}, b[:p]...), tok...), b[e:]...)
		case 6: // duplicate a range
			e := p + r.Intn(20)
			if e > len(b) {
				e = len(b)
			}
			b = insert(b, r.Intn(len(b)+1), append([]byte{}, b[p:e]...))
		case 7: // flip a bit
			if p < len(b) {
				b[p] ^= 1 << uint(r.Intn(8))
			}
		case 8: // repeat a byte
			if p < len(b) {
				b = insert(b, p, []byte(strings.Repeat(string(b[p:p+1]), mon.Pick(r, 1, 2, 40, 300))))
			}
		}
	}
	return b
}

func insert(b []byte, p int, s []byte) []byte {
	out := make([]byte, 0, len(b)+len(s))
	out = append(out, b[:p]...)
	out = append(out, s...)
	return append(out, b[p:]...)
}

// nmdcValid makes bytes of a message as written by this library or by a peer, without the delimiter.
func nmdcValid(r *mon.Rand, g *nGen) []byte {
	if r.P(1, 3) {
		p := &peer{r: r, g: g}
		types := peerTypes()
		line, _ := peerGens[types[r.Intn(len(types))]](p)
		return []byte(line)
	}
	if r.P(1, 20) {
		b, err := nmdc.Marshal(nil, g.any().in)
		if err == nil && len(b) > 0 {
			return b[:len(b)-1]
		}
	}
	b, err := nmdc.Marshal(nil, g.pick(nmdcTypes[r.Intn(len(nmdcTypes))]).in)
	if err != nil || len(b) == 0 {
		return []byte("$Hello x")
	}
	return b[:len(b)-1]
}

// nmdcHostile makes arbitrary bytes that resemble messages.
func nmdcHostile(r *mon.Rand) []byte {
	g := newNGen(r)
	if r.P(1, 150) {
		g = scaleNGen(r, 25000)
	}
	switch r.Intn(10) {
	case 0:
		return r.Bytes(gen.Size(r, 600))
	case 1:
		var sb strings.Builder
		for i, n := 0, gen.Count(r, 12); i < n; i++ {
			sb.WriteString(mon.Pick(r, nmdcTokens...))
		}
		return []byte(sb.String())
	case 2, 3:
		// a known command with arbitrary tokens
		var sb strings.Builder
		if typ := nmdcTypes[r.Intn(len(nmdcTypes))]; typ != "" {
			sb.WriteString("$" + typ)
			if r.P(9, 10) {
				sb.WriteByte(' ')
			}
		} else {
			sb.WriteString("<")
		}
		for i, n := 0, gen.Count(r, 10); i < n; i++ {
			sb.WriteString(mon.Pick(r, nmdcTokens...))
			if r.P(1, 5) {
				sb.Write(r.Bytes(r.Intn(4)))
			}
		}
		return []byte(sb.String())
	case 4:
		// arbitrary command names
		n := mon.Pick(r, 0, 1, 2, 5, 30, 31, 32, 33, 40, 64, 65, 300)
		name := make([]byte, n)
		for i := range name {
			name[i] = mon.Pick(r, byte('a'), 'Z', '0', '_', '-', ':', '.')
		}
		if n > 0 && r.P(1, 3) {
			name[r.Intn(n)] = byte(r.U64())
		}
		return append(append([]byte("$"), name...), mon.Pick(r, "", " ", " x", " a b c", "\x00")...)
	}
	return mutate(r, nmdcValid(r, g), nmdcTokens)
}
