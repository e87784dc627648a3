package gen

import (
	"strings"
	"unicode/utf8"

	"verif/harness/mon"
)

var pieces = []string{
	"$", "|", "&", "<", ">", "&#36;", "&#124;", "&amp;", "&amp;#36;", "&amp;amp;", "&lt;", "&gt;", "&#36", "&#124", "&#x7c;", "&#0;", "&nbsp;x",
	"> ", " <", "<a> ", "From:", " From: ", " $<", "$<b> ", "$$", "||", "|$Kick x|", "$Quit ", "/", "\\", "\\\\", "\\s", "\\n", "?", ",", ":", ";",
	"(", ")", " (", "+", "-", "=", "TTH:", "Hub:", " V:", "M:A", "\r", "\n", "\r\n", "\t", "'", "\"", "%", "/%", "DCN", "#", "~", "`", "*", "!", "@",
	"héé", "日本", "😀", "ЖЯ", "é", "\u00a0", "\u2028", "ß", "a", "B", "zz", "0", "1", "42", "word", "long words here", "me", "AD", "RM", "NI",
	"\x01", "\x02", "\x1f", "\x7f", "E", "S", "N", "R", "T?T", "/1", " 1/2", "ALL", "\v", "\f", "\u0085",
}

var plain = []string{"a", "b", "foo", "Bar", "user", "x1", "日本", "é", "nick", "zed", "42", "_", "-", "[OP]", "{x}", "^", "'", "~"}

// Text makes a text without NUL and legacy escapes. Characters from the set not are removed.
func Text(r *mon.Rand, max int, not string) string {
	var sb strings.Builder
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		n := r.Intn(max + 1)
		for sb.Len() < n {
			sb.WriteString(mon.Pick(r, "lorem ", "ipsum", "日本", "|", "a"))
		}
	case 2, 3, 4:
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			sb.WriteString(mon.Pick(r, plain...))
			if r.Bool() {
				sb.WriteByte(' ')
			}
		}
	default:
		for i, n := 0, 1+r.Intn(8); i < n; i++ {
			if r.P(1, 4) {
				sb.WriteByte(' ')
			}
			sb.WriteString(mon.Pick(r, pieces...))
		}
	}
	return Clean(sb.String(), max, not)
}

// Clean removes NUL, legacy escapes and characters of the set, and limits the length.
func Clean(s string, max int, not string) string {
	if len(s) > max {
		s = s[:max]
		for len(s) > 0 && !utf8.ValidString(s) {
			s = s[:len(s)-1]
		}
	}
	s = strings.Map(func(c rune) rune {
		if c == 0 || strings.ContainsRune(not, c) {
			return -1
		}
		return c
	}, s)
	for strings.Contains(s, "/%DCN") {
		s = strings.Replace(s, "/%DCN", "", -1)
	}
	return s
}

// EscapedLen is a length of a name in the NMDC wire form.
func EscapedLen(s string) int {
	n := len(s)
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '&':
			n += 4
		case '<', '>':
			n += 3
		case '|':
			n += 5
		}
	}
	return n
}

// Name makes a valid non-empty name.
func Name(r *mon.Rand, spaces bool) string {
	not := "$\r\n\t"
	if !spaces {
		not += " "
	}
	for i := 0; ; i++ {
		max := 40
		if r.P(1, 20) {
			max = 256
		}
		s := Text(r, max, not)
		if s == "" || EscapedLen(s) > 256 {
			if i > 20 {
				return "user"
			}
			continue
		}
		return s
	}
}

// Bytes around interesting sizes.
func Size(r *mon.Rand, max int) int {
	var n int
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1, 2, 3:
		n = r.Intn(40)
	case 4:
		n = r.Intn(300)
	case 5:
		n = mon.Pick(r, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 4098, 6144)
	case 6:
		n = r.Intn(5000)
	case 7:
		n = mon.Pick(r, 8191, 8192, 32766, 32767, 16384, r.Intn(32768))
	}
	if n > max {
		n = max - r.Intn(3)
		if n < 0 {
			n = 0
		}
	}
	return n
}

// Quote shortens a value for messages.
func Quote(b []byte) string {
	const max = 400
	if len(b) <= max {
		return quote(b)
	}
	return quote(b[:max/2]) + "...(" + itoa(len(b)) + " bytes)..." + quote(b[len(b)-max/2:])
}
