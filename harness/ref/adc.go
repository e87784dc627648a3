package ref

import (
	"errors"
	"strings"
)

// ADCEscape is the ADC text escaping: "\s" for space, "\n" for newline, "\\" for backslash.
func ADCEscape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ':
			sb.WriteString("\\s")
		case '\n':
			sb.WriteString("\\n")
		case '\\':
			sb.WriteString("\\\\")
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

// ADCUnescape is the reverse of ADCEscape. Anything that an escaper does not produce is an error.
func ADCUnescape(s string) (string, error) {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\n':
			return "", errors.New("raw separator")
		case '\\':
			i++
			if i >= len(s) {
				return "", errors.New("unfinished escape")
			}
			switch s[i] {
			case 's':
				sb.WriteByte(' ')
			case 'n':
				sb.WriteByte('\n')
			case '\\':
				sb.WriteByte('\\')
			default:
				return "", errors.New("unknown escape")
			}
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String(), nil
}

// ADCHeader is a parsed routing header of a packet.
type ADCHeader struct {
	Kind     byte
	Cmd      string
	From, To string   // SIDs
	CID      string   // base32
	Sel      []string // "+ABCD"
	Payload  string
	// Loose is set for feature packets where the border of selectors and the payload may be seen differently
	Loose bool
}

// ADCParse parses a packet with its delimiter. The reason tells why it must be refused.
func ADCParse(p string) (h ADCHeader, reason string) {
	if len(p) < 5 {
		return h, "short"
	}
	if strings.IndexByte(p, 0) >= 0 {
		return h, "NUL"
	}
	if i := strings.IndexByte(p, '\n'); i >= 0 && i != len(p)-1 {
		return h, "inner delimiter"
	}
	if strings.IndexByte("BCDEFHIU", p[0]) < 0 {
		return h, "kind"
	}
	h.Kind, h.Cmd = p[0], p[1:4]
	if p[len(p)-1] != '\n' {
		return h, "delimiter"
	}
	rest := p[4 : len(p)-1]
	if rest != "" {
		if rest[0] != ' ' {
			return h, "separator"
		}
		rest = rest[1:]
	}
	// field takes a fixed size field
	bad := ""
	field := func(n int, what string) string {
		if bad != "" {
			return ""
		}
		if len(rest) < n {
			bad = what
			return ""
		}
		v := rest[:n]
		rest = rest[n:]
		return v
	}
	sep := func() {
		if bad != "" || rest == "" {
			return
		}
		if rest[0] != ' ' {
			bad = "separator"
			return
		}
		rest = rest[1:]
	}
	switch h.Kind {
	case 'B':
		h.From = field(4, "SID")
		sep()
	case 'D', 'E':
		h.From = field(4, "SID")
		sep()
		h.To = field(4, "SID")
		sep()
	case 'U':
		h.CID = field(39, "CID")
		for i := 0; i < len(h.CID) && bad == ""; i++ {
			c := h.CID[i]
			if !(c >= 'A' && c <= 'Z' || c >= '2' && c <= '7') {
				bad = "CID"
			}
		}
		sep()
	case 'F':
		h.From = field(4, "SID")
		sep()
		for bad == "" {
			// selectors are separated by one space
			if rest != "" && rest[0] == ' ' {
				h.Loose = true
				rest = rest[1:]
				continue
			}
			if rest == "" || rest[0] != '+' && rest[0] != '-' {
				break
			}
			s := field(5, "selector")
			if bad != "" {
				break
			}
			h.Sel = append(h.Sel, s)
			if rest != "" && rest[0] != ' ' {
				h.Loose = true
			} else if rest != "" {
				rest = rest[1:]
			}
		}
	}
	if bad != "" {
		return h, bad
	}
	h.Payload = rest
	return h, ""
}
