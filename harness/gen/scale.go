package gen

import (
	"strings"

	"verif/harness/mon"
)

// Scale is a size in [0, max]: around powers of two, around round decimal numbers, or uniform in the logarithm. Limits,
// thresholds and internal buffers of an implementation tend to be there.
func Scale(r *mon.Rand, max int) int {
	if max <= 0 {
		return 0
	}
	bits := 0
	for 1<<uint(bits+1) <= max {
		bits++
	}
	for i := 0; i < 8; i++ {
		n := 0
		switch r.Intn(4) {
		case 0, 1:
			n = 1<<uint(r.Range(2, bits+1)) + r.Range(-3, 3)
		case 2:
			n = mon.Pick(r, 10, 20, 50, 100, 200, 250, 500, 1000, 1500, 2000, 5000, 10000, 20000, 50000, 100000)*mon.Pick(r, 1, 1, 1, 3) + r.Range(-2, 2)
		default:
			n = 1 << uint(r.Intn(bits+1))
			n += r.Intn(n + 1)
		}
		if n >= 0 && n <= max {
			return n
		}
	}
	return max
}

// offset is an interesting position in a value of n bytes.
func offset(r *mon.Rand, n int) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return n - 1 - r.Intn(4)
	case 2:
		return r.Intn(n)
	case 3: // a multiple of a block
		b := 1 << uint(r.Range(4, 13))
		return r.Intn(n/b+1)*b + r.Range(-2, 2)
	case 4:
		b := mon.Pick(r, 100, 128, 250, 500, 1000, 1500)
		return r.Intn(n/b+1)*b + r.Range(-2, 2)
	}
	return Scale(r, n) - r.Intn(2)
}

var scaleTok = []string{
	"|", "$", "&", "<", ">", " ", "\n", "\\", "/", "&#124;", "&#36;", "&amp;", "&amp;amp;", "> ", " $<", "\\s", "\\n", "\\\\", "\r\n", "\t", ",", "?",
	"é", "日本", "😀", "ß", "  ", "||", "$$", "&lt;", "&gt;", "From:", " From: ", "(", ")", "$$$", ":", "+", "-", "\x01", "'", "%",
}

// ScaleText is a text of about n bytes: position-dependent filler with a few special tokens at interesting offsets, or
// a run of a token.
func ScaleText(r *mon.Rand, n int, not string) string {
	if n <= 0 {
		return ""
	}
	var s string
	switch r.Intn(6) {
	case 0: // a run
		tok := mon.Pick(r, scaleTok...)
		s = strings.Repeat(tok, n/len(tok)+1)
		if r.Bool() {
			s = "a" + s + mon.Pick(r, "", "z")
		}
	case 1: // special tokens at a regular distance
		d := mon.Pick(r, 2, 3, 7, 16, 61, 64, 256, 1000, 1024, 4096)
		b := filler(r, n)
		tok := mon.Pick(r, scaleTok...)
		for i := r.Intn(d); i+len(tok) <= len(b); i += d {
			copy(b[i:], tok)
			if d < len(tok) {
				break
			}
			if r.P(1, 4) {
				tok = mon.Pick(r, scaleTok...)
			}
		}
		s = strings.ToValidUTF8(string(b), "u")
	default:
		b := filler(r, n)
		for i, k := 0, r.Intn(5); i < k; i++ {
			tok := mon.Pick(r, scaleTok...)
			if o := offset(r, n); o >= 0 && o+len(tok) <= n {
				copy(b[o:], tok)
			}
		}
		s = strings.ToValidUTF8(string(b), "u")
	}
	if len(s) > n+16 {
		s = strings.ToValidUTF8(s[:n], "")
	}
	return Clean(s, len(s), not)
}

// filler is a text in which each place differs from its neighbours.
func filler(r *mon.Rand, n int) []byte {
	const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	x := uint32(r.U64())
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = alpha[(x>>16)%uint32(len(alpha))]
	}
	return b
}

// Big is like Size, but the value is sometimes much bigger than max.
func Big(r *mon.Rand, max int) int {
	if r.P(1, 60) {
		return Scale(r, 1<<18)
	}
	return Size(r, max)
}

// Count is a number below n, but sometimes a much bigger one.
func Count(r *mon.Rand, n int) int {
	if r.P(1, 120) {
		return Scale(r, 50*n)
	}
	return r.Intn(n)
}
