// Package ref holds independent reference implementations used by oracles. Nothing here uses the code under test.
package ref

import (
	"errors"

	"verif/harness/mon"
)

// ErrTruncated means that the compressed stream is valid so far, but is not complete.
var ErrTruncated = errors.New("ref: compressed stream is truncated")

// ErrCorrupt means that the stream is not a zlib stream.
var ErrCorrupt = errors.New("ref: corrupt zlib stream")

type bitReader struct {
	p    []byte
	pos  int
	bits uint32
	n    uint
}

func (b *bitReader) get(n uint) uint32 {
	for b.n < n {
		if b.pos >= len(b.p) {
			panic(ErrTruncated)
		}
		b.bits |= uint32(b.p[b.pos]) << b.n
		b.pos++
		b.n += 8
	}
	v := b.bits & (1<<n - 1)
	b.bits >>= n
	b.n -= n
	return v
}

type huff struct {
	count [16]int
	syms  []int
}

func newHuff(lens []int) *huff {
	h := &huff{}
	for _, l := range lens {
		h.count[l]++
	}
	h.count[0] = 0
	var offs [17]int
	for i := 1; i < 16; i++ {
		offs[i+1] = offs[i] + h.count[i]
	}
	h.syms = make([]int, offs[16])
	for s, l := range lens {
		if l != 0 {
			h.syms[offs[l]] = s
			offs[l]++
		}
	}
	return h
}

func (h *huff) read(b *bitReader) int {
	code, first, index := 0, 0, 0
	for l := 1; l < 16; l++ {
		code |= int(b.get(1))
		c := h.count[l]
		if code-c < first {
			return h.syms[index+code-first]
		}
		index += c
		first = (first + c) << 1
		code <<= 1
	}
	panic(ErrCorrupt)
}

var (
	lenBase   = []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	lenExtra  = []uint{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	distBase  = []int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	distExtra = []uint{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
	clOrder   = []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
)

func fixedLens() ([]int, []int) {
	l := make([]int, 288)
	for i := range l {
		switch {
		case i < 144:
			l[i] = 8
		case i < 256:
			l[i] = 9
		case i < 280:
			l[i] = 7
		default:
			l[i] = 8
		}
	}
	d := make([]int, 30)
	for i := range d {
		d[i] = 5
	}
	return l, d
}

// Inflater is a result of decoding.
type Inflater struct {
	Out      []byte
	Consumed int // bytes of the input that belong to the stream; set when it's complete
}

// Zlib decodes a zlib stream at the start of p. It returns everything that can be decoded, even with ErrTruncated.
func Zlib(p []byte) (res Inflater, err error) {
	b := &bitReader{p: p}
	var out []byte
	defer func() {
		res.Out = out
		if v := recover(); v != nil {
			e, ok := v.(error)
			if !ok || (e != ErrTruncated && e != ErrCorrupt) {
				panic(v)
			}
			err = e
		}
	}()
	cmf, flg := b.get(8), b.get(8)
	if cmf&0xf != 8 || cmf>>4 > 7 || (cmf<<8|flg)%31 != 0 || flg&0x20 != 0 {
		return res, ErrCorrupt
	}
	win := 1 << (8 + cmf>>4)
	for {
		final := b.get(1)
		typ := b.get(2)
		var lit, dist *huff
		switch typ {
		case 0:
			b.bits, b.n = 0, 0
			n, nn := b.get(16), b.get(16)
			if n != ^nn&0xffff {
				return res, ErrCorrupt
			}
			for i := 0; i < int(n); i++ {
				out = append(out, byte(b.get(8)))
			}
		case 1:
			l, d := fixedLens()
			lit, dist = newHuff(l), newHuff(d)
		case 2:
			nl, nd, nc := int(b.get(5))+257, int(b.get(5))+1, int(b.get(4))+4
			cl := make([]int, 19)
			for i := 0; i < nc; i++ {
				cl[clOrder[i]] = int(b.get(3))
			}
			ch := newHuff(cl)
			lens := make([]int, 0, nl+nd)
			for len(lens) < nl+nd {
				s := ch.read(b)
				rep, v := 1, s
				switch s {
				case 16:
					if len(lens) == 0 {
						return res, ErrCorrupt
					}
					rep, v = 3+int(b.get(2)), lens[len(lens)-1]
				case 17:
					rep, v = 3+int(b.get(3)), 0
				case 18:
					rep, v = 11+int(b.get(7)), 0
				}
				for ; rep > 0; rep-- {
					lens = append(lens, v)
				}
			}
			if len(lens) != nl+nd {
				return res, ErrCorrupt
			}
			lit, dist = newHuff(lens[:nl]), newHuff(lens[nl:])
		default:
			return res, ErrCorrupt
		}
		for lit != nil {
			s := lit.read(b)
			if s < 256 {
				out = append(out, byte(s))
				continue
			}
			if s == 256 {
				break
			}
			s -= 257
			if s >= len(lenBase) {
				return res, ErrCorrupt
			}
			n := lenBase[s] + int(b.get(lenExtra[s]))
			ds := dist.read(b)
			if ds >= len(distBase) {
				return res, ErrCorrupt
			}
			d := distBase[ds] + int(b.get(distExtra[ds]))
			if d > len(out) || d > win {
				return res, ErrCorrupt
			}
			for ; n > 0; n-- {
				out = append(out, out[len(out)-d])
			}
		}
		if final != 0 {
			break
		}
	}
	b.bits, b.n = 0, 0
	sum := b.get(8)<<24 | b.get(8)<<16 | b.get(8)<<8 | b.get(8)
	if sum != adler32(out) {
		return res, ErrCorrupt
	}
	res.Consumed = b.pos
	return res, nil
}

func adler32(p []byte) uint32 {
	a, b := uint32(1), uint32(0)
	for _, c := range p {
		a = (a + uint32(c)) % 65521
		b = (b + a) % 65521
	}
	return b<<16 | a
}

type bitWriter struct {
	p    []byte
	bits uint32
	n    uint
}

func (b *bitWriter) put(v uint32, n uint) {
	for i := uint(0); i < n; i++ {
		b.bits |= (v >> i & 1) << b.n
		b.n++
		if b.n == 8 {
			b.p = append(b.p, byte(b.bits))
			b.bits, b.n = 0, 0
		}
	}
}

func (b *bitWriter) align() {
	for b.n != 0 {
		b.put(0, 1)
	}
}

type encTable struct {
	code []uint32
	lens []int
}

func newEnc(lens []int) *encTable {
	e := &encTable{code: make([]uint32, len(lens)), lens: lens}
	code := uint32(0)
	for l := 1; l < 16; l++ {
		for s, sl := range lens {
			if sl == l {
				e.code[s] = code
				code++
			}
		}
		code <<= 1
	}
	return e
}

func (e *encTable) put(b *bitWriter, s int) {
	l := e.lens[s]
	for i := l - 1; i >= 0; i-- { // most significant bit first
		b.put(e.code[s]>>uint(i)&1, 1)
	}
}

// ZlibEncode encodes data with a random mixture of block types, matches, sizes and header parameters.
func ZlibEncode(r *mon.Rand, data []byte) []byte {
	b := &bitWriter{}
	cinfo := uint32(7)
	if r.P(1, 3) {
		cinfo = uint32(1 + r.Intn(7))
	}
	win := 1 << (8 + cinfo)
	cmf := cinfo<<4 | 8
	flg := uint32(r.Intn(4)) << 6
	flg += (31 - (cmf<<8|flg)%31) % 31
	b.p = append(b.p, byte(cmf), byte(flg))
	pos := 0
	last := map[[3]byte]int{}
	for done := false; !done; {
		n := len(data) - pos
		if n > 1 && r.P(3, 4) {
			n = 1 + r.Intn(n)
		}
		if r.P(1, 8) {
			n = 0 // empty block
		}
		typ := r.Intn(3)
		if typ == 0 && n > 65535 {
			n = 65535
		}
		done = pos+n == len(data) && r.P(2, 3)
		blk := data[pos : pos+n]
		if done {
			b.put(1, 1)
		} else {
			b.put(0, 1)
		}
		b.put(uint32(typ), 2)
		if typ == 0 {
			b.align()
			b.p = append(b.p, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
			b.p = append(b.p, blk...)
			pos += n
			continue
		}
		ll, dl := fixedLens()
		if typ == 2 {
			ll = make([]int, 286)
			swap := r.Intn(60)
			for i := range ll {
				ll[i] = 8
				if j := (i + swap) % 286; j < 60 {
					ll[i] = 9
				}
			}
			dl = make([]int, 30)
			for i := range dl {
				dl[i] = 5
				if i < 2 {
					dl[i] = 4
				}
			}
			b.put(286-257, 5)
			b.put(30-1, 5)
			b.put(15, 4)
			cl := make([]int, 19)
			for _, s := range []int{4, 5, 8, 9} {
				cl[s] = 2
			}
			for _, s := range clOrder {
				b.put(uint32(cl[s]), 3)
			}
			ce := newEnc(cl)
			for _, l := range append(append([]int{}, ll...), dl...) {
				ce.put(b, l)
			}
		}
		le, de := newEnc(ll), newEnc(dl)
		end := pos + n
		for pos < end {
			if pos+3 <= end {
				k := [3]byte{data[pos], data[pos+1], data[pos+2]}
				j, ok := last[k]
				last[k] = pos
				if ok && pos-j <= win && r.P(7, 8) {
					m := 3
					for m < 258 && pos+m < end && data[j+m] == data[pos+m] {
						m++
					}
					ls := 0
					for ls+1 < len(lenBase) && lenBase[ls+1] <= m {
						ls++
					}
					le.put(b, 257+ls)
					b.put(uint32(m-lenBase[ls]), lenExtra[ls])
					d := pos - j
					ds := 0
					for ds+1 < len(distBase) && distBase[ds+1] <= d {
						ds++
					}
					de.put(b, ds)
					b.put(uint32(d-distBase[ds]), distExtra[ds])
					pos += m
					continue
				}
			}
			le.put(b, int(data[pos]))
			pos++
		}
		le.put(b, 256)
	}
	b.align()
	s := adler32(data)
	return append(b.p, byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
}
