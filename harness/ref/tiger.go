package ref

import (
	"encoding/binary"
	"math/big"
)

// Tiger is an independent implementation of the published hash function. The S-boxes are not copied: they are
// derived with the generator program of the designers (pass phrase, five passes).
type tigerTab [4][256]uint64

var tigerBoxes = genTiger()

const tigerPhrase = "Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham"

var tigerIV = [3]uint64{0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187}

func genTiger() *tigerTab {
	var ch [1024][8]byte // little endian columns
	for i := range ch {
		for c := range ch[i] {
			ch[i][c] = byte(i)
		}
	}
	tab := &tigerTab{}
	load := func(i int) { tab[i/256][i%256] = binary.LittleEndian.Uint64(ch[i][:]) }
	for i := range ch {
		load(i)
	}
	state := tigerIV
	abc := 2
	for pass := 0; pass < 5; pass++ {
		for i := 0; i < 256; i++ {
			for sb := 0; sb < 1024; sb += 256 {
				abc++
				if abc == 3 {
					abc = 0
					state = tab.compress([]byte(tigerPhrase)[:64], state)
				}
				var s [8]byte
				binary.LittleEndian.PutUint64(s[:], state[abc])
				for col := 0; col < 8; col++ {
					j := sb + int(s[col])
					ch[sb+i][col], ch[j][col] = ch[j][col], ch[sb+i][col]
					load(j)
				}
				load(sb + i)
			}
		}
	}
	return tab
}

func (t *tigerTab) compress(block []byte, h [3]uint64) [3]uint64 {
	var x [8]uint64
	for i := range x {
		x[i] = binary.LittleEndian.Uint64(block[8*i:])
	}
	a, b, c := h[0], h[1], h[2]
	byt := func(v uint64, i uint) byte { return byte(v >> (8 * i)) }
	round := func(a, b, c, x, mul uint64) (uint64, uint64, uint64) {
		c ^= x
		a -= t[0][byt(c, 0)] ^ t[1][byt(c, 2)] ^ t[2][byt(c, 4)] ^ t[3][byt(c, 6)]
		b += t[3][byt(c, 1)] ^ t[2][byt(c, 3)] ^ t[1][byt(c, 5)] ^ t[0][byt(c, 7)]
		b *= mul
		return a, b, c
	}
	for pass, mul := range []uint64{5, 7, 9} {
		if pass != 0 {
			x[0] -= x[7] ^ 0xA5A5A5A5A5A5A5A5
			x[1] ^= x[0]
			x[2] += x[1]
			x[3] -= x[2] ^ (^x[1] << 19)
			x[4] ^= x[3]
			x[5] += x[4]
			x[6] -= x[5] ^ (^x[4] >> 23)
			x[7] ^= x[6]
			x[0] += x[7]
			x[1] -= x[0] ^ (^x[7] << 19)
			x[2] ^= x[1]
			x[3] += x[2]
			x[4] -= x[3] ^ (^x[2] >> 23)
			x[5] ^= x[4]
			x[6] += x[5]
			x[7] -= x[6] ^ 0x0123456789ABCDEF
		}
		for i := 0; i < 8; i++ {
			a, b, c = round(a, b, c, x[i], mul)
			a, b, c = b, c, a
		}
	}
	return [3]uint64{a ^ h[0], b - h[1], c + h[2]}
}

// Tiger computes the digest.
func Tiger(p []byte) (out [24]byte) {
	h := tigerIV
	n := uint64(len(p))
	for len(p) >= 64 {
		h = tigerBoxes.compress(p[:64], h)
		p = p[64:]
	}
	tail := append(append([]byte{}, p...), 0x01)
	for len(tail)%64 != 56 {
		tail = append(tail, 0)
	}
	tail = binary.LittleEndian.AppendUint64(tail, n*8)
	for len(tail) > 0 {
		h = tigerBoxes.compress(tail[:64], h)
		tail = tail[64:]
	}
	for i, v := range h {
		binary.LittleEndian.PutUint64(out[8*i:], v)
	}
	return
}

// TTHLeaves computes the leaf hashes of the specification.
func TTHLeaves(p []byte) (out [][24]byte) {
	for first := true; first || len(p) > 0; first = false {
		n := len(p)
		if n > 1024 {
			n = 1024
		}
		out = append(out, Tiger(append([]byte{0}, p[:n]...)))
		p = p[n:]
	}
	return
}

// TTHRoot computes the root recursively: the left subtree is the largest full one, as in a Merkle tree definition
// (equivalent to promoting odd nodes).
func TTHRoot(l [][24]byte) [24]byte {
	if len(l) == 1 {
		return l[0]
	}
	k := 1
	for k*2 < len(l) {
		k *= 2
	}
	a, b := TTHRoot(l[:k]), TTHRoot(l[k:])
	return Tiger(append(append([]byte{1}, a[:]...), b[:]...))
}

const b32Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

// Base32 is computed with arbitrary precision arithmetic, without padding.
func Base32(p []byte) string {
	nbits := len(p) * 8
	nch := (nbits + 4) / 5
	v := new(big.Int).SetBytes(p)
	v.Lsh(v, uint(nch*5-nbits))
	out := make([]byte, nch)
	m, base := new(big.Int), big.NewInt(32)
	for i := nch - 1; i >= 0; i-- {
		v.DivMod(v, base, m)
		out[i] = b32Alphabet[m.Int64()]
	}
	return string(out)
}
