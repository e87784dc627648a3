// Package props holds the monitors of the properties.
package props

import (
	"bytes"
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"
)

// All lists properties decided by the main binary.
func All() []mon.Property {
	return []mon.Property{
		c01(), c02(), c03(), c04(), c05(), c06(), c07(), c08(), c09(), c10(), c11(), c12(), c13(), c14(), c15(), c16(), c17(), c18(), c19(), c20(), c21(), c22(), c23(), c24(), c25(), c26(), c27(), c28(), c29(),
	}
}

func q(b []byte) string { return gen.Quote(b) }

// diff describes the first difference of two byte strings.
func diff(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	hi := func(b []byte) []byte {
		e := i + 60
		if e > len(b) {
			e = len(b)
		}
		return b[lo:e]
	}
	return fmt.Sprintf("lengths %d vs expected %d, first difference at %d: got ...%q, expected ...%q", len(got), len(want), i, hi(got), hi(want))
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }
