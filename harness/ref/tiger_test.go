package ref

import (
	"fmt"
	th "github.com/cxmcc/tiger"
	"testing"
)

func TestTiger(t *testing.T) {
	for n := 0; n < 300; n++ {
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i*7 + n)
		}
		h := th.New()
		h.Write(p)
		a := Tiger(p)
		if fmt.Sprintf("%x", a) != fmt.Sprintf("%x", h.Sum(nil)) {
			t.Fatalf("%d: %x %x", n, a, h.Sum(nil))
		}
	}
}
