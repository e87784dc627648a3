package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func c21() mon.Property {
	return mon.Property{
		ID: "C21",
		Rule: "A case is a content (empty, around multiples of the 1024 byte block and around every tree shape, repetitive or random) and a reader delivering it in random pieces (empty reads, data with EOF, errors with or without data at any offset, wrapped EOF-like errors); " +
			"leaves, root and errors are compared with an independent Tiger (S-boxes derived with the published generator) and a recursive Merkle definition. Non-trivial: more than one block or a faulty reader; distinct by content and delivery. " +
			"The size grids run every digest length 0..1100 and every content length around 0..40 blocks.",
		Assume: []string{"readers obey the io.Reader contract", "the root of an empty list of leaves is not defined"},
		Monitors: []mon.Monitor{
			{Name: "content-reader", Quick: 60000, Thorough: 300000, Run: c21Content},
			{Name: "reader-errors", Quick: 60000, Thorough: 300000, Run: c21Errors},
			{Name: "digest-lengths", Quick: 1100, Thorough: 1100, Run: c21Digest},
			{Name: "block-grid", Quick: 41 * 5, Thorough: 300 * 5, Run: c21Grid},
			{Name: "leaves", Quick: 12000, Thorough: 40000, Run: func(t *mon.T) {
				n := 1 + t.Index%600
				if t.R.P(1, 4) {
					n = 1<<uint(t.R.Intn(11)) + t.R.Range(-1, 1)
				}
				c21Leaves(t, n)
			}},
			{Name: "leaves-scale", Quick: 400, Thorough: 4000, Run: func(t *mon.T) { c21Leaves(t, gen.Scale(t.R, 1<<17+3)) }},
			{Name: "content-scale", Quick: 60, Thorough: 800, Run: func(t *mon.T) {
				c21Cmp(t, c21Data(t.R, gen.Scale(t.R, mon.Pick(t.R, 200, 3000, 20000))*1024+t.R.Range(-2, 2)*t.R.Intn(2)+2))
			}},
		},
	}
}

func c21Data(r *mon.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Fill(b)
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(2)) // looks like tree prefixes
		}
	default:
		for i := range b {
			b[i] = byte(i / 1024)
		}
	}
	return b
}

func c21Size(r *mon.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(70)
	case 1:
		n := r.Range(1, 20)*1024 + r.Range(-2, 2)
		return n
	case 2:
		k := 1 << uint(r.Intn(7))
		n := k*1024 + r.Range(-1025, 1025)*r.Intn(2) + 1024*r.Intn(2)
		if n < 0 {
			n = 0
		}
		return n
	default:
		return r.Intn(70 * 1024)
	}
}

// stallReader delivers the data with long runs of empty reads.
type stallReader struct {
	r    *mon.Rand
	data []byte
	skip int
}

func (s *stallReader) Read(p []byte) (int, error) {
	if s.skip > 0 {
		s.skip--
		return 0, nil
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	if s.r.P(1, 2) {
		s.skip = mon.Pick(s.r, 1, 2, 99, 100, 101, 150, 300)
	}
	n := s.r.Range(1, 1500)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.data)
	s.data = s.data[n:]
	return n, nil
}

// c21Cmp checks both functions over readers with their own chunking.
func c21Cmp(t *mon.T, data []byte) {
	r := t.R
	leaves := ref.TTHLeaves(data)
	root := ref.TTHRoot(leaves)
	orig := append([]byte{}, data...)

	var plans [2]gen.Chunking
	for i := range plans {
		rd := gen.NewReader(r.Fork(), data)
		plans[i] = rd.Plan
		var src io.Reader = rd
		stalls := false
		if r.P(1, 5) {
			src = bytes.NewReader(data) // a reader with extra methods
		} else if len(data) < 8192 && r.P(1, 5) {
			// delivers nothing many times in a row; a function may give up, but not return something else
			stalls = true
			src = &stallReader{r: r.Fork(), data: data}
		}
		if i == 0 {
			h, err := tiger.TreeHash(src)
			if stalls && err == io.ErrNoProgress {
				t.Ev("stalled readers refused", 1)
				continue
			}
			if err != nil {
				t.Failf("tth-error", "%d bytes, %v: %v", len(data), rd.Plan, err)
			}
			if [24]byte(h) != root {
				t.Failf("tth-wrong", "%d bytes (%v): root %v, expected %v", len(data), rd.Plan, h, ref.Base32(root[:]))
			}
		} else {
			l, err := tiger.TreeLeaves(src)
			if stalls && err == io.ErrNoProgress {
				t.Ev("stalled readers refused", 1)
				continue
			}
			if err != nil {
				t.Failf("leaves-error", "%d bytes, %v: %v", len(data), rd.Plan, err)
			}
			if len(l) != len(leaves) {
				t.Failf("leaves-count", "%d bytes (%v): %d leaves, expected %d", len(data), rd.Plan, len(l), len(leaves))
			}
			for j := range l {
				if [24]byte(l[j]) != leaves[j] {
					t.Failf("leaves-wrong", "%d bytes (%v): leaf %d", len(data), rd.Plan, j)
				}
			}
			cp := append(tiger.Leaves{}, l...)
			for k := 0; k < 2; k++ {
				if h := l.TreeHash(); [24]byte(h) != root {
					t.Failf("leaves-root", "%d bytes: root of leaves %v (call %d), expected %v", len(data), h, k, ref.Base32(root[:]))
				}
			}
			for j := range l {
				if l[j] != cp[j] {
					t.Failf("leaves-modified", "%d leaves: leaf %d changed by TreeHash", len(l), j)
				}
			}
		}
		t.Ev("reads", rd.Reads)
	}
	if !eq(orig, data) {
		t.Failf("input-modified", "%d bytes", len(data))
	}
	t.Eval(4)
	t.Ev("blocks hashed", 2*len(leaves))
	if len(leaves) > 1 {
		t.Seen(fmt.Sprint(len(data), plans, ref.Base32(root[:])))
	}
	t.Sample(func() string {
		return fmt.Sprintf("%d bytes, %d leaves, delivery %v -> %s", len(data), len(leaves), plans, ref.Base32(root[:]))
	})
}

func c21Content(t *mon.T) {
	c21Cmp(t, c21Data(t.R, c21Size(t.R)))
}

func c21Grid(t *mon.T) {
	n := t.Index/5*1024 + t.Index%5 - 2
	if n < 0 {
		n = 0
	}
	c21Cmp(t, c21Data(t.R, n))
}

// wrapErr is an error which wraps io.EOF, but isn't one: it's not the end of the content.
type wrapErr struct{ error }

func (e wrapErr) Unwrap() error { return e.error }

func c21Errors(t *mon.T) {
	r := t.R
	data := c21Data(r, c21Size(r))
	pos := 0
	switch r.Intn(4) {
	case 0:
		pos = len(data)
	case 1:
		pos = r.Intn(len(data)/1024+1) * 1024
	default:
		pos = r.Intn(len(data) + 1)
	}
	fail := mon.Pick(r, gen.ErrTransport, io.ErrUnexpectedEOF, io.ErrClosedPipe, error(wrapErr{gen.ErrTransport}))
	for i := 0; i < 2; i++ {
		rd := gen.NewReader(r.Fork(), data[:pos])
		rd.Err = fail
		rd.EOFIn = r.Bool()
		var err error
		name := "TreeHash"
		if i == 0 {
			_, err = tiger.TreeHash(rd)
		} else {
			name = "TreeLeaves"
			_, err = tiger.TreeLeaves(rd)
		}
		if err == nil {
			t.Failf("error-lost", "%s: reader failed with %q after %d bytes (%v, with data %v), no error returned", name, fail, pos, rd.Plan, rd.EOFIn)
		}
		if !errors.Is(err, fail) {
			t.Failf("error-other", "%s: reader failed with %q, returned %q", name, fail, err)
		}
		t.Eval(1)
		t.Ev("reader failures delivered", 1)
		t.Seen(fmt.Sprint(pos, rd.Plan, rd.EOFIn, fail))
	}
}

func c21Digest(t *mon.T) {
	r := t.R
	n := t.Index % 1100
	p := c21Data(r, n)
	orig := append([]byte{}, p...)
	want := ref.Tiger(p)
	if h := tiger.HashBytes(p); [24]byte(h) != want {
		t.Failf("digest", "%d bytes: %x, expected %x", n, h, want)
	}
	// pieces, intermediate sums, reset
	h := tiger.New()
	for round := 0; round < 2; round++ {
		for rest := p; len(rest) > 0; {
			k := r.Intn(len(rest) + 1)
			if n, err := h.Write(rest[:k]); err != nil || n != k {
				t.Failf("digest-write", "%d of %d: %v", n, k, err)
			}
			rest = rest[k:]
			if r.P(1, 4) {
				done := p[:len(p)-len(rest)]
				mid := ref.Tiger(done)
				if got := h.Sum(nil); !eq(got, mid[:]) {
					t.Failf("digest-mid", "sum after %d bytes: %x, expected %x", len(done), got, mid)
				}
			}
		}
		pre := r.Bytes(r.Intn(5))
		got := h.Sum(append([]byte{}, pre...))
		if !eq(got, append(append([]byte{}, pre...), want[:]...)) {
			t.Failf("digest-sum", "%d bytes in pieces (use %d): %x, expected %x after %x", n, round, got, want, pre)
		}
		h.Reset()
	}
	if h.Size() != tiger.Size || h.BlockSize() != tiger.BlockSize {
		t.Failf("digest-size", "%d %d", h.Size(), h.BlockSize())
	}
	if !eq(p, orig) {
		t.Failf("digest-input", "input of %d bytes was modified", n)
	}
	// the hash of an identifier
	var id types.CID
	r.Fill(id[:])
	if got, want := id.Hash(), ref.Tiger(id[:]); [24]byte(got) != want {
		t.Failf("cid-hash", "%v: %v", id, got)
	}
	t.Eval(4)
	t.Ev("digests", 3)
	if n > 0 {
		t.Seen(fmt.Sprint(n, string(p)))
	}
}

// c21Leaves reduces lists of leaves of any length, sharing the backing array with other data.
func c21Leaves(t *mon.T, n int) {
	r := t.R
	if n < 1 {
		n = 1
	}
	all := make([]tiger.Hash, n+3)
	raw := make([][24]byte, n)
	for i := range all {
		r.Fill(all[i][:])
		if i < n {
			raw[i] = all[i]
		}
	}
	cp := append([]tiger.Hash{}, all...)
	if h, want := tiger.Leaves(all[:n]).TreeHash(), ref.TTHRoot(raw); [24]byte(h) != want {
		t.Failf("leaves-root", "%d leaves: %v, expected %v", n, h, ref.Base32(want[:]))
	}
	for i := range all {
		if all[i] != cp[i] {
			t.Failf("leaves-modified", "%d leaves: element %d changed", n, i)
		}
	}
	t.Eval(2)
	t.Ev("leaves reduced", n)
	if n > 1 {
		t.Seen(fmt.Sprint(n, raw[0]))
	}
}
