// Package mon is the runtime-monitoring core: it runs numbered cases of monitors deterministically, watches them for
// violations reported by oracles, panics inside the code under test, hangs and unbounded memory use, and reports what
// was observed.
package mon

// Rand is a splitmix64 generator. The whole case is determined by its initial state.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// HashStr is FNV-1a with a final mix.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// Intn returns a number in [0, n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a, b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Bool is a fair coin.
func (r *Rand) Bool() bool { return r.U64()&1 != 0 }

// P returns true with a probability of a/b.
func (r *Rand) P(a, b int) bool { return r.Intn(b) < a }

// Fork returns an independent generator.
func (r *Rand) Fork() *Rand { return NewRand(r.U64()) }

// Fill fills the buffer with random bytes.
func (r *Rand) Fill(p []byte) {
	for i := range p {
		p[i] = byte(r.U64() >> 24)
	}
}

// Bytes returns n random bytes.
func (r *Rand) Bytes(n int) []byte {
	p := make([]byte, n)
	r.Fill(p)
	return p
}

// Perm returns a permutation.
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Pick returns one of the values.
func Pick[X any](r *Rand, arr ...X) X { return arr[r.Intn(len(arr))] }
