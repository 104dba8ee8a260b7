package mon

import "hash/fnv"

// Rand is a small deterministic generator. Every case gets its own, derived
// from the run's seed, the property and the case index, so that neither
// scheduling nor the number of workers influences what a case does.
type Rand struct{ s uint64 }

// NewRand derives a generator from the given parts.
func NewRand(seed uint64, prop string, idx uint64) *Rand {
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := &Rand{s: seed*0x9E3779B97F4A7C15 ^ h.Sum64()}
	r.s ^= mix(idx + 0x632BE59BD9B4E019)
	r.Uint64()
	return r
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Uint64 returns 64 random bits.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}

// Intn returns a number in [0,n); 0 for n <= 1.
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Chance is true with probability num/den.
func (r *Rand) Chance(num, den int) bool { return r.Intn(den) < num }

// Bool is a coin flip.
func (r *Rand) Bool() bool { return r.Uint64()&1 == 1 }

// Pick returns one of the given strings.
func (r *Rand) Pick(ss ...string) string { return ss[r.Intn(len(ss))] }

// Perm returns a permutation of [0,n).
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Size returns a heavy-tailed size: usually small, sometimes up to max.
func (r *Rand) Size(small, max int) int {
	switch r.Intn(40) {
	case 0:
		return r.Intn(max + 1)
	case 1, 2:
		return r.Intn(small*4 + 1)
	default:
		return r.Intn(small + 1)
	}
}
