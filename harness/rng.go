package main

// A small deterministic generator, independent of the library's use of math/rand.
type rng struct {
	s   uint64
	idx int // number of the scenario
}

func newRng(seed uint64, parts ...uint64) *rng {
	r := &rng{s: seed*0x9E3779B97F4A7C15 + 0x1234567}
	for _, p := range parts {
		r.s ^= r.next() + p*0xBF58476D1CE4E5B9
	}
	r.next()
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int { // 0..n-1
	return int(r.next() % uint64(n))
}
func (r *rng) in(lo, hi int) int    { return lo + r.n(hi-lo+1) }
func (r *rng) p(percent int) bool   { return r.n(100) < percent }
func pick[X any](r *rng, xs ...X) X { return xs[r.n(len(xs))] }

func atMost(a, b int) int {
	if a > b {
		return b
	}
	return a
}
