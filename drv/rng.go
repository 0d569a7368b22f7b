package main

// splitmix64: deterministic across Go versions and independent of math/rand,
// which the code under test also uses.
type rng struct{ s uint64 }

func newRng(seed, idx uint64) *rng {
	r := &rng{s: seed*0x9E3779B97F4A7C15 + idx*0xD1B54A32D192ED03 + 0x1234567}
	r.u64()
	r.u64()
	return r
}
func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	x := r.s
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}
func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u64() % uint64(k))
}
func (r *rng) p(pct int) bool   { return r.n(100) < pct }
func (r *rng) rng(a, b int) int { return a + r.n(b-a+1) }
func (r *rng) perm(k int) []int {
	p := make([]int, k)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
