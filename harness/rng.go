package main

import "hash/fnv"

// rng is a splitmix64 generator: every case is a function of (seed, property,
// index) alone.
type rng struct{ s uint64 }

func newRng(seed uint64, name string, idx uint64) *rng {
	h := fnv.New64a()
	h.Write([]byte(name))
	r := &rng{seed*0x9E3779B97F4A7C15 ^ h.Sum64() ^ (idx+1)*0xD1B54A32D192ED03}
	r.next()
	r.next()
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.next() % uint64(k))
}

// p is true with probability percent/100.
func (r *rng) p(percent int) bool { return r.n(100) < percent }

func (r *rng) fork() *rng { return &rng{r.next()} }

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }

// weighted picks an index with the given weights.
func (r *rng) weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
