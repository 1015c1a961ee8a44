package sim

import (
	"fmt"
	"hash/fnv"
)

// Rand is the only source of choice; one seed is one sequence.
type Rand struct{ s uint64 }

// NewRand derives a generator from labels.
func NewRand(labels ...any) *Rand {
	h := fnv.New64a()
	for _, l := range labels {
		fmt.Fprintf(h, "%v\x00", l)
	}
	return &Rand{h.Sum64()}
}

// U64 is the next number.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is a number below n.
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

// Pick chooses one.
func Pick[T any](r *Rand, a []T) T { return a[r.N(len(a))] }

// Shuffle permutes.
func Shuffle[T any](r *Rand, a []T) {
	for i := len(a) - 1; i > 0; i-- {
		j := r.N(i + 1)
		a[i], a[j] = a[j], a[i]
	}
}
