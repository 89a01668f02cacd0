// Package scn holds what the driver and the worker share: scenarios, the
// random generator, the independent statement splitter and the document
// library.
package scn

// Rand is the one source of choices of a run.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { r := &Rand{seed}; r.Uint64(); return r }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true in pct of 100 cases.
func (r *Rand) P(pct int) bool { return r.Intn(100) < pct }

// Skew returns a number in [0,n), small ones more often.
func (r *Rand) Skew(n int) int {
	if n <= 1 {
		return 0
	}
	return r.Intn(r.Intn(n) + 1)
}

// Shuffle permutes n elements.
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

// Pick returns one element.
func Pick[T any](r *Rand, xs []T) T { return xs[r.Intn(len(xs))] }

// Mix derives a seed from parts.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		r := Rand{h ^ p*0xff51afd7ed558ccd}
		h = r.Uint64()
	}
	return h
}

// HashStr is FNV-1a.
func HashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}
