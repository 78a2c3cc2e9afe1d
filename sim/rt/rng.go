package rt

// splitmix64: every random choice of a run is a pure function of the run seed
// and a stable label, so that adding a consumer never shifts another's stream.

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return Mix(h)
}

type RNG struct{ s uint64 }

func NewRNG(seed uint64, label string) *RNG { return &RNG{Mix(seed ^ HashStr(label))} }

func (r *RNG) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return Mix(r.s) }

// Intn returns a value in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) F() float64           { return float64(r.U64()>>11) / (1 << 53) }
func (r *RNG) P(p float64) bool     { return r.F() < p }
func (r *RNG) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *RNG) Pick(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], i
	}
	return p
}
