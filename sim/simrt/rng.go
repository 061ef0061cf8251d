package simrt

// Rand is a small deterministic generator (splitmix64). Every random choice of
// a run comes from one instance of it, seeded from the run's seed.
type Rand struct{ s uint64 }

// NewRand returns a generator for the given seed.
func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

// Mix derives an independent seed from a seed and a stream number.
func Mix(seed, stream uint64) uint64 {
	r := Rand{s: seed ^ (stream+1)*0xd1342543de82ef95}
	r.Uint64()
	return r.Uint64()
}

// Uint64 returns the next value.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Float returns a value in [0,1).
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// Bool returns true with probability p.
func (r *Rand) Bool(p float64) bool { return r.Float() < p }
