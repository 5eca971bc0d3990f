package rt

// Rng is splitmix64: small, fast, and identical everywhere.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return int(r.U64()%100) < pct }

// Hash derives an independent value from a seed and parts.
func Hash(seed uint64, parts ...interface{}) uint64 {
	h := mix(seed + 0x9e3779b97f4a7c15)
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			for i := 0; i < len(x); i++ {
				h = mix(h ^ uint64(x[i]) ^ 0x100)
			}
			h = mix(h ^ 0x5a5a)
		case int:
			h = mix(h ^ uint64(x) ^ 0xabcdef0123)
		case uint64:
			h = mix(h ^ x)
		default:
			panic("Hash: bad part")
		}
	}
	return h
}
