package rt

// Prng is the only source of randomness of the simulator (splitmix64).
type Prng struct{ s uint64 }

// NewPrng creates a generator that is a pure function of its seeds.
func NewPrng(seeds ...uint64) *Prng {
	p := &Prng{s: 0x9E3779B97F4A7C15}
	for _, s := range seeds {
		p.s = (p.s ^ s) * 0xBF58476D1CE4E5B9
		p.Next()
	}
	return p
}

//go:norace
func (p *Prng) Next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
//
//go:norace
func (p *Prng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.Next() % uint64(n))
}

// Float returns a number in [0,1).
//
//go:norace
func (p *Prng) Float() float64 { return float64(p.Next()>>11) / (1 << 53) }

// Chance is true with probability pr.
//
//go:norace
func (p *Prng) Chance(pr float64) bool { return p.Float() < pr }
