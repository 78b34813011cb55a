// Package cases holds the simulated cases: their generators, their JSON form
// and how they are made smaller. It does not import textwire, so the driver
// and the workers share it.
package cases

// Rng is a splitmix64 stream; every random choice of a case comes from one.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{Mix(seed)} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Sub returns an independent stream named by tag.
func (r *Rng) Sub(tag uint64) *Rng { return NewRng(r.s ^ Mix(tag)) }
