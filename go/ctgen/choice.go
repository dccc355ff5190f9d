// Package ctgen explores the random choices of the conformance test generators
// and judges the states they produce.
package ctgen

import "math"

// A Source answers the random choices of a generator: every choice has a
// default and a list of alternatives; the deviations of a run say which choice
// takes which alternative.
type Source struct {
	devs   []Dev
	next   int
	points int
	alts   []uint8 // number of alternatives of each choice
	limit  int     // choices that may deviate
	draws  int
	s      uint64
	burst  []uint64
	last   [4]uint64
	phase  int
	addr   [20]byte
	have   bool
	free   bool // no limit on the number of draws
}

// Dev makes a choice take an alternative.
type Dev struct{ Point, Alt int }

// Diverged is the panic of a generator that does not come to an end.
type Diverged struct{}

const maxDraws = 200000

func (r *Source) reset(devs []Dev, limit int) {
	*r = Source{devs: devs, alts: r.alts[:0], limit: limit, s: 0x1234567}
}

func (r *Source) prng() uint64 {
	if r.draws++; r.draws > maxDraws && !r.free {
		panic(Diverged{})
	}
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// point registers a choice with n alternatives; -1 is the default.
func (r *Source) point(n int) int {
	p := r.points
	r.points++
	if p < r.limit {
		r.alts = append(r.alts, uint8(n))
	}
	if r.next < len(r.devs) && r.devs[r.next].Point == p {
		a := r.devs[r.next].Alt
		r.next++
		if a < n {
			return a
		}
	}
	return -1
}

var max64 = uint64(math.MaxUint64)

// Uint64 draws a word; four of them make a 256-bit value.
func (r *Source) Uint64() uint64 {
	if len(r.burst) > 0 {
		v := r.burst[0]
		r.burst = r.burst[1:]
		r.phase = (r.phase + 1) & 3
		return v
	}
	if r.phase == 0 {
		switch r.point(5) {
		case 0:
			r.burst = []uint64{0, 0, 0, 0}
		case 1:
			r.burst = []uint64{max64, max64, max64, max64}
		case 2:
			r.burst = []uint64{1, 0, 0, 0}
		case 3:
			l := r.last
			r.burst = l[:]
		case 4:
			r.burst = []uint64{r.prng(), 0, 0, 0}
		}
		if len(r.burst) > 0 {
			return r.Uint64()
		}
	}
	v := r.prng()
	r.last[r.phase] = v
	r.phase = (r.phase + 1) & 3
	return v
}

// Choose decides among n possibilities.
func (r *Source) Choose(n uint64) uint64 {
	r.burst, r.phase = nil, 0
	if n == 1 {
		return 0
	}
	if n <= 6 {
		if a := r.point(int(n)); a >= 0 {
			return uint64(a)
		}
		return r.prng() % n
	}
	switch r.point(5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return n - 1
	case 3:
		return n / 2
	case 4:
		return r.prng() % n
	}
	return r.prng() % 6
}

// Exp draws the length of something.
func (r *Source) Exp() float64 {
	r.burst, r.phase = nil, 0
	switch r.point(3) {
	case 0:
		return 0
	case 1:
		return 1e6
	case 2:
		return 0.2
	}
	return float64(r.prng()%12) * 0.005
}

func fill(p []byte, b byte) {
	for i := range p {
		p[i] = b
	}
}

// Fill draws bytes: hashes, addresses and contents.
func (r *Source) Fill(p []byte) {
	r.burst, r.phase = nil, 0
	a := -1
	switch {
	case len(p) == 32 || len(p) == 0:
	case len(p) == 20:
		n := 2
		if r.have {
			n = 3
		}
		a = r.point(n)
	default:
		a = r.point(4)
	}
	switch a {
	case 0:
		fill(p, 0)
		return
	case 1:
		fill(p, 0xff)
		return
	case 2:
		if len(p) == 20 {
			copy(p, r.addr[:])
			return
		}
		fill(p, 0x60)
		return
	case 3:
		fill(p, 0x5b)
		return
	}
	for i := 0; i < len(p); i += 8 {
		v := r.prng()
		for j := i; j < i+8 && j < len(p); j++ {
			p[j] = byte(v)
			v >>= 8
		}
	}
	if len(p) == 20 {
		copy(r.addr[:], p)
		r.have = true
	}
}

// Explore runs all sequences of choices with at most k deviations among the
// first limit choices; run is told whether it may end the exploration.
func Explore(k, limit int, run func(r *Source) bool) {
	r := &Source{}
	var rec func(devs []Dev, k int) bool
	rec = func(devs []Dev, k int) bool {
		r.reset(devs, limit)
		if !run(r) {
			return false
		}
		if k == 0 {
			return true
		}
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].Point + 1
		}
		alts := append([]uint8{}, r.alts...)
		for p := from; p < len(alts); p++ {
			for a := 0; a < int(alts[p]); a++ {
				if !rec(append(devs[:len(devs):len(devs)], Dev{p, a}), k-1) {
					return false
				}
			}
		}
		return true
	}
	rec(nil, k)
}

// Devs returns the deviations of the current run.
func (r *Source) Devs() []Dev { return append([]Dev{}, r.devs...) }

// NewSource returns a source that always takes the defaults.
func NewSource() *Source {
	r := &Source{}
	r.reset(nil, 0)
	r.free = true
	return r
}

// Replay returns a source that repeats the deviations of an earlier run.
func Replay(devs []Dev, limit int) *Source {
	r := &Source{}
	r.reset(devs, limit)
	return r
}
