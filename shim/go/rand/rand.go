// Package rand is a stand-in for pgregory.net/rand. Besides the default
// seeded generator a Source can be installed, which lets an explorer own every
// random choice.
package rand

import (
	"math"
	"math/bits"
)

type Source interface{ Uint64() uint64 }

// Chooser, when set on a Rand, decides bounded choices itself.
type Chooser interface{ Choose(n uint64) uint64 }

// Filler, when set on a Rand, fills byte slices itself.
type Filler interface{ Fill(p []byte) }

// Exponential, when set on a Rand, draws exponentially distributed numbers.
type Exponential interface{ Exp() float64 }

type Rand struct {
	s   uint64
	src Source
}

func New(seed ...uint64) *Rand {
	r := &Rand{s: 0x9e3779b97f4a7c15}
	for _, x := range seed {
		r.s = r.Uint64() ^ x
	}
	return r
}
func NewFromSource(s Source) *Rand { return &Rand{src: s} }

func (r *Rand) Seed(s uint64) { r.s = s }
func (r *Rand) Uint64() uint64 {
	if r.src != nil {
		return r.src.Uint64()
	}
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	if c, ok := r.src.(Chooser); ok {
		return c.Choose(n)
	}
	hi, _ := bits.Mul64(r.Uint64(), n)
	return hi
}
func (r *Rand) Uint32() uint32          { return uint32(r.Uint64() >> 32) }
func (r *Rand) Uint32n(n uint32) uint32 { return uint32(r.Uint64n(uint64(n))) }
func (r *Rand) Int() int                { return int(r.Int63()) }
func (r *Rand) Int63() int64 {
	if c, ok := r.src.(Chooser); ok {
		return int64(c.Choose(1 << 63))
	}
	return int64(r.Uint64() >> 1)
}
func (r *Rand) Int31() int32            { return int32(r.Uint64() >> 33) }
func pos(n int64) uint64 {
	if n <= 0 {
		panic("invalid argument")
	}
	return uint64(n)
}
func (r *Rand) Int63n(n int64) int64 { return int64(r.Uint64n(pos(n))) }
func (r *Rand) Int31n(n int32) int32 { return int32(r.Uint64n(pos(int64(n)))) }
func (r *Rand) Intn(n int) int       { return int(r.Uint64n(pos(int64(n)))) }
func (r *Rand) Float64() float64     { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Float32() float32     { return float32(r.Uint64()>>40) / (1 << 24) }
func (r *Rand) ExpFloat64() float64 {
	if e, ok := r.src.(Exponential); ok {
		return e.Exp()
	}
	return -math.Log(1 - r.Float64())
}
func (r *Rand) Read(p []byte) (int, error) {
	if f, ok := r.src.(Filler); ok {
		f.Fill(p)
		return len(p), nil
	}
	var v uint64
	for i := range p {
		if i%8 == 0 {
			v = r.Uint64()
		}
		p[i] = byte(v)
		v >>= 8
	}
	return len(p), nil
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

var global = New(1)

func Intn(n int) int             { return global.Intn(n) }
func Uint64() uint64             { return global.Uint64() }
func Read(p []byte) (int, error) { return global.Read(p) }
