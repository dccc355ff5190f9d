// Package sha3 provides legacy Keccak (stand-in for golang.org/x/crypto/sha3).
package sha3

import (
	"encoding/binary"
	"hash"
	"math/bits"
)

type state struct {
	a        [25]uint64
	buf      []byte
	rate     int
	size     int
	squeezed bool
	out      []byte
}

func NewLegacyKeccak256() hash.Hash { return &state{rate: 136, size: 32} }
func NewLegacyKeccak512() hash.Hash { return &state{rate: 72, size: 64} }

func (d *state) Size() int      { return d.size }
func (d *state) BlockSize() int { return d.rate }
func (d *state) Reset() {
	d.a = [25]uint64{}
	d.buf = d.buf[:0]
	d.squeezed = false
	d.out = nil
}
func (d *state) Write(p []byte) (int, error) {
	if d.squeezed {
		panic("sha3: Write after Read")
	}
	n := len(p)
	d.buf = append(d.buf, p...)
	i := 0
	for len(d.buf)-i >= d.rate {
		d.absorb(d.buf[i : i+d.rate])
		i += d.rate
	}
	d.buf = append(d.buf[:0], d.buf[i:]...)
	return n, nil
}
func (d *state) absorb(b []byte) {
	for i := 0; i < len(b)/8; i++ {
		d.a[i] ^= binary.LittleEndian.Uint64(b[8*i:])
	}
	keccakF(&d.a)
}
func (d *state) finish() {
	last := make([]byte, d.rate)
	copy(last, d.buf)
	last[len(d.buf)] ^= 0x01
	last[d.rate-1] ^= 0x80
	d.absorb(last)
	d.squeezed = true
	for i := 0; i < d.rate/8; i++ {
		d.out = binary.LittleEndian.AppendUint64(d.out, d.a[i])
	}
}
func (d *state) Read(p []byte) (int, error) {
	if !d.squeezed {
		d.finish()
	}
	n := len(p)
	for len(p) > 0 {
		if len(d.out) == 0 {
			keccakF(&d.a)
			for i := 0; i < d.rate/8; i++ {
				d.out = binary.LittleEndian.AppendUint64(d.out, d.a[i])
			}
		}
		k := copy(p, d.out)
		p, d.out = p[k:], d.out[k:]
	}
	return n, nil
}
func (d *state) Sum(in []byte) []byte {
	c := *d
	c.buf = append([]byte{}, d.buf...)
	c.out = append([]byte{}, d.out...)
	h := make([]byte, d.size)
	c.Read(h)
	return append(in, h...)
}

var rc = func() (r [24]uint64) {
	lfsr := byte(1)
	for i := range r {
		for j := 0; j < 7; j++ {
			if lfsr&1 != 0 {
				r[i] |= 1 << ((1 << j) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	return
}()

var rot [25]int
var dst [25]int

func init() {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			dst[x+5*y] = y + 5*((2*x+3*y)%5)
		}
	}
}

func keccakF(a *[25]uint64) {
	var b [25]uint64
	var c [5]uint64
	for r := 0; r < 24; r++ {
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		for i := 0; i < 25; i++ {
			b[dst[i]] = bits.RotateLeft64(a[i], rot[i])
		}
		for y := 0; y < 25; y += 5 {
			for x := 0; x < 5; x++ {
				a[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
			}
		}
		a[0] ^= rc[r]
	}
}
