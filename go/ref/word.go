// Package ref is an independent reference implementation of the EVM as
// specified by the Ethereum yellow paper and the EIPs up to Cancun. It shares
// no code with the implementations in /repo: words are big integers, gas rules
// are written down from the EIPs. It is deliberately slow and boring.
package ref

import "math/big"

// W is a 256-bit word, big-endian.
type W [32]byte

var (
	two256 = new(big.Int).Lsh(big.NewInt(1), 256)
	two255 = new(big.Int).Lsh(big.NewInt(1), 255)
	mask   = new(big.Int).Sub(two256, big.NewInt(1))
	big0   = big.NewInt(0)
)

func (w *W) Big() *big.Int { return new(big.Int).SetBytes(w[:]) }

// Signed interprets the word in two's complement.
func (w *W) Signed() *big.Int {
	b := w.Big()
	if b.Cmp(two255) >= 0 {
		b.Sub(b, two256)
	}
	return b
}

// FromBig reduces b modulo 2^256.
func FromBig(b *big.Int) (w W) {
	m := new(big.Int).Mod(b, two256) // Euclidean: always non-negative
	m.FillBytes(w[:])
	return
}

func FromU64(v uint64) (w W) {
	for i := 0; i < 8; i++ {
		w[31-i] = byte(v >> (8 * i))
	}
	return
}

func (w *W) IsZero() bool { return *w == W{} }

// U64 returns the value and whether it fits into 64 bits.
func (w *W) U64() (uint64, bool) {
	var v uint64
	for i := 24; i < 32; i++ {
		v = v<<8 | uint64(w[i])
	}
	for i := 0; i < 24; i++ {
		if w[i] != 0 {
			return v, false
		}
	}
	return v, true
}

func (w *W) Less(o *W) bool {
	for i := 0; i < 32; i++ {
		if w[i] != o[i] {
			return w[i] < o[i]
		}
	}
	return false
}

func boolWord(b bool) W {
	if b {
		return FromU64(1)
	}
	return W{}
}

// ArithOp evaluates a pure stack operation; args[0] is the top of the stack.
func ArithOp(op byte, a []W) W {
	switch op {
	case 0x01:
		return FromBig(new(big.Int).Add(a[0].Big(), a[1].Big()))
	case 0x02:
		return FromBig(new(big.Int).Mul(a[0].Big(), a[1].Big()))
	case 0x03:
		return FromBig(new(big.Int).Sub(a[0].Big(), a[1].Big()))
	case 0x04:
		if a[1].IsZero() {
			return W{}
		}
		return FromBig(new(big.Int).Quo(a[0].Big(), a[1].Big()))
	case 0x05:
		if a[1].IsZero() {
			return W{}
		}
		return FromBig(new(big.Int).Quo(a[0].Signed(), a[1].Signed()))
	case 0x06:
		if a[1].IsZero() {
			return W{}
		}
		return FromBig(new(big.Int).Rem(a[0].Big(), a[1].Big()))
	case 0x07:
		if a[1].IsZero() {
			return W{}
		}
		return FromBig(new(big.Int).Rem(a[0].Signed(), a[1].Signed()))
	case 0x08:
		if a[2].IsZero() {
			return W{}
		}
		s := new(big.Int).Add(a[0].Big(), a[1].Big())
		return FromBig(s.Mod(s, a[2].Big()))
	case 0x09:
		if a[2].IsZero() {
			return W{}
		}
		s := new(big.Int).Mul(a[0].Big(), a[1].Big())
		return FromBig(s.Mod(s, a[2].Big()))
	case 0x0a:
		return FromBig(new(big.Int).Exp(a[0].Big(), a[1].Big(), two256))
	case 0x0b:
		k, ok := a[0].U64()
		if !ok || k >= 31 {
			return a[1]
		}
		bit := int(8*k + 7)
		x := a[1].Big()
		low := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bit+1)), big.NewInt(1)))
		if x.Bit(bit) == 1 {
			low.Sub(low, new(big.Int).Lsh(big.NewInt(1), uint(bit+1)))
		}
		return FromBig(low)
	case 0x10:
		return boolWord(a[0].Less(&a[1]))
	case 0x11:
		return boolWord(a[1].Less(&a[0]))
	case 0x12:
		return boolWord(a[0].Signed().Cmp(a[1].Signed()) < 0)
	case 0x13:
		return boolWord(a[0].Signed().Cmp(a[1].Signed()) > 0)
	case 0x14:
		return boolWord(a[0] == a[1])
	case 0x15:
		return boolWord(a[0].IsZero())
	case 0x16, 0x17, 0x18:
		var r W
		for i := range r {
			switch op {
			case 0x16:
				r[i] = a[0][i] & a[1][i]
			case 0x17:
				r[i] = a[0][i] | a[1][i]
			default:
				r[i] = a[0][i] ^ a[1][i]
			}
		}
		return r
	case 0x19:
		var r W
		for i := range r {
			r[i] = ^a[0][i]
		}
		return r
	case 0x1a:
		k, ok := a[0].U64()
		if !ok || k > 31 {
			return W{}
		}
		return FromU64(uint64(a[1][k]))
	case 0x1b:
		k, ok := a[0].U64()
		if !ok || k > 255 {
			return W{}
		}
		return FromBig(new(big.Int).Lsh(a[1].Big(), uint(k)))
	case 0x1c:
		k, ok := a[0].U64()
		if !ok || k > 255 {
			return W{}
		}
		return FromBig(new(big.Int).Rsh(a[1].Big(), uint(k)))
	case 0x1d:
		k, ok := a[0].U64()
		s := a[1].Signed()
		if !ok || k > 255 {
			if s.Sign() < 0 {
				return FromBig(big.NewInt(-1))
			}
			return W{}
		}
		return FromBig(s.Rsh(s, uint(k))) // arithmetic shift (floor) for negatives
	}
	panic("not an arithmetic op")
}
