// Package uint256 is an API-compatible stand-in for the subset of
// github.com/holiman/uint256 used by Tosca (the original is not available in
// this sandbox). Division-like operations go through math/big.
package uint256

import (
	"encoding/binary"
	"errors"
	"math/big"
	"math/bits"
)

type Int [4]uint64

func NewInt(v uint64) *Int { return &Int{v, 0, 0, 0} }

var mod256 = new(big.Int).Lsh(big.NewInt(1), 256)

func FromBig(b *big.Int) (*Int, bool) {
	z := &Int{}
	o := z.SetFromBig(b)
	return z, o
}
func MustFromBig(b *big.Int) *Int {
	z, o := FromBig(b)
	if o {
		panic("overflow")
	}
	return z
}
func FromDecimal(s string) (*Int, error) {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || b.Sign() < 0 || b.BitLen() > 256 {
		return nil, errors.New("invalid decimal")
	}
	z, _ := FromBig(b)
	return z, nil
}
func MustFromDecimal(s string) *Int {
	z, err := FromDecimal(s)
	if err != nil {
		panic(err)
	}
	return z
}

// SetFromBig sets z to b mod 2^256 (two's complement) and reports overflow.
func (z *Int) SetFromBig(b *big.Int) bool {
	overflow := b.BitLen() > 256
	m := b
	if b.Sign() < 0 || overflow {
		m = new(big.Int).Mod(b, mod256)
	}
	var buf [32]byte
	m.FillBytes(buf[:])
	z.SetBytes32(buf[:])
	return overflow
}
func (z *Int) ToBig() *big.Int {
	if z == nil {
		return nil
	}
	b := z.Bytes32()
	return new(big.Int).SetBytes(b[:])
}
func (z *Int) signed() *big.Int {
	b := z.ToBig()
	if z[3]>>63 == 1 {
		b.Sub(b, mod256)
	}
	return b
}
func (z *Int) setBig(b *big.Int) *Int { z.SetFromBig(b); return z }

func (z *Int) String() string { return z.Dec() }
func (z *Int) Dec() string    { return z.ToBig().String() }
func (z *Int) Hex() string    { return "0x" + z.ToBig().Text(16) }

func (z *Int) Clone() *Int      { c := *z; return &c }
func (z *Int) Set(x *Int) *Int  { *z = *x; return z }
func (z *Int) Clear() *Int      { *z = Int{}; return z }
func (z *Int) SetOne() *Int     { *z = Int{1}; return z }
func (z *Int) SetAllOne() *Int  { *z = Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}; return z }
func (z *Int) SetUint64(v uint64) *Int { *z = Int{v}; return z }
func (z *Int) Uint64() uint64   { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool) {
	return z[0], z[1]|z[2]|z[3] != 0
}
func (z *Int) IsUint64() bool { return z[1]|z[2]|z[3] == 0 }
func (z *Int) IsZero() bool   { return z[0]|z[1]|z[2]|z[3] == 0 }
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3]>>63 == 1 {
		return -1
	}
	return 1
}
func (z *Int) BitLen() int {
	for i := 3; i >= 0; i-- {
		if z[i] != 0 {
			return i*64 + bits.Len64(z[i])
		}
	}
	return 0
}
func (z *Int) ByteLen() int { return (z.BitLen() + 7) / 8 }

func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	var b [32]byte
	copy(b[32-len(buf):], buf)
	return z.SetBytes32(b[:])
}
func (z *Int) SetBytes32(in []byte) *Int {
	_ = in[31]
	z[3] = binary.BigEndian.Uint64(in[0:8])
	z[2] = binary.BigEndian.Uint64(in[8:16])
	z[1] = binary.BigEndian.Uint64(in[16:24])
	z[0] = binary.BigEndian.Uint64(in[24:32])
	return z
}
func setN(z *Int, in []byte, n int) *Int { _ = in[n-1]; return z.SetBytes(in[:n]) }
func (z *Int) SetBytes1(in []byte) *Int  { return setN(z, in, 1) }
func (z *Int) SetBytes2(in []byte) *Int  { return setN(z, in, 2) }
func (z *Int) SetBytes3(in []byte) *Int  { return setN(z, in, 3) }
func (z *Int) SetBytes4(in []byte) *Int  { return setN(z, in, 4) }
func (z *Int) SetBytes8(in []byte) *Int  { return setN(z, in, 8) }
func (z *Int) SetBytes16(in []byte) *Int { return setN(z, in, 16) }
func (z *Int) SetBytes20(in []byte) *Int { return setN(z, in, 20) }

func (z *Int) Bytes32() [32]byte {
	var b [32]byte
	binary.BigEndian.PutUint64(b[0:8], z[3])
	binary.BigEndian.PutUint64(b[8:16], z[2])
	binary.BigEndian.PutUint64(b[16:24], z[1])
	binary.BigEndian.PutUint64(b[24:32], z[0])
	return b
}
func (z *Int) Bytes20() [20]byte {
	b := z.Bytes32()
	var r [20]byte
	copy(r[:], b[12:])
	return r
}
func (z *Int) Bytes() []byte {
	b := z.Bytes32()
	return append([]byte{}, b[32-z.ByteLen():]...)
}
func (z *Int) PaddedBytes(n int) []byte {
	b := make([]byte, n)
	f := z.Bytes32()
	for i := 0; i < n && i < 32; i++ {
		b[n-1-i] = f[31-i]
	}
	return b
}
func (z *Int) WriteToArray32(dest *[32]byte) { *dest = z.Bytes32() }
func (z *Int) WriteToSlice(dest []byte) {
	b := z.Bytes32()
	for i := 0; i < len(dest) && i < 32; i++ {
		dest[len(dest)-1-i] = b[31-i]
	}
}

func (z *Int) Eq(x *Int) bool { return *z == *x }
func (z *Int) Cmp(x *Int) int {
	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		}
		if z[i] > x[i] {
			return 1
		}
	}
	return 0
}
func (z *Int) CmpUint64(x uint64) int { return z.Cmp(&Int{x}) }
func (z *Int) Lt(x *Int) bool         { return z.Cmp(x) < 0 }
func (z *Int) Gt(x *Int) bool         { return z.Cmp(x) > 0 }
func (z *Int) LtUint64(n uint64) bool { return z.IsUint64() && z[0] < n }
func (z *Int) GtUint64(n uint64) bool { return !z.IsUint64() || z[0] > n }
func (z *Int) Slt(x *Int) bool {
	zn, xn := z[3]>>63, x[3]>>63
	if zn != xn {
		return zn == 1
	}
	return z.Cmp(x) < 0
}
func (z *Int) Sgt(x *Int) bool { return x.Slt(z) }

func (z *Int) Add(x, y *Int) *Int {
	var c uint64
	var r Int
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(x[i], y[i], c)
	}
	*z = r
	return z
}
func (z *Int) AddOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	var r Int
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(x[i], y[i], c)
	}
	*z = r
	return z, c != 0
}
func (z *Int) AddUint64(x *Int, y uint64) *Int { return z.Add(x, &Int{y}) }
func (z *Int) Sub(x, y *Int) *Int {
	z.SubOverflow(x, y)
	return z
}
func (z *Int) SubUint64(x *Int, y uint64) *Int { return z.Sub(x, &Int{y}) }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	var r Int
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(x[i], y[i], c)
	}
	*z = r
	return z, c != 0
}
func (z *Int) Neg(x *Int) *Int { return z.Sub(&Int{}, x) }
func (z *Int) Mul(x, y *Int) *Int {
	if x.IsUint64() && y.IsUint64() {
		hi, lo := bits.Mul64(x[0], y[0])
		*z = Int{lo, hi}
		return z
	}
	return z.setBig(new(big.Int).Mul(x.ToBig(), y.ToBig()))
}
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) {
	r := new(big.Int).Mul(x.ToBig(), y.ToBig())
	o := r.BitLen() > 256
	z.setBig(r)
	return z, o
}
func (z *Int) Div(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	if x.IsUint64() && y.IsUint64() {
		return z.SetUint64(x[0] / y[0])
	}
	return z.setBig(new(big.Int).Quo(x.ToBig(), y.ToBig()))
}
func (z *Int) Mod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	if x.IsUint64() && y.IsUint64() {
		return z.SetUint64(x[0] % y[0])
	}
	return z.setBig(new(big.Int).Rem(x.ToBig(), y.ToBig()))
}
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	a, b := *x, *y
	z.Div(&a, &b)
	m.Mod(&a, &b)
	return z, m
}
func (z *Int) SDiv(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.setBig(new(big.Int).Quo(x.signed(), y.signed()))
}
func (z *Int) SMod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.setBig(new(big.Int).Rem(x.signed(), y.signed()))
}
func (z *Int) AddMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	r := new(big.Int).Add(x.ToBig(), y.ToBig())
	return z.setBig(r.Rem(r, m.ToBig()))
}
func (z *Int) MulMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	r := new(big.Int).Mul(x.ToBig(), y.ToBig())
	return z.setBig(r.Rem(r, m.ToBig()))
}
func (z *Int) Exp(base, exponent *Int) *Int {
	return z.setBig(new(big.Int).Exp(base.ToBig(), exponent.ToBig(), mod256))
}
func (z *Int) ExtendSign(x, byteNum *Int) *Int {
	if byteNum.GtUint64(30) {
		return z.Set(x)
	}
	b := x.Bytes32()
	k := 31 - int(byteNum[0])
	fill := byte(0)
	if b[k]&0x80 != 0 {
		fill = 0xff
	}
	for i := 0; i < k; i++ {
		b[i] = fill
	}
	return z.SetBytes32(b[:])
}
func (z *Int) Not(x *Int) *Int {
	*z = Int{^x[0], ^x[1], ^x[2], ^x[3]}
	return z
}
func (z *Int) And(x, y *Int) *Int {
	*z = Int{x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]}
	return z
}
func (z *Int) Or(x, y *Int) *Int {
	*z = Int{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
	return z
}
func (z *Int) Xor(x, y *Int) *Int {
	*z = Int{x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]}
	return z
}

// Byte sets z to the value of the n-th (big-endian) byte of z.
func (z *Int) Byte(n *Int) *Int {
	if n.GtUint64(31) {
		return z.Clear()
	}
	b := z.Bytes32()
	return z.SetUint64(uint64(b[n[0]]))
}
func (z *Int) Lsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	var r Int
	w, s := int(n/64), n%64
	for i := 3; i >= w; i-- {
		r[i] = x[i-w] << s
		if s > 0 && i-w-1 >= 0 {
			r[i] |= x[i-w-1] >> (64 - s)
		}
	}
	*z = r
	return z
}
func (z *Int) Rsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	var r Int
	w, s := int(n/64), n%64
	for i := 0; i+w < 4; i++ {
		r[i] = x[i+w] >> s
		if s > 0 && i+w+1 < 4 {
			r[i] |= x[i+w+1] << (64 - s)
		}
	}
	*z = r
	return z
}
func (z *Int) SRsh(x *Int, n uint) *Int {
	if x[3]>>63 == 0 {
		return z.Rsh(x, n)
	}
	if n >= 256 {
		return z.SetAllOne()
	}
	var inv Int
	inv.Not(x)
	inv.Rsh(&inv, n)
	return z.Not(&inv)
}
