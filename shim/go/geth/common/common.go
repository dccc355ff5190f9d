// Package common is a minimal offline stand-in for go-ethereum/common: only
// the types and helpers that Tosca refers to.
package common

import (
	"encoding/hex"
	"math/big"
)

const (
	HashLength    = 32
	AddressLength = 20
)

type Address [AddressLength]byte
type Hash [HashLength]byte

var Big0 = big.NewInt(0)
var Big1 = big.NewInt(1)
var Big256 = big.NewInt(256)

func FromHex(s string) []byte {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]
	}
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, _ := hex.DecodeString(s)
	return b
}

func BytesToAddress(b []byte) (a Address) {
	a.SetBytes(b)
	return
}

func HexToAddress(s string) Address { return BytesToAddress(FromHex(s)) }

func (a *Address) SetBytes(b []byte) {
	if len(b) > AddressLength {
		b = b[len(b)-AddressLength:]
	}
	copy(a[AddressLength-len(b):], b)
}
func (a Address) Bytes() []byte { return a[:] }
func (a Address) Big() *big.Int { return new(big.Int).SetBytes(a[:]) }
func (a Address) Hash() Hash    { return BytesToHash(a[:]) }
func (a Address) Hex() string   { return "0x" + hex.EncodeToString(a[:]) }
func (a Address) String() string {
	return a.Hex()
}

func BytesToHash(b []byte) (h Hash) {
	h.SetBytes(b)
	return
}
func HexToHash(s string) Hash { return BytesToHash(FromHex(s)) }

func BigToHash(b *big.Int) Hash { return BytesToHash(b.Bytes()) }

func (h *Hash) SetBytes(b []byte) {
	if len(b) > HashLength {
		b = b[len(b)-HashLength:]
	}
	copy(h[HashLength-len(b):], b)
}
func (h Hash) Bytes() []byte { return h[:] }
func (h Hash) Big() *big.Int { return new(big.Int).SetBytes(h[:]) }
func (h Hash) Hex() string   { return "0x" + hex.EncodeToString(h[:]) }
func (h Hash) String() string {
	return h.Hex()
}
