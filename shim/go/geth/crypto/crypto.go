// Package crypto is a minimal offline stand-in for go-ethereum/crypto.
package crypto

import (
	"github.com/ethereum/go-ethereum/common"
	"golang.org/x/crypto/sha3"
)

func Keccak256(data ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, d := range data {
		h.Write(d)
	}
	return h.Sum(nil)
}

func Keccak256Hash(data ...[]byte) common.Hash {
	return common.BytesToHash(Keccak256(data...))
}

// CreateAddress computes keccak(rlp([sender, nonce]))[12:].
func CreateAddress(b common.Address, nonce uint64) common.Address {
	payload := append([]byte{0x80 + 20}, b[:]...)
	switch {
	case nonce == 0:
		payload = append(payload, 0x80)
	case nonce < 0x80:
		payload = append(payload, byte(nonce))
	default:
		var enc []byte
		for n := nonce; n > 0; n >>= 8 {
			enc = append([]byte{byte(n)}, enc...)
		}
		payload = append(payload, 0x80+byte(len(enc)))
		payload = append(payload, enc...)
	}
	rlp := append([]byte{0xc0 + byte(len(payload))}, payload...)
	return common.BytesToAddress(Keccak256(rlp)[12:])
}

func CreateAddress2(b common.Address, salt [32]byte, inithash []byte) common.Address {
	return common.BytesToAddress(Keccak256([]byte{0xff}, b[:], salt[:], inithash)[12:])
}
