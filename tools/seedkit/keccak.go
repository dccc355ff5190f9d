package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"golang.org/x/crypto/sha3"
)

func keccak(b []byte) (h tosca.Hash) {
	s := sha3.NewLegacyKeccak256()
	s.Write(b)
	copy(h[:], s.Sum(nil))
	return
}
