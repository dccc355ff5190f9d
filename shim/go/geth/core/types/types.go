// Package types is a minimal offline stand-in for go-ethereum/core/types.
package types

import (
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// EmptyCodeHash is the hash of no code.
var EmptyCodeHash = crypto.Keccak256Hash(nil)

// EmptyRootHash is the hash of an empty trie.
var EmptyRootHash = common.HexToHash("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")

// AccessTuple is an element of an access list.
type AccessTuple struct {
	Address     common.Address
	StorageKeys []common.Hash
}

// AccessList is a list of addresses and their slots.
type AccessList []AccessTuple

// StorageKeys is the total number of slots.
func (al AccessList) StorageKeys() int {
	sum := 0
	for _, t := range al {
		sum += len(t.StorageKeys)
	}
	return sum
}

// Log is a log message.
type Log struct {
	Address     common.Address
	Topics      []common.Hash
	Data        []byte
	BlockNumber uint64
	TxHash      common.Hash
	TxIndex     uint
	BlockHash   common.Hash
	Index       uint
	Removed     bool
}
