// Package vm is a minimal offline stand-in for go-ethereum/core/vm.
package vm

import (
	"crypto/sha256"
	"errors"

	"github.com/ethereum/go-ethereum/common"
)

// PrecompiledContract mirrors go-ethereum's interface.
type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}

// standIn is a deterministic precompile with the gas shape of the original;
// contracts whose cryptography is out of scope compute a fixed function of the
// input, and reject the inputs their originals reject by length.
type standIn struct {
	base, word uint64
	run        func(in []byte) ([]byte, error)
}

func (c *standIn) RequiredGas(in []byte) uint64 {
	return c.base + c.word*((uint64(len(in))+31)/32)
}
func (c *standIn) Run(in []byte) ([]byte, error) { return c.run(in) }

var errBadInput = errors.New("invalid input length")

func tagged(tag byte) func([]byte) ([]byte, error) {
	return func(in []byte) ([]byte, error) {
		s := sha256.Sum256(append([]byte{tag}, in...))
		return s[:], nil
	}
}

func exactLen(n int, tag byte) func([]byte) ([]byte, error) {
	return func(in []byte) ([]byte, error) {
		if len(in) != n {
			return nil, errBadInput
		}
		return tagged(tag)(in)
	}
}

func multipleLen(n int, tag byte) func([]byte) ([]byte, error) {
	return func(in []byte) ([]byte, error) {
		if len(in)%n != 0 {
			return nil, errBadInput
		}
		return tagged(tag)(in)
	}
}

func addr(b byte) common.Address { return common.BytesToAddress([]byte{b}) }

func istanbul(pairing uint64) map[common.Address]PrecompiledContract {
	return map[common.Address]PrecompiledContract{
		addr(1): &standIn{3000, 0, tagged(1)},
		addr(2): &standIn{60, 12, func(in []byte) ([]byte, error) { s := sha256.Sum256(in); return s[:], nil }},
		addr(3): &standIn{600, 120, tagged(3)},
		addr(4): &standIn{15, 3, func(in []byte) ([]byte, error) { return append([]byte{}, in...), nil }},
		addr(5): &standIn{200, 0, tagged(5)},
		addr(6): &standIn{150, 0, tagged(6)},
		addr(7): &standIn{6000, 0, tagged(7)},
		addr(8): &standIn{pairing, 0, multipleLen(192, 8)},
		addr(9): &standIn{1, 0, exactLen(213, 9)},
	}
}

var (
	PrecompiledContractsIstanbul = istanbul(45000)
	PrecompiledContractsBerlin   = istanbul(45001)
	PrecompiledContractsCancun   = func() map[common.Address]PrecompiledContract {
		res := istanbul(45001)
		res[addr(10)] = &standIn{50000, 0, exactLen(192, 10)}
		return res
	}()
	PrecompiledAddressesIstanbul = addrs(9)
	PrecompiledAddressesBerlin   = addrs(9)
	PrecompiledAddressesCancun   = addrs(10)
)

func addrs(n byte) (res []common.Address) {
	for i := byte(1); i <= n; i++ {
		res = append(res, addr(i))
	}
	return
}
