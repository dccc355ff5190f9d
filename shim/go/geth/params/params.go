// Package params is a minimal offline stand-in for go-ethereum/params.
package params

import "math/big"

const (
	TxGas                     uint64 = 21000
	TxGasContractCreation     uint64 = 53000
	TxDataZeroGas             uint64 = 4
	TxDataNonZeroGasFrontier  uint64 = 68
	TxDataNonZeroGasEIP2028   uint64 = 16
	TxAccessListAddressGas    uint64 = 2400
	TxAccessListStorageKeyGas uint64 = 1900
	CallValueTransferGas      uint64 = 9000
	CallStipend               uint64 = 2300
	CallCreateDepth           uint64 = 1024
	CreateGas                 uint64 = 32000
	Create2Gas                uint64 = 32000
	CreateDataGas             uint64 = 200
	MemoryGas                 uint64 = 3
	CopyGas                   uint64 = 3
	SstoreSetGas              uint64 = 20000
	SstoreSetGasEIP2200       uint64 = 20000
	SstoreResetGasEIP2200     uint64 = 5000
	SelfdestructRefundGas     uint64 = 24000
	RefundQuotient            uint64 = 2
	RefundQuotientEIP3529     uint64 = 5
	InitCodeWordGas           uint64 = 2
	MaxCodeSize                      = 24576
	MaxInitCodeSize                  = 2 * MaxCodeSize
	StackLimit                uint64 = 1024
)

// ChainConfig tells when a fork becomes active.
type ChainConfig struct {
	ChainID             *big.Int
	HomesteadBlock      *big.Int
	DAOForkBlock        *big.Int
	DAOForkSupport      bool
	EIP150Block         *big.Int
	EIP155Block         *big.Int
	EIP158Block         *big.Int
	ByzantiumBlock      *big.Int
	ConstantinopleBlock *big.Int
	PetersburgBlock     *big.Int
	IstanbulBlock       *big.Int
	MuirGlacierBlock    *big.Int
	BerlinBlock         *big.Int
	LondonBlock         *big.Int
	ArrowGlacierBlock   *big.Int
	GrayGlacierBlock    *big.Int
	MergeNetsplitBlock  *big.Int
	ShanghaiTime        *uint64
	CancunTime          *uint64
	PragueTime          *uint64
	VerkleTime          *uint64

	TerminalTotalDifficulty       *big.Int
	TerminalTotalDifficultyPassed bool
}

// AllEthashProtocolChanges contains every fork before the merge.
var AllEthashProtocolChanges = &ChainConfig{
	ChainID:             big.NewInt(1337),
	HomesteadBlock:      big.NewInt(0),
	EIP150Block:         big.NewInt(0),
	EIP155Block:         big.NewInt(0),
	EIP158Block:         big.NewInt(0),
	ByzantiumBlock:      big.NewInt(0),
	ConstantinopleBlock: big.NewInt(0),
	PetersburgBlock:     big.NewInt(0),
	IstanbulBlock:       big.NewInt(0),
	MuirGlacierBlock:    big.NewInt(0),
	BerlinBlock:         big.NewInt(0),
	LondonBlock:         big.NewInt(0),
	ArrowGlacierBlock:   big.NewInt(0),
	GrayGlacierBlock:    big.NewInt(0),
}

func forked(s, head *big.Int) bool {
	return s != nil && head != nil && s.Cmp(head) <= 0
}

func timeForked(s *uint64, time uint64) bool { return s != nil && *s <= time }

func (c *ChainConfig) IsHomestead(n *big.Int) bool      { return forked(c.HomesteadBlock, n) }
func (c *ChainConfig) IsEIP150(n *big.Int) bool         { return forked(c.EIP150Block, n) }
func (c *ChainConfig) IsEIP155(n *big.Int) bool         { return forked(c.EIP155Block, n) }
func (c *ChainConfig) IsEIP158(n *big.Int) bool         { return forked(c.EIP158Block, n) }
func (c *ChainConfig) IsByzantium(n *big.Int) bool      { return forked(c.ByzantiumBlock, n) }
func (c *ChainConfig) IsConstantinople(n *big.Int) bool { return forked(c.ConstantinopleBlock, n) }
func (c *ChainConfig) IsPetersburg(n *big.Int) bool {
	return forked(c.PetersburgBlock, n) || c.PetersburgBlock == nil && forked(c.ConstantinopleBlock, n)
}
func (c *ChainConfig) IsIstanbul(n *big.Int) bool { return forked(c.IstanbulBlock, n) }
func (c *ChainConfig) IsBerlin(n *big.Int) bool   { return forked(c.BerlinBlock, n) }
func (c *ChainConfig) IsLondon(n *big.Int) bool   { return forked(c.LondonBlock, n) }
func (c *ChainConfig) IsShanghai(n *big.Int, time uint64) bool {
	return c.IsLondon(n) && timeForked(c.ShanghaiTime, time)
}
func (c *ChainConfig) IsCancun(n *big.Int, time uint64) bool {
	return c.IsLondon(n) && timeForked(c.CancunTime, time)
}

// Rules are the forks active at a block.
type Rules struct {
	ChainID                                                 *big.Int
	IsHomestead, IsEIP150, IsEIP155, IsEIP158               bool
	IsEIP2929, IsEIP4762                                    bool
	IsByzantium, IsConstantinople, IsPetersburg, IsIstanbul bool
	IsBerlin, IsLondon                                      bool
	IsMerge, IsShanghai, IsCancun, IsPrague                 bool
	IsVerkle                                                bool
}

// Rules returns the forks which are active.
func (c *ChainConfig) Rules(n *big.Int, isMerge bool, timestamp uint64) Rules {
	id := c.ChainID
	if id == nil {
		id = new(big.Int)
	}
	isMerge = isMerge && c.IsLondon(n)
	return Rules{
		ChainID:          new(big.Int).Set(id),
		IsHomestead:      c.IsHomestead(n),
		IsEIP150:         c.IsEIP150(n),
		IsEIP155:         c.IsEIP155(n),
		IsEIP158:         c.IsEIP158(n),
		IsByzantium:      c.IsByzantium(n),
		IsConstantinople: c.IsConstantinople(n),
		IsPetersburg:     c.IsPetersburg(n),
		IsIstanbul:       c.IsIstanbul(n),
		IsBerlin:         c.IsBerlin(n),
		IsEIP2929:        c.IsBerlin(n),
		IsLondon:         c.IsLondon(n),
		IsMerge:          isMerge,
		IsShanghai:       isMerge && c.IsShanghai(n, timestamp),
		IsCancun:         isMerge && c.IsCancun(n, timestamp),
	}
}
