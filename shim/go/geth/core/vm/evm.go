package vm

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

// The call machinery of go-ethereum 1.14 with the extensions of the Fantom
// network (interpreter factories, state precompiles, accessible call depth),
// without its interpreter: executing code needs a factory.

var (
	ErrOutOfGas                 = errors.New("out of gas")
	ErrCodeStoreOutOfGas        = errors.New("contract creation code storage out of gas")
	ErrDepth                    = errors.New("max call depth exceeded")
	ErrInsufficientBalance      = errors.New("insufficient balance for transfer")
	ErrContractAddressCollision = errors.New("contract address collision")
	ErrExecutionReverted        = errors.New("execution reverted")
	ErrMaxCodeSizeExceeded      = errors.New("max code size exceeded")
	ErrMaxInitCodeSizeExceeded  = errors.New("max initcode size exceeded")
	ErrInvalidJump              = errors.New("invalid jump destination")
	ErrWriteProtection          = errors.New("write protection")
	ErrReturnDataOutOfBounds    = errors.New("return data out of bounds")
	ErrGasUintOverflow          = errors.New("gas uint64 overflow")
	ErrInvalidCode              = errors.New("invalid code: must not begin with 0xef")
	ErrNonceUintOverflow        = errors.New("nonce uint64 overflow")
)

type ErrStackUnderflow struct{ stackLen, required int }

func (e ErrStackUnderflow) Error() string {
	return fmt.Sprintf("stack underflow (%d <=> %d)", e.stackLen, e.required)
}
func (e ErrStackUnderflow) Unwrap() error { return fmt.Errorf("stack underflow") }

type ErrStackOverflow struct{ stackLen, limit int }

func (e ErrStackOverflow) Error() string {
	return fmt.Sprintf("stack limit reached %d (%d)", e.stackLen, e.limit)
}
func (e ErrStackOverflow) Unwrap() error { return fmt.Errorf("stack overflow") }

type ErrInvalidOpCode struct{ opcode OpCode }

func (e *ErrInvalidOpCode) Error() string { return fmt.Sprintf("invalid opcode: %v", e.opcode) }

// StateDB is the state of the chain as the EVM sees it.
type StateDB interface {
	CreateAccount(common.Address)
	CreateContract(common.Address)

	SubBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	AddBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	GetBalance(common.Address) *uint256.Int

	GetNonce(common.Address) uint64
	SetNonce(common.Address, uint64)

	GetCodeHash(common.Address) common.Hash
	GetCode(common.Address) []byte
	SetCode(common.Address, []byte)
	GetCodeSize(common.Address) int

	AddRefund(uint64)
	SubRefund(uint64)
	GetRefund() uint64

	GetCommittedState(common.Address, common.Hash) common.Hash
	GetState(common.Address, common.Hash) common.Hash
	SetState(common.Address, common.Hash, common.Hash)
	GetStorageRoot(addr common.Address) common.Hash

	GetTransientState(addr common.Address, key common.Hash) common.Hash
	SetTransientState(addr common.Address, key, value common.Hash)

	SelfDestruct(common.Address)
	HasSelfDestructed(common.Address) bool
	Selfdestruct6780(common.Address)

	Exist(common.Address) bool
	Empty(common.Address) bool

	AddressInAccessList(addr common.Address) bool
	SlotInAccessList(addr common.Address, slot common.Hash) (addressOk bool, slotOk bool)
	AddAddressToAccessList(addr common.Address)
	AddSlotToAccessList(addr common.Address, slot common.Hash)

	PointCache() *utils.PointCache
	Prepare(rules params.Rules, sender, coinbase common.Address, dest *common.Address, precompiles []common.Address, txAccesses types.AccessList)

	RevertToSnapshot(int)
	Snapshot() int

	AddLog(*types.Log)
	AddPreimage(common.Hash, []byte)

	Witness() *stateless.Witness
}

type (
	CanTransferFunc func(StateDB, common.Address, *uint256.Int) bool
	TransferFunc    func(StateDB, common.Address, common.Address, *uint256.Int)
	GetHashFunc     func(uint64) common.Hash
)

// BlockContext is the block a transaction is executed in.
type BlockContext struct {
	CanTransfer CanTransferFunc
	Transfer    TransferFunc
	GetHash     GetHashFunc

	Coinbase    common.Address
	GasLimit    uint64
	BlockNumber *big.Int
	Time        uint64
	Difficulty  *big.Int
	BaseFee     *big.Int
	BlobBaseFee *big.Int
	Random      *common.Hash
}

// TxContext is the transaction.
type TxContext struct {
	Origin     common.Address
	GasPrice   *big.Int
	BlobHashes []common.Hash
	BlobFeeCap *big.Int
}

// Interpreter executes code.
type Interpreter interface {
	Run(contract *Contract, input []byte, readOnly bool) ([]byte, error)
}

// InterpreterFactory makes the interpreter of an EVM.
type InterpreterFactory func(evm *EVM) Interpreter

// PrecompiledStateContract is a precompiled contract with access to the state.
type PrecompiledStateContract interface {
	Run(stateDB StateDB, blockCtx BlockContext, txCtx TxContext, caller common.Address, input []byte, suppliedGas uint64) ([]byte, uint64, error)
}

// Config are the options of an EVM.
type Config struct {
	NoBaseFee               bool
	EnablePreimageRecording bool
	ExtraEips               []int
	Interpreter             InterpreterFactory
	StatePrecompiles        map[common.Address]PrecompiledStateContract
}

// ContractRef is an account executing code.
type ContractRef interface {
	Address() common.Address
}

// AccountRef is the reference of an account.
type AccountRef common.Address

func (ar AccountRef) Address() common.Address { return common.Address(ar) }

// Contract is a code in execution.
type Contract struct {
	CallerAddress common.Address
	caller        ContractRef
	self          ContractRef

	Code     []byte
	CodeHash common.Hash
	CodeAddr *common.Address
	Input    []byte

	IsDeployment bool
	IsSystemCall bool

	Gas   uint64
	value *uint256.Int
}

func NewContract(caller ContractRef, object ContractRef, value *uint256.Int, gas uint64) *Contract {
	return &Contract{CallerAddress: caller.Address(), caller: caller, self: object, Gas: gas, value: value}
}

func (c *Contract) AsDelegate() *Contract {
	parent := c.caller.(*Contract)
	c.CallerAddress = parent.CallerAddress
	c.value = parent.value
	return c
}
func (c *Contract) Caller() common.Address  { return c.CallerAddress }
func (c *Contract) Address() common.Address { return c.self.Address() }
func (c *Contract) Value() *uint256.Int     { return c.value }
func (c *Contract) UseGas(gas uint64) bool {
	if c.Gas < gas {
		return false
	}
	c.Gas -= gas
	return true
}
func (c *Contract) SetCallCode(addr *common.Address, hash common.Hash, code []byte) {
	c.Code, c.CodeHash, c.CodeAddr = code, hash, addr
}

// CallInterceptor replaces the calls of an EVM.
type CallInterceptor interface {
	Call(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	CallCode(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	DelegateCall(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64) ([]byte, uint64, error)
	StaticCall(env *EVM, me ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error)
	Create(env *EVM, me ContractRef, data []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error)
	Create2(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int, salt *uint256.Int) ([]byte, common.Address, uint64, error)
}

// EVM executes calls and creations of contracts.
type EVM struct {
	Context BlockContext
	TxContext
	StateDB         StateDB
	CallInterceptor CallInterceptor
	Config          Config

	depth       int
	chainConfig *params.ChainConfig
	chainRules  params.Rules
	interpreter Interpreter
}

func NewEVM(blockCtx BlockContext, txCtx TxContext, statedb StateDB, chainConfig *params.ChainConfig, config Config) *EVM {
	evm := &EVM{
		Context:     blockCtx,
		TxContext:   txCtx,
		StateDB:     statedb,
		Config:      config,
		chainConfig: chainConfig,
		chainRules:  chainConfig.Rules(blockCtx.BlockNumber, blockCtx.Random != nil, blockCtx.Time),
	}
	if config.Interpreter != nil {
		evm.interpreter = config.Interpreter(evm)
	} else {
		evm.interpreter = &EVMInterpreter{evm}
	}
	return evm
}

func (evm *EVM) Interpreter() Interpreter         { return evm.interpreter }
func (evm *EVM) ChainConfig() *params.ChainConfig { return evm.chainConfig }
func (evm *EVM) GetDepth() int                    { return evm.depth }
func (evm *EVM) SetDepth(depth int)               { evm.depth = depth }

func (evm *EVM) precompile(addr common.Address) (PrecompiledContract, bool) {
	var set map[common.Address]PrecompiledContract
	switch {
	case evm.chainRules.IsCancun:
		set = PrecompiledContractsCancun
	case evm.chainRules.IsBerlin:
		set = PrecompiledContractsBerlin
	default:
		set = PrecompiledContractsIstanbul
	}
	p, ok := set[addr]
	return p, ok
}

// RunPrecompiledContract charges for and runs a precompiled contract.
func RunPrecompiledContract(p PrecompiledContract, input []byte, gas uint64) ([]byte, uint64, error) {
	cost := p.RequiredGas(input)
	if gas < cost {
		return nil, 0, ErrOutOfGas
	}
	out, err := p.Run(input)
	return out, gas - cost, err
}

// finish undoes what failed.
func (evm *EVM) finish(snapshot int, ret []byte, gas uint64, err error) ([]byte, uint64, error) {
	if err != nil {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			gas = 0
		}
	}
	return ret, gas, err
}

// execute runs the code at an address.
func (evm *EVM) execute(contract *Contract, addr common.Address, input []byte, readOnly bool) ([]byte, uint64, error) {
	contract.SetCallCode(&addr, evm.StateDB.GetCodeHash(addr), evm.StateDB.GetCode(addr))
	contract.Input = input
	ret, err := evm.interpreter.Run(contract, input, readOnly)
	return ret, contract.Gas, err
}

func (evm *EVM) hasCode(addr common.Address) bool {
	code := evm.StateDB.GetCode(addr)
	_ = evm.StateDB.Witness()
	return len(code) != 0
}

func (evm *EVM) Call(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Call(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !value.IsZero() && !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	snapshot := evm.StateDB.Snapshot()
	p, isPrecompile := evm.precompile(addr)
	sp, isStatePrecompile := evm.Config.StatePrecompiles[addr]
	if !evm.StateDB.Exist(addr) {
		if !isPrecompile && !isStatePrecompile && evm.chainRules.IsEIP158 && value.IsZero() {
			return nil, gas, nil
		}
		evm.StateDB.CreateAccount(addr)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), addr, value)
	switch {
	case isPrecompile:
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	case isStatePrecompile:
		ret, gas, err = sp.Run(evm.StateDB, evm.Context, evm.TxContext, caller.Address(), input, gas)
	case evm.hasCode(addr):
		ret, gas, err = evm.execute(NewContract(caller, AccountRef(addr), value, gas), addr, input, false)
	}
	return evm.finish(snapshot, ret, gas, err)
}

func (evm *EVM) CallCode(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.CallCode(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	snapshot := evm.StateDB.Snapshot()
	if p, ok := evm.precompile(addr); ok {
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	} else {
		ret, gas, err = evm.execute(NewContract(caller, AccountRef(caller.Address()), value, gas), addr, input, false)
	}
	return evm.finish(snapshot, ret, gas, err)
}

func (evm *EVM) DelegateCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.DelegateCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	snapshot := evm.StateDB.Snapshot()
	if p, ok := evm.precompile(addr); ok {
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	} else {
		ret, gas, err = evm.execute(NewContract(caller, AccountRef(caller.Address()), nil, gas).AsDelegate(), addr, input, false)
	}
	return evm.finish(snapshot, ret, gas, err)
}

func (evm *EVM) StaticCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.StaticCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	snapshot := evm.StateDB.Snapshot()
	evm.StateDB.AddBalance(addr, new(uint256.Int), tracing.BalanceChangeTouchAccount)
	if p, ok := evm.precompile(addr); ok {
		ret, gas, err = RunPrecompiledContract(p, input, gas)
	} else {
		ret, gas, err = evm.execute(NewContract(caller, AccountRef(addr), new(uint256.Int), gas), addr, input, true)
	}
	return evm.finish(snapshot, ret, gas, err)
}

func (evm *EVM) create(caller ContractRef, code []byte, hash common.Hash, gas uint64, value *uint256.Int, address common.Address) (ret []byte, createAddress common.Address, leftOverGas uint64, err error) {
	if evm.depth > int(params.CallCreateDepth) {
		return nil, common.Address{}, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, common.Address{}, gas, ErrInsufficientBalance
	}
	nonce := evm.StateDB.GetNonce(caller.Address())
	if nonce+1 < nonce {
		return nil, common.Address{}, gas, ErrNonceUintOverflow
	}
	evm.StateDB.SetNonce(caller.Address(), nonce+1)
	if evm.chainRules.IsEIP2929 {
		evm.StateDB.AddAddressToAccessList(address)
	}
	contractHash := evm.StateDB.GetCodeHash(address)
	storageRoot := evm.StateDB.GetStorageRoot(address)
	if evm.StateDB.GetNonce(address) != 0 ||
		contractHash != (common.Hash{}) && contractHash != types.EmptyCodeHash ||
		storageRoot != (common.Hash{}) && storageRoot != types.EmptyRootHash {
		return nil, common.Address{}, 0, ErrContractAddressCollision
	}
	snapshot := evm.StateDB.Snapshot()
	if !evm.StateDB.Exist(address) {
		evm.StateDB.CreateAccount(address)
	}
	evm.StateDB.CreateContract(address)
	if evm.chainRules.IsEIP158 {
		evm.StateDB.SetNonce(address, 1)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), address, value)
	contract := NewContract(caller, AccountRef(address), value, gas)
	contract.SetCallCode(&address, hash, code)
	contract.IsDeployment = true
	ret, err = evm.interpreter.Run(contract, nil, false)
	if err == nil && len(ret) > params.MaxCodeSize {
		err = ErrMaxCodeSizeExceeded
	}
	if err == nil && len(ret) >= 1 && ret[0] == 0xEF && evm.chainRules.IsLondon {
		err = ErrInvalidCode
	}
	if err == nil {
		if contract.UseGas(uint64(len(ret)) * params.CreateDataGas) {
			evm.StateDB.SetCode(address, ret)
		} else {
			err = ErrCodeStoreOutOfGas
		}
	}
	if err != nil {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			contract.UseGas(contract.Gas)
		}
	}
	return ret, address, contract.Gas, err
}

func (evm *EVM) Create(caller ContractRef, code []byte, gas uint64, value *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create(evm, caller, code, gas, value)
	}
	contractAddr = crypto.CreateAddress(caller.Address(), evm.StateDB.GetNonce(caller.Address()))
	return evm.create(caller, code, common.Hash{}, gas, value, contractAddr)
}

func (evm *EVM) Create2(caller ContractRef, code []byte, gas uint64, endowment *uint256.Int, salt *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create2(evm, caller, code, gas, endowment, salt)
	}
	hash := crypto.Keccak256Hash(code)
	contractAddr = crypto.CreateAddress2(caller.Address(), salt.Bytes32(), hash[:])
	return evm.create(caller, code, hash, gas, endowment, contractAddr)
}
