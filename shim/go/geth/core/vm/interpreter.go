package vm

import (
	"errors"

	"github.com/holiman/uint256"
)

// The interpreter of go-ethereum is not available; these are the types used to
// refer to it.

var errNoInterpreter = errors.New("the interpreter of go-ethereum is not available")

type EVMInterpreter struct{ evm *EVM }

func (in *EVMInterpreter) Run(contract *Contract, input []byte, readOnly bool) ([]byte, error) {
	return nil, errNoInterpreter
}

// Status is the status of a stepwise execution.
type Status byte

const (
	Running Status = iota
	Reverted
	Stopped
	Failed
)

// InterpreterState is the state of a stepwise execution.
type InterpreterState struct {
	Contract           *Contract
	Status             Status
	Input              []byte
	ReadOnly           bool
	Stack              *Stack
	Memory             *Memory
	LastCallReturnData []byte
	ReturnData         []byte
	Pc                 uint64
	Error              error
}

func (in *EVMInterpreter) Step(state *InterpreterState) bool {
	state.Status, state.Error = Failed, errNoInterpreter
	return false
}

type Memory struct {
	store       []byte
	lastGasCost uint64
}

func NewMemory() *Memory { return &Memory{} }
func (m *Memory) Resize(size uint64) {
	if n := uint64(len(m.store)); n < size {
		m.store = append(m.store, make([]byte, size-n)...)
	}
}
func (m *Memory) Set(offset, size uint64, value []byte) {
	if size > 0 {
		copy(m.store[offset:offset+size], value)
	}
}
func (m *Memory) Len() int     { return len(m.store) }
func (m *Memory) Data() []byte { return m.store }

// MemoryGasCost is the cost of an expansion.
func MemoryGasCost(mem *Memory, newMemSize uint64) (uint64, error) {
	if newMemSize > 0x1FFFFFFFE0 {
		return 0, ErrGasUintOverflow
	}
	words := (newMemSize + 31) / 32
	cost := 3*words + words*words/512
	if words*32 <= uint64(mem.Len()) {
		return 0, nil
	}
	fee := cost - mem.lastGasCost
	mem.lastGasCost = cost
	return fee, nil
}

type Stack struct{ data []uint256.Int }

func NewStack() *Stack                { return &Stack{} }
func (st *Stack) Push(d *uint256.Int) { st.data = append(st.data, *d) }
func (st *Stack) Data() []uint256.Int { return st.data }
func (st *Stack) Len() int            { return len(st.data) }
