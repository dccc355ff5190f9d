// Package evmc is a stand-in for the Go bindings of Tosca's EVMC fork.
package evmc

/*
#cgo CFLAGS: -I${SRCDIR}/../../../../../cpp
#cgo LDFLAGS: -ldl
#include <stdlib.h>
#include <string.h>
#include "shim.h"
*/
import "C"

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

type Hash [32]byte
type Address [20]byte
type Error int32

func (e Error) Error() string { return fmt.Sprintf("evmc error %d", int32(e)) }

const (
	Failure = Error(C.EVMC_FAILURE)
	Revert  = Error(C.EVMC_REVERT)
)

type Revision int32

const (
	Istanbul Revision = C.EVMC_ISTANBUL
	Berlin   Revision = C.EVMC_BERLIN
	London   Revision = C.EVMC_LONDON
	Paris    Revision = C.EVMC_PARIS
	Shanghai Revision = C.EVMC_SHANGHAI
	Cancun   Revision = C.EVMC_CANCUN
)

type CallKind int

const (
	Call         CallKind = C.EVMC_CALL
	DelegateCall CallKind = C.EVMC_DELEGATECALL
	CallCode     CallKind = C.EVMC_CALLCODE
	Create       CallKind = C.EVMC_CREATE
	Create2      CallKind = C.EVMC_CREATE2
)

type AccessStatus int

const (
	ColdAccess AccessStatus = C.EVMC_ACCESS_COLD
	WarmAccess AccessStatus = C.EVMC_ACCESS_WARM
)

type StorageStatus int

const (
	StorageAssigned         StorageStatus = C.EVMC_STORAGE_ASSIGNED
	StorageAdded            StorageStatus = C.EVMC_STORAGE_ADDED
	StorageDeleted          StorageStatus = C.EVMC_STORAGE_DELETED
	StorageModified         StorageStatus = C.EVMC_STORAGE_MODIFIED
	StorageDeletedAdded     StorageStatus = C.EVMC_STORAGE_DELETED_ADDED
	StorageModifiedDeleted  StorageStatus = C.EVMC_STORAGE_MODIFIED_DELETED
	StorageDeletedRestored  StorageStatus = C.EVMC_STORAGE_DELETED_RESTORED
	StorageAddedDeleted     StorageStatus = C.EVMC_STORAGE_ADDED_DELETED
	StorageModifiedRestored StorageStatus = C.EVMC_STORAGE_MODIFIED_RESTORED
)

type StepStatus int

const (
	Running  StepStatus = C.EVMC_STEP_RUNNING
	Stopped  StepStatus = C.EVMC_STEP_STOPPED
	Returned StepStatus = C.EVMC_STEP_RETURNED
	Reverted StepStatus = C.EVMC_STEP_REVERTED
	Failed   StepStatus = C.EVMC_STEP_FAILED
)

type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind, recipient Address, sender Address, value Hash, input []byte, gas int64, depth int,
		static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64,
		createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

type VM struct{ handle *C.struct_evmc_vm }
type VMSteppable struct{ handle *C.struct_evmc_vm_steppable }

func load(library string, steppable int) (unsafe.Pointer, error) {
	name := C.CString(library)
	defer C.free(unsafe.Pointer(name))
	buf := (*C.char)(C.calloc(1, 512))
	defer C.free(unsafe.Pointer(buf))
	h := C.shim_load(name, C.int(steppable), buf, 512)
	if h == nil {
		return nil, errors.New("evmc loading error: " + C.GoString(buf))
	}
	return h, nil
}

func Load(library string) (*VM, error) {
	h, err := load(library, 0)
	if err != nil {
		return nil, err
	}
	return &VM{(*C.struct_evmc_vm)(h)}, nil
}
func LoadSteppable(library string) (*VMSteppable, error) {
	h, err := load(library, 1)
	if err != nil {
		return nil, err
	}
	return &VMSteppable{(*C.struct_evmc_vm_steppable)(h)}, nil
}
func (vm *VM) Destroy()                  { C.shim_destroy(vm.handle) }
func (vm *VM) GetHandle() unsafe.Pointer { return unsafe.Pointer(vm.handle) }
func (vm *VM) SetOption(name, value string) error {
	n, v := C.CString(name), C.CString(value)
	defer C.free(unsafe.Pointer(n))
	defer C.free(unsafe.Pointer(v))
	switch C.shim_set_option(vm.handle, n, v) {
	case C.EVMC_SET_OPTION_INVALID_NAME:
		return fmt.Errorf("evmc: option '%s' not accepted", name)
	case C.EVMC_SET_OPTION_INVALID_VALUE:
		return fmt.Errorf("evmc: option '%s' has invalid value", name)
	}
	return nil
}
func (vm *VMSteppable) Destroy() { C.shim_destroy_steppable(vm.handle) }

var (
	ctxMu   sync.Mutex
	ctxs    = map[uintptr]HostContext{}
	ctxNext uintptr
)

func addCtx(c HostContext) uintptr {
	ctxMu.Lock()
	defer ctxMu.Unlock()
	ctxNext++
	ctxs[ctxNext] = c
	return ctxNext
}
func delCtx(id uintptr) { ctxMu.Lock(); delete(ctxs, id); ctxMu.Unlock() }
func getCtx(id C.uintptr_t) HostContext {
	ctxMu.Lock()
	defer ctxMu.Unlock()
	return ctxs[uintptr(id)]
}

// cmem is per-call C memory for the message and its buffers.
type cmem struct{ ptrs []unsafe.Pointer }

func (m *cmem) bytes(b []byte) (*C.uint8_t, C.size_t) {
	if len(b) == 0 {
		return nil, 0
	}
	p := C.CBytes(b)
	m.ptrs = append(m.ptrs, p)
	return (*C.uint8_t)(p), C.size_t(len(b))
}
func (m *cmem) free() {
	for _, p := range m.ptrs {
		C.free(p)
	}
}

func setB(dst unsafe.Pointer, src []byte) { copy(unsafe.Slice((*byte)(dst), len(src)), src) }

func (m *cmem) message(kind CallKind, static bool, depth int, gas int64, recipient, sender Address, input []byte, value Hash, codeHash *Hash) *C.struct_evmc_message {
	p := C.calloc(1, C.sizeof_struct_evmc_message)
	m.ptrs = append(m.ptrs, p)
	msg := (*C.struct_evmc_message)(p)
	*(*C.int32_t)(unsafe.Pointer(&msg.kind)) = C.int32_t(kind)
	if static {
		msg.flags = C.EVMC_STATIC
	}
	msg.depth = C.int32_t(depth)
	msg.gas = C.int64_t(gas)
	setB(unsafe.Pointer(&msg.recipient), recipient[:])
	setB(unsafe.Pointer(&msg.code_address), recipient[:])
	setB(unsafe.Pointer(&msg.sender), sender[:])
	setB(unsafe.Pointer(&msg.value), value[:])
	msg.input_data, msg.input_size = m.bytes(input)
	if codeHash != nil {
		h, _ := m.bytes(codeHash[:])
		msg.code_hash = (*C.evmc_bytes32)(unsafe.Pointer(h))
	}
	return msg
}

type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

func (vm *VM) Execute(ctx HostContext, rev Revision, kind CallKind, static bool, depth int, gas int64,
	recipient, sender Address, input []byte, value Hash, codeHash *Hash, code []byte) (res Result, err error) {
	id := addCtx(ctx)
	defer delCtx(id)
	m := &cmem{}
	defer m.free()
	msg := m.message(kind, static, depth, gas, recipient, sender, input, value, codeHash)
	c, n := m.bytes(code)
	r := C.shim_execute(vm.handle, C.uintptr_t(id), C.int(rev), msg, c, n)
	res.Output = C.GoBytes(unsafe.Pointer(r.output_data), C.int(r.output_size))
	res.GasLeft = int64(r.gas_left)
	res.GasRefund = int64(r.gas_refund)
	if r.status_code != C.EVMC_SUCCESS {
		err = Error(r.status_code)
	}
	C.shim_release(&r)
	runtime.KeepAlive(ctx)
	return
}

type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}
type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

func (vm *VMSteppable) StepN(p StepParameters) (res StepResult, err error) {
	id := addCtx(p.Context)
	defer delCtx(id)
	m := &cmem{}
	defer m.free()
	msg := m.message(p.Kind, p.Static, p.Depth, p.Gas, p.Recipient, p.Sender, p.Input, p.Value, p.CodeHash)
	c, n := m.bytes(p.Code)
	st, sn := m.bytes(p.Stack)
	mem, mn := m.bytes(p.Memory)
	l, ln := m.bytes(p.LastCallResult)
	r := C.shim_step_n(vm.handle, C.uintptr_t(id), C.int(p.Revision), msg, c, n, C.int(p.StepStatusCode), C.uint64_t(p.Pc),
		C.int64_t(p.GasRefund), unsafe.Pointer(st), sn/32, mem, mn, l, ln, C.int32_t(p.NumSteps))
	res = StepResult{
		StepStatusCode:     StepStatus(r.step_status_code),
		StatusCode:         Error(r.status_code),
		Revision:           Revision(r.revision),
		Pc:                 uint64(r.pc),
		GasLeft:            int64(r.gas_left),
		GasRefund:          int64(r.gas_refund),
		Output:             C.GoBytes(unsafe.Pointer(r.output_data), C.int(r.output_size)),
		Stack:              C.GoBytes(unsafe.Pointer(r.stack), C.int(r.stack_size*32)),
		Memory:             C.GoBytes(unsafe.Pointer(r.memory), C.int(r.memory_size)),
		LastCallReturnData: C.GoBytes(unsafe.Pointer(r.last_call_return_data), C.int(r.last_call_return_data_size)),
	}
	C.shim_release_step(&r)
	return res, nil
}
