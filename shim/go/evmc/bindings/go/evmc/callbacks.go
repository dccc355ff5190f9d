package evmc

/*
#include <stdlib.h>
#include <evmc/evmc.h>
*/
import "C"
import "unsafe"

func adr(p unsafe.Pointer) Address { return *(*Address)(p) }
func hsh(p unsafe.Pointer) Hash    { return *(*Hash)(p) }
func put(dst unsafe.Pointer, h Hash) { *(*Hash)(dst) = h }

//export goAccountExists
func goAccountExists(c C.uintptr_t, a unsafe.Pointer) C.int {
	if getCtx(c).AccountExists(adr(a)) {
		return 1
	}
	return 0
}

//export goGetStorage
func goGetStorage(c C.uintptr_t, a, k, r unsafe.Pointer) { put(r, getCtx(c).GetStorage(adr(a), hsh(k))) }

//export goSetStorage
func goSetStorage(c C.uintptr_t, a, k, v unsafe.Pointer) C.int {
	return C.int(getCtx(c).SetStorage(adr(a), hsh(k), hsh(v)))
}

//export goGetBalance
func goGetBalance(c C.uintptr_t, a, r unsafe.Pointer) { put(r, getCtx(c).GetBalance(adr(a))) }

//export goGetCodeSize
func goGetCodeSize(c C.uintptr_t, a unsafe.Pointer) C.size_t {
	return C.size_t(getCtx(c).GetCodeSize(adr(a)))
}

//export goGetCodeHash
func goGetCodeHash(c C.uintptr_t, a, r unsafe.Pointer) { put(r, getCtx(c).GetCodeHash(adr(a))) }

//export goCopyCode
func goCopyCode(c C.uintptr_t, a unsafe.Pointer, off C.size_t, b unsafe.Pointer, n C.size_t) C.size_t {
	code := getCtx(c).GetCode(adr(a))
	if uint64(off) >= uint64(len(code)) || n == 0 {
		return 0
	}
	return C.size_t(copy(unsafe.Slice((*byte)(b), int(n)), code[off:]))
}

//export goSelfdestruct
func goSelfdestruct(c C.uintptr_t, a, b unsafe.Pointer) C.int {
	if getCtx(c).Selfdestruct(adr(a), adr(b)) {
		return 1
	}
	return 0
}

//export goCall
func goCall(c C.uintptr_t, m unsafe.Pointer, res unsafe.Pointer) {
	msg := (*C.struct_evmc_message)(m)
	r := (*C.struct_evmc_result)(res)
	output, gasLeft, gasRefund, created, err := getCtx(c).Call(CallKind(msg.kind), adr(unsafe.Pointer(&msg.recipient)),
		adr(unsafe.Pointer(&msg.sender)), hsh(unsafe.Pointer(&msg.value)), C.GoBytes(unsafe.Pointer(msg.input_data), C.int(msg.input_size)),
		int64(msg.gas), int(msg.depth), msg.flags != 0, hsh(unsafe.Pointer(&msg.create2_salt)), adr(unsafe.Pointer(&msg.code_address)))
	status := Error(0)
	if err != nil {
		e, ok := err.(Error)
		if !ok {
			e = Error(C.EVMC_INTERNAL_ERROR)
		}
		status = e
	}
	*(*C.int32_t)(unsafe.Pointer(&r.status_code)) = C.int32_t(status)
	r.gas_left = C.int64_t(gasLeft)
	r.gas_refund = C.int64_t(gasRefund)
	*(*Address)(unsafe.Pointer(&r.create_address)) = created
	if len(output) > 0 {
		r.output_data = (*C.uint8_t)(C.CBytes(output))
		r.output_size = C.size_t(len(output))
	}
}

//export goGetTxContext
func goGetTxContext(c C.uintptr_t, r unsafe.Pointer) {
	t := getCtx(c).GetTxContext()
	o := (*C.struct_evmc_tx_context)(r)
	put(unsafe.Pointer(&o.tx_gas_price), t.GasPrice)
	*(*Address)(unsafe.Pointer(&o.tx_origin)) = t.Origin
	*(*Address)(unsafe.Pointer(&o.block_coinbase)) = t.Coinbase
	o.block_number = C.int64_t(t.Number)
	o.block_timestamp = C.int64_t(t.Timestamp)
	o.block_gas_limit = C.int64_t(t.GasLimit)
	put(unsafe.Pointer(&o.block_prev_randao), t.PrevRandao)
	put(unsafe.Pointer(&o.chain_id), t.ChainID)
	put(unsafe.Pointer(&o.block_base_fee), t.BaseFee)
	put(unsafe.Pointer(&o.blob_base_fee), t.BlobBaseFee)
	if len(t.BlobHashes) > 0 {
		// Kept alive by the host context for the duration of the call.
		b := make([]byte, 0, 32*len(t.BlobHashes))
		for _, h := range t.BlobHashes {
			b = append(b, h[:]...)
		}
		o.blob_hashes = (*C.evmc_bytes32)(leak(b))
		o.blob_hashes_count = C.size_t(len(t.BlobHashes))
	}
}

// leak interns blob hash lists in C memory (few distinct lists exist).
var interned = map[string]unsafe.Pointer{}

func leak(b []byte) unsafe.Pointer {
	ctxMu.Lock()
	defer ctxMu.Unlock()
	if p, ok := interned[string(b)]; ok {
		return p
	}
	p := C.CBytes(b)
	interned[string(b)] = p
	return p
}

//export goGetBlockHash
func goGetBlockHash(c C.uintptr_t, n C.int64_t, r unsafe.Pointer) { put(r, getCtx(c).GetBlockHash(int64(n))) }

//export goEmitLog
func goEmitLog(c C.uintptr_t, a, d unsafe.Pointer, n C.size_t, t unsafe.Pointer, tn C.size_t) {
	topics := make([]Hash, int(tn))
	for i := range topics {
		topics[i] = *(*Hash)(unsafe.Add(t, 32*i))
	}
	getCtx(c).EmitLog(adr(a), topics, C.GoBytes(d, C.int(n)))
}

//export goAccessAccount
func goAccessAccount(c C.uintptr_t, a unsafe.Pointer) C.int { return C.int(getCtx(c).AccessAccount(adr(a))) }

//export goAccessStorage
func goAccessStorage(c C.uintptr_t, a, k unsafe.Pointer) C.int {
	return C.int(getCtx(c).AccessStorage(adr(a), hsh(k)))
}

//export goGetTransient
func goGetTransient(c C.uintptr_t, a, k, r unsafe.Pointer) {
	put(r, getCtx(c).GetTransientStorage(adr(a), hsh(k)))
}

//export goSetTransient
func goSetTransient(c C.uintptr_t, a, k, v unsafe.Pointer) {
	getCtx(c).SetTransientStorage(adr(a), hsh(k), hsh(v))
}
