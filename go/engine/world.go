// Package engine runs bounded-exhaustive explorations of EVM executions: every
// enumerated case is executed by the reference model and by the real
// implementations, and the observable outcomes are compared.
package engine

import (
	"bytes"
	"encoding/binary"
	"slices"
	"sort"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
)

// Fixed cast of accounts.
var (
	Self   = mkAddr(0x51)
	Caller = mkAddr(0x52)
	Origin = mkAddr(0x53)
	Rich   = mkAddr(0x61) // has balance, nonce and code
	Poor   = mkAddr(0x62) // only balance
	Nonced = mkAddr(0x63) // only a nonce
	Coder  = mkAddr(0x64) // only code
	Ghost  = mkAddr(0x65) // empty
	Base   = mkAddr(0x66) // coinbase
	Made   = mkAddr(0x67) // address reported for created contracts
)

func mkAddr(b byte) (a tosca.Address) {
	for i := range a {
		a[i] = b ^ byte(i*7)
	}
	a[19] = b
	return
}

func AddrWord(a tosca.Address) (w ref.W) {
	copy(w[12:], a[:])
	return
}

// Acct is an account of the scripted world.
type Acct struct {
	Addr       tosca.Address
	Balance    tosca.Value
	Nonce      uint64
	Code       tosca.Code
	Warm       bool
	Destructed bool
}

// Slot is a storage slot of the scripted world.
type Slot struct {
	Addr      tosca.Address
	Key       tosca.Key
	Orig, Cur tosca.Word
	Trans     tosca.Word
	Warm      bool
}

// Resp is the scripted answer to a nested call or create.
type Resp struct {
	Success bool
	Out     int   // length of the output
	Gas     int   // 0: all gas returned, 1: half, 2: none, 3: one unit
	Refund  int64 // refund reported by the callee
	Mutate  bool  // the callee changed storage, balance and transient state of the caller
}

// WorldSpec is the initial world state of a case.
type WorldSpec struct {
	Accts  []Acct
	Slots  []Slot
	Script []Resp
}

// World implements tosca.RunContext on top of a WorldSpec.
type World struct {
	spec  *WorldSpec
	accts []Acct
	slots []Slot
	calls int
	gone  []tosca.Address

	J      []byte // journal of effects, in order
	A      []byte // journal of accesses turning warm, with the number of preceding calls
	Mut    int    // number of state mutating host calls
	Calls  int
	NSnap  int
	Static bool // report mutations
}

func (w *World) Reset(s *WorldSpec) {
	w.spec = s
	w.accts = append(w.accts[:0], s.Accts...)
	w.slots = append(w.slots[:0], s.Slots...)
	w.J = w.J[:0]
	w.A = w.A[:0]
	w.gone = w.gone[:0]
	w.Mut, w.calls, w.Calls = 0, 0, 0
}

func (w *World) acct(a tosca.Address) *Acct {
	for i := range w.accts {
		if w.accts[i].Addr == a {
			return &w.accts[i]
		}
	}
	w.accts = append(w.accts, Acct{Addr: a})
	return &w.accts[len(w.accts)-1]
}

func (w *World) slot(a tosca.Address, k tosca.Key) *Slot {
	for i := range w.slots {
		if w.slots[i].Addr == a && w.slots[i].Key == k {
			return &w.slots[i]
		}
	}
	w.slots = append(w.slots, Slot{Addr: a, Key: k})
	return &w.slots[len(w.slots)-1]
}

func (w *World) ev(tag byte, parts ...[]byte) {
	w.J = append(w.J, tag)
	for _, p := range parts {
		w.J = binary.AppendUvarint(w.J, uint64(len(p)))
		w.J = append(w.J, p...)
	}
}

func (w *World) AccountExists(a tosca.Address) bool {
	x := w.acct(a)
	return x.Nonce != 0 || x.Balance != tosca.Value{} || len(x.Code) != 0
}
func (w *World) GetBalance(a tosca.Address) tosca.Value { return w.acct(a).Balance }
func (w *World) SetBalance(a tosca.Address, v tosca.Value) {
	w.Mut++
	w.ev('B', a[:], v[:])
	w.acct(a).Balance = v
}
func (w *World) GetNonce(a tosca.Address) uint64 { return w.acct(a).Nonce }
func (w *World) SetNonce(a tosca.Address, n uint64) {
	w.Mut++
	w.ev('N', a[:], binary.BigEndian.AppendUint64(nil, n))
	w.acct(a).Nonce = n
}
func (w *World) GetCode(a tosca.Address) tosca.Code { return w.acct(a).Code }
func (w *World) GetCodeHash(a tosca.Address) tosca.Hash {
	// a fixed pseudo hash, so that the harness does not spend its time hashing
	x := w.acct(a)
	var h tosca.Hash
	h[0] = 0xc0
	copy(h[1:], a[:])
	h[31] = byte(len(x.Code))
	return h
}
func (w *World) GetCodeSize(a tosca.Address) int { return len(w.acct(a).Code) }
func (w *World) SetCode(a tosca.Address, c tosca.Code) {
	w.Mut++
	w.ev('C', a[:], c)
	w.acct(a).Code = c
}
func (w *World) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.slot(a, k).Cur }
func (w *World) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	w.Mut++
	s := w.slot(a, k)
	w.ev('S', a[:], k[:], v[:])
	st := storageStatus(s.Orig, s.Cur, v)
	s.Cur = v
	return st
}

// storageStatus is written down from the EVMC documentation.
func storageStatus(o, c, n tosca.Word) tosca.StorageStatus {
	z := tosca.Word{}
	switch {
	case c == n:
		return tosca.StorageAssigned
	case o == c && o == z:
		return tosca.StorageAdded
	case o == c && n == z:
		return tosca.StorageDeleted
	case o == c:
		return tosca.StorageModified
	case o == z && n == z:
		return tosca.StorageAddedDeleted
	case o == z:
		return tosca.StorageAssigned
	case c == z && n == o:
		return tosca.StorageDeletedRestored
	case c == z:
		return tosca.StorageDeletedAdded
	case n == z:
		return tosca.StorageModifiedDeleted
	case n == o:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

func (w *World) SelfDestruct(a, b tosca.Address) bool {
	w.Mut++
	x := w.acct(a)
	w.ev('X', a[:], b[:])
	first := !x.Destructed
	x.Destructed = true
	return first
}
func (w *World) CreateSnapshot() tosca.Snapshot { w.NSnap++; w.ev('s'); return 0 }
func (w *World) RestoreSnapshot(tosca.Snapshot) { w.ev('r') }
func (w *World) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.slot(a, k).Trans
}
func (w *World) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	w.Mut++
	w.ev('T', a[:], k[:], v[:])
	w.slot(a, k).Trans = v
}
func (w *World) AccessAccount(a tosca.Address) tosca.AccessStatus {
	x := w.acct(a)
	if x.Warm {
		return tosca.WarmAccess
	}
	x.Warm = true
	w.A = append(append(w.A, 'a', byte(w.Calls)), a[:]...)
	return tosca.ColdAccess
}
func (w *World) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	x := w.slot(a, k)
	if x.Warm {
		return tosca.WarmAccess
	}
	x.Warm = true
	w.A = append(append(append(w.A, 'k', byte(w.Calls)), a[:]...), k[:]...)
	return tosca.ColdAccess
}
func (w *World) EmitLog(l tosca.Log) {
	w.Mut++
	w.ev('L', l.Address[:], l.Data)
	for _, t := range l.Topics {
		w.ev('t', t[:])
	}
}
func (w *World) GetLogs() []tosca.Log { return nil }
func (w *World) GetBlockHash(n int64) (h tosca.Hash) {
	h[0] = 0xb1
	binary.BigEndian.PutUint64(h[24:], uint64(n))
	return
}
func (w *World) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.slot(a, k).Orig
}
func (w *World) IsAddressInAccessList(a tosca.Address) bool { return w.acct(a).Warm }
func (w *World) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.acct(a).Warm, w.slot(a, k).Warm
}
func (w *World) HasSelfDestructed(a tosca.Address) bool { return w.acct(a).Destructed }

var outPattern = func() (b []byte) {
	for i := 0; i < 4096; i++ {
		b = append(b, byte(0xA0+i*13))
	}
	return
}()

func (w *World) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	w.Calls++
	if kind == tosca.Create || kind == tosca.Create2 || (kind == tosca.Call && p.Value != tosca.Value{}) {
		w.Mut++
	}
	var g [9]byte
	g[0] = byte(kind)
	binary.BigEndian.PutUint64(g[1:], uint64(p.Gas))
	switch kind {
	case tosca.Create:
		w.ev('!', g[:], p.Sender[:], p.Value[:], p.Input)
	case tosca.Create2:
		w.ev('!', g[:], p.Sender[:], p.Value[:], p.Input, p.Salt[:])
	case tosca.StaticCall:
		w.ev('!', g[:], p.Sender[:], p.Recipient[:], p.CodeAddress[:], p.Input)
	default:
		w.ev('!', g[:], p.Sender[:], p.Recipient[:], p.CodeAddress[:], p.Value[:], p.Input)
	}
	r := Resp{Success: true}
	if n := len(w.spec.Script); n > 0 {
		i := w.calls
		if i >= n {
			i = n - 1
		}
		r = w.spec.Script[i]
	}
	w.calls++
	if r.Mutate {
		w.acct(Self).Balance[31] ^= 0x3c
		for i := range w.slots {
			if w.slots[i].Addr == Self {
				w.slots[i].Cur[31] ^= 0x11
				w.slots[i].Trans[30] ^= 0x22
				w.slots[i].Warm = true
			}
		}
		w.acct(Ghost).Balance[31] = 7
	}
	res := tosca.CallResult{Success: r.Success, GasRefund: tosca.Gas(r.Refund)}
	if r.Out > 0 {
		res.Output = append([]byte{}, outPattern[w.calls:w.calls+r.Out]...)
	}
	switch r.Gas {
	case 0:
		res.GasLeft = p.Gas
	case 1:
		res.GasLeft = p.Gas / 2
	case 3:
		if p.Gas > 0 {
			res.GasLeft = 1
		}
	}
	if kind == tosca.Create || kind == tosca.Create2 {
		if r.Success {
			res.CreatedAddress = Made
		}
	}
	return res, nil
}

// Final fingerprints the final state of access sets.
func (w *World) String() string { return string(w.J) }

// sameAccesses compares two access journals as sets: the order in which
// accounts and slots turn warm between two calls is not observable.
func sameAccesses(x, y []byte) bool {
	if bytes.Equal(x, y) {
		return true
	}
	split := func(b []byte) (r []string) {
		for len(b) > 0 {
			n := 22
			if b[0] == 'k' {
				n = 54
			}
			r = append(r, string(b[:n]))
			b = b[n:]
		}
		sort.Strings(r)
		return
	}
	return slices.Equal(split(x), split(y))
}
