package main

import (
	"fmt"
	"os"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// World is a simple in-memory state with full snapshots.
type Acct struct {
	Bal   tosca.Value
	Nonce uint64
	Code  []byte
	St    map[tosca.Key]tosca.Word
	Orig  map[tosca.Key]tosca.Word
	Dead  bool
}
type World struct {
	A     map[tosca.Address]*Acct
	Tr    map[tosca.Address]map[tosca.Key]tosca.Word
	WarmA map[tosca.Address]bool
	WarmS map[tosca.Address]map[tosca.Key]bool
	Logs  []tosca.Log
	snaps []*World
	OnCall func(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error)
	Calls []tosca.CallParameters
	Kinds []tosca.CallKind
}

func NewWorld() *World {
	return &World{A: map[tosca.Address]*Acct{}, Tr: map[tosca.Address]map[tosca.Key]tosca.Word{}, WarmA: map[tosca.Address]bool{}, WarmS: map[tosca.Address]map[tosca.Key]bool{}}
}
func (w *World) Acc(a tosca.Address) *Acct {
	x := w.A[a]
	if x == nil {
		x = &Acct{St: map[tosca.Key]tosca.Word{}, Orig: map[tosca.Key]tosca.Word{}}
		w.A[a] = x
	}
	return x
}
func cp[K comparable, V any](m map[K]V) map[K]V {
	r := map[K]V{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (w *World) clone() *World {
	r := NewWorld()
	for a, x := range w.A {
		y := *x
		y.St, y.Orig = cp(x.St), cp(x.Orig)
		r.A[a] = &y
	}
	for a, x := range w.Tr {
		r.Tr[a] = cp(x)
	}
	r.WarmA = cp(w.WarmA)
	for a, x := range w.WarmS {
		r.WarmS[a] = cp(x)
	}
	r.Logs = append([]tosca.Log{}, w.Logs...)
	return r
}
func (w *World) AccountExists(a tosca.Address) bool {
	x := w.A[a]
	return x != nil && (x.Bal != tosca.Value{} || x.Nonce != 0 || len(x.Code) > 0)
}
func (w *World) GetBalance(a tosca.Address) tosca.Value    { return w.Acc(a).Bal }
func (w *World) SetBalance(a tosca.Address, v tosca.Value) { w.Acc(a).Bal = v }
func (w *World) GetNonce(a tosca.Address) uint64           { return w.Acc(a).Nonce }
func (w *World) SetNonce(a tosca.Address, n uint64)        { w.Acc(a).Nonce = n }
func (w *World) GetCode(a tosca.Address) tosca.Code        { return w.Acc(a).Code }
func (w *World) GetCodeSize(a tosca.Address) int           { return len(w.Acc(a).Code) }
func (w *World) SetCode(a tosca.Address, c tosca.Code)     { w.Acc(a).Code = append([]byte{}, c...) }
func (w *World) GetCodeHash(a tosca.Address) tosca.Hash {
	if !w.AccountExists(a) {
		return tosca.Hash{}
	}
	return keccak(w.Acc(a).Code)
}
func (w *World) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.Acc(a).St[k] }
func (w *World) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	x := w.Acc(a)
	cur := x.St[k]
	x.St[k] = v
	return tosca.GetStorageStatus(x.Orig[k], cur, v)
}
func (w *World) SelfDestruct(a, b tosca.Address) bool {
	x := w.Acc(a)
	if a != b {
		w.Acc(b).Bal = tosca.Add(w.Acc(b).Bal, x.Bal)
	}
	x.Bal = tosca.Value{}
	r := !x.Dead
	x.Dead = true
	return r
}
func (w *World) CreateSnapshot() tosca.Snapshot {
	w.snaps = append(w.snaps, w.clone())
	return tosca.Snapshot(len(w.snaps) - 1)
}
func (w *World) RestoreSnapshot(s tosca.Snapshot) {
	b := w.snaps[s].clone()
	w.snaps = w.snaps[:s]
	w.A, w.Tr, w.WarmA, w.WarmS, w.Logs = b.A, b.Tr, b.WarmA, b.WarmS, b.Logs
}
func (w *World) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.Tr[a][k] }
func (w *World) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	if w.Tr[a] == nil {
		w.Tr[a] = map[tosca.Key]tosca.Word{}
	}
	w.Tr[a][k] = v
}
func (w *World) AccessAccount(a tosca.Address) tosca.AccessStatus {
	r := w.WarmA[a]
	w.WarmA[a] = true
	return tosca.AccessStatus(r)
}
func (w *World) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	if w.WarmS[a] == nil {
		w.WarmS[a] = map[tosca.Key]bool{}
	}
	r := w.WarmS[a][k]
	w.WarmS[a][k] = true
	return tosca.AccessStatus(r)
}
func (w *World) EmitLog(l tosca.Log) {
	l.Data = append([]byte{}, l.Data...)
	l.Topics = append([]tosca.Hash{}, l.Topics...)
	w.Logs = append(w.Logs, l)
}
func (w *World) GetLogs() []tosca.Log              { return w.Logs }
func (w *World) GetBlockHash(n int64) tosca.Hash   { return keccak([]byte(fmt.Sprint("block", n))) }
func (w *World) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.Acc(a).Orig[k] }
func (w *World) IsAddressInAccessList(a tosca.Address) bool { return w.WarmA[a] }
func (w *World) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.WarmA[a], w.WarmS[a][k]
}
func (w *World) HasSelfDestructed(a tosca.Address) bool { return w.Acc(a).Dead }
func (w *World) Call(k tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	p.Input = append([]byte{}, p.Input...)
	w.Calls = append(w.Calls, p)
	w.Kinds = append(w.Kinds, k)
	if w.OnCall != nil {
		return w.OnCall(k, p)
	}
	return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil
}

// run executes code on an interpreter.
func run(vm string, w *World, code []byte, p tosca.Parameters) tosca.Result {
	i, err := tosca.NewInterpreter(vm)
	check(err == nil, "no interpreter %s: %v", vm, err)
	return runOn(i, w, code, p)
}
func runOn(i tosca.Interpreter, w *World, code []byte, p tosca.Parameters) tosca.Result {
	p.Context = w
	p.Code = code
	h := keccak(code)
	p.CodeHash = &h
	if p.Gas == 0 {
		p.Gas = 1 << 40
	}
	r, err := i.Run(p)
	check(err == nil, "execution error: %v", err)
	return r
}
func check(ok bool, f string, a ...any) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\n", a...)
		os.Exit(1)
	}
}
func bs(parts ...any) (r []byte) {
	for _, p := range parts {
		switch x := p.(type) {
		case int:
			r = append(r, byte(x))
		case []byte:
			r = append(r, x...)
		case tosca.Address:
			r = append(r, x[:]...)
		}
	}
	return
}
