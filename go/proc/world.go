// Package proc holds a full world state, a reference model of a transaction
// processor and a scripted interpreter. Together they enumerate transactions
// and call trees and compare the real processor with the model.
package proc

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
)

type slot struct {
	key       tosca.Key
	orig, cur tosca.Word
	trans     tosca.Word
	warm      bool
}

type acct struct {
	addr  tosca.Address
	bal   tosca.Value
	nonce uint64
	code  []byte
	hash  tosca.Hash // of the code, if known
	dead  bool
	warm  bool
	slots []slot
}

type state struct {
	accts []acct
	logs  []tosca.Log
}

func (s *state) copyTo(d *state) {
	n := len(s.accts)
	for len(d.accts) < n {
		d.accts = append(d.accts, acct{})
	}
	d.accts = d.accts[:n]
	for i := range s.accts {
		sl := d.accts[i].slots[:0]
		d.accts[i] = s.accts[i]
		d.accts[i].slots = append(sl, s.accts[i].slots...)
	}
	d.logs = append([]tosca.Log(nil), s.logs...)
}

// World is an in-memory world state with transaction-scoped data. Changes are
// journaled, snapshots are positions in the journal.
type World struct {
	s       state
	journal []undo
	snaps   []int
	Bad     string // misuse detected (e.g. restoring an unknown snapshot)
	buf     [2][]byte
	flip    int
}

type undoKind byte

const (
	uBalance undoKind = iota
	uNonce
	uCode
	uDead
	uWarm
	uSlot
	uTrans
	uSlotWarm
	uLog
)

type undo struct {
	kind       undoKind
	acct, slot int
	val        [32]byte
	num        uint64
	code       []byte
}

// Reset makes w a copy of o.
func (w *World) Reset(o *World) {
	o.s.copyTo(&w.s)
	w.snaps = w.snaps[:0]
	w.journal = w.journal[:0]
	w.Bad = ""
}

func (w *World) index(a tosca.Address) int {
	for i := range w.s.accts {
		if w.s.accts[i].addr == a {
			return i
		}
	}
	return -1
}
func (w *World) find(a tosca.Address) *acct {
	if i := w.index(a); i >= 0 {
		return &w.s.accts[i]
	}
	return nil
}
func (w *World) make(a tosca.Address) int {
	if i := w.index(a); i >= 0 {
		return i
	}
	n := len(w.s.accts)
	if n < cap(w.s.accts) {
		w.s.accts = w.s.accts[:n+1]
		sl := w.s.accts[n].slots[:0]
		w.s.accts[n] = acct{addr: a, slots: sl}
	} else {
		w.s.accts = append(w.s.accts, acct{addr: a})
	}
	return n
}
func (w *World) acct(a tosca.Address) *acct { return &w.s.accts[w.make(a)] }
func (w *World) slotIndex(a tosca.Address, k tosca.Key) (int, int) {
	n := w.make(a)
	x := &w.s.accts[n]
	for i := range x.slots {
		if x.slots[i].key == k {
			return n, i
		}
	}
	x.slots = append(x.slots, slot{key: k})
	return n, len(x.slots) - 1
}
func (w *World) slot(a tosca.Address, k tosca.Key) *slot {
	n, i := w.slotIndex(a, k)
	return &w.s.accts[n].slots[i]
}
func (w *World) log(u undo) {
	if len(w.snaps) > 0 {
		w.journal = append(w.journal, u)
	}
}

// InitStorage sets the committed value of a slot.
func (w *World) InitStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	s := w.slot(a, k)
	s.orig, s.cur = v, v
}

func (a *acct) empty() bool { return a.nonce == 0 && a.bal == tosca.Value{} && len(a.code) == 0 }

func (w *World) AccountExists(a tosca.Address) bool {
	x := w.find(a)
	return x != nil && !x.empty()
}
func (w *World) GetBalance(a tosca.Address) (v tosca.Value) {
	if x := w.find(a); x != nil {
		v = x.bal
	}
	return
}
func (w *World) SetBalance(a tosca.Address, v tosca.Value) {
	n := w.make(a)
	w.log(undo{kind: uBalance, acct: n, val: w.s.accts[n].bal})
	w.s.accts[n].bal = v
}
func (w *World) GetNonce(a tosca.Address) uint64 {
	if x := w.find(a); x != nil {
		return x.nonce
	}
	return 0
}
func (w *World) SetNonce(a tosca.Address, v uint64) {
	n := w.make(a)
	w.log(undo{kind: uNonce, acct: n, num: w.s.accts[n].nonce})
	w.s.accts[n].nonce = v
}
func (w *World) GetCode(a tosca.Address) tosca.Code {
	if x := w.find(a); x != nil {
		return x.code
	}
	return nil
}

var emptyHash = tosca.Hash(ref.Keccak(nil))

// GetCodeHash hashes single byte codes by table, as most codes are scripts.
func (w *World) GetCodeHash(a tosca.Address) tosca.Hash {
	x := w.find(a)
	if x == nil || x.empty() {
		return tosca.Hash{}
	}
	if x.hash == (tosca.Hash{}) {
		x.hash = CodeHash(x.code)
	}
	return x.hash
}

var oneByte = func() (t [256]tosca.Hash) {
	for i := range t {
		t[i] = ref.Keccak([]byte{byte(i)})
	}
	return
}()

// CodeHash is the hash of a code.
func CodeHash(c []byte) tosca.Hash {
	switch len(c) {
	case 0:
		return emptyHash
	case 1:
		return oneByte[c[0]]
	}
	return ref.Keccak(c)
}
func (w *World) GetCodeSize(a tosca.Address) int { return len(w.GetCode(a)) }
func (w *World) SetCode(a tosca.Address, c tosca.Code) {
	n := w.make(a)
	w.log(undo{kind: uCode, acct: n, code: w.s.accts[n].code})
	w.s.accts[n].code = append([]byte{}, c...)
	w.s.accts[n].hash = tosca.Hash{}
}
func (w *World) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.slot(a, k).cur }
func (w *World) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	n, i := w.slotIndex(a, k)
	s := &w.s.accts[n].slots[i]
	w.log(undo{kind: uSlot, acct: n, slot: i, val: s.cur})
	o, c := s.orig, s.cur
	s.cur = v
	return status(o, c, v)
}

// status follows the EVMC documentation of the storage status.
func status(o, c, n tosca.Word) tosca.StorageStatus {
	z := tosca.Word{}
	switch {
	case c == n:
		return tosca.StorageAssigned
	case o == c && o == z:
		return tosca.StorageAdded
	case o == c && n == z:
		return tosca.StorageDeleted
	case o == c:
		return tosca.StorageModified
	case o == z && n == z:
		return tosca.StorageAddedDeleted
	case o == z:
		return tosca.StorageAssigned
	case c == z && n == o:
		return tosca.StorageDeletedRestored
	case c == z:
		return tosca.StorageDeletedAdded
	case n == z:
		return tosca.StorageModifiedDeleted
	case n == o:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

func (w *World) SelfDestruct(a, b tosca.Address) bool {
	n := w.make(a)
	first := !w.s.accts[n].dead
	w.log(undo{kind: uDead, acct: n, num: b2u(!first)})
	w.s.accts[n].dead = true
	if a != b {
		v := w.s.accts[n].bal
		w.SetBalance(a, tosca.Value{})
		w.SetBalance(b, tosca.Value(add(w.GetBalance(b), v)))
	}
	return first
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (w *World) CreateSnapshot() tosca.Snapshot {
	w.snaps = append(w.snaps, len(w.journal))
	return tosca.Snapshot(len(w.snaps) - 1)
}
func (w *World) RestoreSnapshot(n tosca.Snapshot) {
	if int(n) < 0 || int(n) >= len(w.snaps) {
		w.Bad = "restored a snapshot which does not exist"
		return
	}
	for i := len(w.journal) - 1; i >= w.snaps[n]; i-- {
		u := &w.journal[i]
		switch u.kind {
		case uBalance:
			w.s.accts[u.acct].bal = u.val
		case uNonce:
			w.s.accts[u.acct].nonce = u.num
		case uCode:
			w.s.accts[u.acct].code = u.code
			w.s.accts[u.acct].hash = tosca.Hash{}
		case uDead:
			w.s.accts[u.acct].dead = u.num == 1
		case uWarm:
			w.s.accts[u.acct].warm = false
		case uSlot:
			w.s.accts[u.acct].slots[u.slot].cur = u.val
		case uTrans:
			w.s.accts[u.acct].slots[u.slot].trans = u.val
		case uSlotWarm:
			w.s.accts[u.acct].slots[u.slot].warm = false
		case uLog:
			w.s.logs = w.s.logs[:len(w.s.logs)-1]
		}
	}
	w.journal = w.journal[:w.snaps[n]]
	w.snaps = w.snaps[:n]
}
func (w *World) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.slot(a, k).trans
}
func (w *World) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	n, i := w.slotIndex(a, k)
	s := &w.s.accts[n].slots[i]
	w.log(undo{kind: uTrans, acct: n, slot: i, val: s.trans})
	s.trans = v
}
func (w *World) AccessAccount(a tosca.Address) tosca.AccessStatus {
	n := w.make(a)
	r := w.s.accts[n].warm
	if !r {
		w.log(undo{kind: uWarm, acct: n})
		w.s.accts[n].warm = true
	}
	return tosca.AccessStatus(r)
}
func (w *World) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	n, i := w.slotIndex(a, k)
	x := &w.s.accts[n].slots[i]
	r := x.warm
	if !r {
		w.log(undo{kind: uSlotWarm, acct: n, slot: i})
		x.warm = true
	}
	return tosca.AccessStatus(r)
}
func (w *World) EmitLog(l tosca.Log) {
	l.Data = append(tosca.Data{}, l.Data...)
	l.Topics = append([]tosca.Hash{}, l.Topics...)
	w.log(undo{kind: uLog})
	w.s.logs = append(w.s.logs, l)
}
func (w *World) GetLogs() []tosca.Log { return w.s.logs }
func (w *World) GetBlockHash(n int64) (h tosca.Hash) {
	h[0] = 0xb1
	binary.BigEndian.PutUint64(h[24:], uint64(n))
	return
}
func (w *World) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.slot(a, k).orig
}
func (w *World) IsAddressInAccessList(a tosca.Address) bool {
	x := w.find(a)
	return x != nil && x.warm
}
func (w *World) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.IsAddressInAccessList(a), w.slot(a, k).warm
}
func (w *World) HasSelfDestructed(a tosca.Address) bool {
	x := w.find(a)
	return x != nil && x.dead
}

// Digest is a canonical description of the state; parts can be left out. The
// result is valid until the second next call.
func (w *World) Digest(access bool, noNonce *tosca.Address) []byte {
	var order [64]int
	idx := order[:0]
	for i := range w.s.accts {
		x := &w.s.accts[i]
		use := !x.empty() || x.dead || access && x.warm
		for k := range x.slots {
			use = use || x.slots[k].used(access)
		}
		if !use {
			continue
		}
		idx = append(idx, i)
		for j := len(idx) - 1; j > 0 && bytes.Compare(w.s.accts[idx[j]].addr[:], w.s.accts[idx[j-1]].addr[:]) < 0; j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	w.flip ^= 1
	c := w.buf[w.flip][:0]
	for _, i := range idx {
		x := &w.s.accts[i]
		c = append(c, 'A')
		c = append(c, x.addr[:]...)
		if !x.empty() || x.dead {
			n := x.nonce
			if noNonce != nil && *noNonce == x.addr {
				n = 0
			}
			c = append(c, 1)
			c = append(c, x.bal[:]...)
			c = binary.BigEndian.AppendUint64(c, n)
			c = binary.AppendUvarint(c, uint64(len(x.code)))
			c = append(c, x.code...)
			if x.dead {
				c = append(c, 'x')
			}
		}
		if access && x.warm {
			c = append(c, 'w')
		}
		var so [32]int
		sl := so[:0]
		for k := range x.slots {
			if !x.slots[k].used(access) {
				continue
			}
			sl = append(sl, k)
			for j := len(sl) - 1; j > 0 && bytes.Compare(x.slots[sl[j]].key[:], x.slots[sl[j-1]].key[:]) < 0; j-- {
				sl[j], sl[j-1] = sl[j-1], sl[j]
			}
		}
		for _, k := range sl {
			s := &x.slots[k]
			c = append(c, 's')
			c = append(c, s.key[:]...)
			c = append(c, s.cur[:]...)
			c = append(c, s.trans[:]...)
			if access && s.warm {
				c = append(c, 'w')
			}
		}
	}
	for i := range w.s.logs {
		l := &w.s.logs[i]
		c = append(c, 'L')
		c = append(c, l.Address[:]...)
		c = append(c, byte(len(l.Topics)))
		for _, t := range l.Topics {
			c = append(c, t[:]...)
		}
		c = binary.AppendUvarint(c, uint64(len(l.Data)))
		c = append(c, l.Data...)
	}
	w.buf[w.flip] = c
	return c
}

func (s *slot) used(access bool) bool {
	return s.cur != tosca.Word{} || s.trans != tosca.Word{} || s.orig != tosca.Word{} || access && s.warm
}

// String describes the state for findings.
func (w *World) String() string {
	var b bytes.Buffer
	for _, x := range w.s.accts {
		if x.empty() && !x.warm && len(x.slots) == 0 && !x.dead {
			continue
		}
		fmt.Fprintf(&b, "%x{bal=%v nonce=%d code=%.8x/%d dead=%v warm=%v", x.addr[:], x.bal.ToBig(), x.nonce, x.code, len(x.code), x.dead, x.warm)
		for _, s := range x.slots {
			fmt.Fprintf(&b, " [%x]=%x/%x w=%v", s.key[31:], s.cur[31:], s.trans[31:], s.warm)
		}
		b.WriteString("} ")
	}
	for _, l := range w.s.logs {
		fmt.Fprintf(&b, "log(%x %x %x) ", l.Address[19:], l.Topics, l.Data)
	}
	return b.String()
}

// Supply is the sum of all balances.
func (w *World) Supply() (z [40]byte) {
	for i := range w.s.accts {
		c := 0
		v := w.s.accts[i].bal
		for k := 39; k >= 0; k-- {
			t := int(z[k]) + c
			if k >= 8 {
				t += int(v[k-8])
			}
			z[k] = byte(t)
			c = t >> 8
		}
	}
	return
}

func add(a, b tosca.Value) (z [32]byte) {
	c := 0
	for k := 31; k >= 0; k-- {
		t := int(a[k]) + int(b[k]) + c
		z[k] = byte(t)
		c = t >> 8
	}
	return
}

func sub(a, b tosca.Value) (z [32]byte) {
	c := 0
	for k := 31; k >= 0; k-- {
		t := int(a[k]) - int(b[k]) - c
		c = 0
		if t < 0 {
			t += 256
			c = 1
		}
		z[k] = byte(t)
	}
	return
}

func less(a, b tosca.Value) bool { return bytes.Compare(a[:], b[:]) < 0 }
