package ctgen

import (
	"fmt"
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
)

// Cond is a condition of the specification language together with its meaning,
// written down independently of the code under test. The meaning is undefined
// (ok false) where an operand does not exist.
type Cond struct {
	Name  string
	C     rlz.Condition
	Holds func(s *st.State) (holds, ok bool)
}

// direct is a constraint set on the generator itself.
type direct struct {
	name     string
	restrict func(g *gen.StateGenerator)
}

func (d direct) Check(*st.State) (bool, error)  { return true, nil }
func (d direct) Restrict(g *gen.StateGenerator) { d.restrict(g) }
func (d direct) GetTestValues() []rlz.TestValue { return nil }
func (d direct) String() string                 { return d.name }

// Direct lists constraints only set on generators directly.
func Direct() (all []Cond) {
	for _, pos := range []int{0, 2, 33} {
		for _, op := range []vm.OpCode{vm.ADD, vm.PUSH2} {
			pos, op := pos, op
			name := fmt.Sprintf("code[%d]:%v", pos, op)
			all = append(all, Cond{name, direct{name, func(g *gen.StateGenerator) { g.SetCodeOperation(pos, op) }}, yes(func(s *st.State) bool {
				o, data := codeAt(s, big.NewInt(int64(pos)))
				return !data && o == byte(op) && pos < s.Code.Length()
			})})
		}
	}
	return all
}

// operand is an expression yielding a word.
type operand struct {
	name string
	e    rlz.BindableExpression[common.U256]
	get  func(s *st.State) (*big.Int, bool)
}

func bigOf(u common.U256) *big.Int {
	b := u.Bytes32be()
	return new(big.Int).SetBytes(b[:])
}

func param(i int) operand {
	return operand{fmt.Sprintf("param%d", i), rlz.Param(i), func(s *st.State) (*big.Int, bool) {
		if i >= s.Stack.Size() {
			return nil, false
		}
		return bigOf(s.Stack.Get(i)), true
	}}
}

func konst(v uint64) operand {
	return operand{fmt.Sprint(v), rlz.Constant(common.NewU256(v)), func(*st.State) (*big.Int, bool) {
		return new(big.Int).SetUint64(v), true
	}}
}

func pcOperand() operand {
	return operand{"pc", rlz.Pc(), func(s *st.State) (*big.Int, bool) { return big.NewInt(int64(s.Pc)), true }}
}

// codeAt tells what is at a position: an instruction or immediate data.
func codeAt(s *st.State, pos *big.Int) (op byte, data bool) {
	code := s.Code.Copy()
	if !pos.IsInt64() {
		return 0, false
	}
	p := pos.Int64()
	i := int64(0)
	for i < int64(len(code)) {
		w := int64(0)
		if code[i] >= 0x60 && code[i] <= 0x7f {
			w = int64(code[i]) - 0x5f
		}
		if p == i {
			return code[i], false
		}
		if p > i && p <= i+w {
			return 0, true
		}
		i += w + 1
	}
	return 0, false
}

func addressOf(v *big.Int) (a tosca.Address) {
	b := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 160), big.NewInt(1)))
	b.FillBytes(a[:])
	return
}

func wordOf(v *big.Int) common.U256 {
	var b [32]byte
	v.FillBytes(b[:])
	return common.NewU256FromBytes(b[:]...)
}

// status of a storage write, after EIP-2200
func storageStatus(org, cur, new *big.Int) tosca.StorageStatus {
	o, c, n := org.Sign() == 0, cur.Sign() == 0, new.Sign() == 0
	same := func(a, b *big.Int) bool { return a.Cmp(b) == 0 }
	switch {
	case same(cur, new):
		return tosca.StorageAssigned
	case same(org, cur): // first change in this transaction
		switch {
		case o && !n:
			return tosca.StorageAdded
		case !o && n:
			return tosca.StorageDeleted
		default:
			return tosca.StorageModified
		}
	case o: // 0 -> X -> Y
		if n {
			return tosca.StorageAddedDeleted
		}
		return tosca.StorageAssigned
	case c: // X -> 0 -> Y
		if same(org, new) {
			return tosca.StorageDeletedRestored
		}
		return tosca.StorageDeletedAdded
	default: // X -> Y -> Z
		if n {
			return tosca.StorageModifiedDeleted
		}
		if same(org, new) {
			return tosca.StorageModifiedRestored
		}
		return tosca.StorageAssigned
	}
}

func yes(f func(s *st.State) bool) func(s *st.State) (bool, bool) {
	return func(s *st.State) (bool, bool) { return f(s), true }
}

func on(o operand, f func(s *st.State, v *big.Int) bool) func(s *st.State) (bool, bool) {
	return func(s *st.State) (bool, bool) {
		v, ok := o.get(s)
		if !ok {
			return false, false
		}
		return f(s, v), true
	}
}

func neg(f func(s *st.State, v *big.Int) bool) func(s *st.State, v *big.Int) bool {
	return func(s *st.State, v *big.Int) bool { return !f(s, v) }
}

func cmpGas(name string, f func(rlz.Expression[tosca.Gas], tosca.Gas) rlz.Condition, v tosca.Gas, p func(c int) bool) Cond {
	return Cond{fmt.Sprintf("gas%s%d", name, v), f(rlz.Gas(), v), yes(func(s *st.State) bool {
		return p(big.NewInt(int64(s.Gas)).Cmp(big.NewInt(int64(v))))
	})}
}

func cmpStack(name string, f func(rlz.Expression[int], int) rlz.Condition, v int, p func(c int) bool) Cond {
	return Cond{fmt.Sprintf("stack%s%d", name, v), f(rlz.StackSize(), v), yes(func(s *st.State) bool {
		return p(big.NewInt(int64(s.Stack.Size())).Cmp(big.NewInt(int64(v))))
	})}
}

func cmpBalance(who string, e rlz.BindableExpression[tosca.Address], addr func(s *st.State) (tosca.Address, bool), name string, f func(rlz.Expression[common.U256], common.U256) rlz.Condition, v common.U256, p func(c int) bool) Cond {
	return Cond{fmt.Sprintf("balance(%s)%s%s", who, name, v.DecimalString()), f(rlz.Balance(e), v), func(s *st.State) (bool, bool) {
		a, ok := addr(s)
		if !ok {
			return false, false
		}
		return p(bigOf(s.Accounts.GetAccount(a).Balance).Cmp(bigOf(v))), true
	}}
}

func eq(c int) bool { return c == 0 }
func ne(c int) bool { return c != 0 }
func lt(c int) bool { return c < 0 }
func le(c int) bool { return c <= 0 }
func gt(c int) bool { return c > 0 }
func ge(c int) bool { return c >= 0 }

const maxGas = tosca.Gas(st.MaxGasUsedByCt)

// Vocabulary lists the conditions that get combined.
func Vocabulary() []Cond {
	var l []Cond
	add := func(c ...Cond) { l = append(l, c...) }
	p0, p1, k0, k1, k2 := param(0), param(1), konst(0), konst(1), konst(2)
	pc := pcOperand()

	for _, c := range []st.StatusCode{st.Running, st.Stopped} {
		add(Cond{"status=" + c.String(), rlz.Eq(rlz.Status(), c), yes(func(s *st.State) bool { return s.Status == c })})
	}
	add(Cond{"status≠running", rlz.Ne(rlz.Status(), st.Running), yes(func(s *st.State) bool { return s.Status != st.Running })})
	for _, b := range []bool{false, true} {
		add(Cond{fmt.Sprint("readOnly=", b), rlz.Eq(rlz.ReadOnly(), b), yes(func(s *st.State) bool { return s.ReadOnly == b })})
	}
	for _, v := range []uint64{0, 1, 65535} {
		add(Cond{fmt.Sprint("pc=", v), rlz.Eq[common.U256](rlz.Pc(), common.NewU256(v)), yes(func(s *st.State) bool { return uint64(s.Pc) == v })})
	}
	add(
		cmpGas("=", rlz.Eq, 0, eq), cmpGas("=", rlz.Eq, maxGas, eq), cmpGas("≠", rlz.Ne, 0, ne),
		cmpGas("<", rlz.Lt, 1, lt), cmpGas("<", rlz.Lt, 2, lt), cmpGas("<", rlz.Lt, 0, lt), cmpGas("≤", rlz.Le, 0, le), cmpGas("≤", rlz.Le, 2, le),
		cmpGas("≥", rlz.Ge, 1, ge), cmpGas("≥", rlz.Ge, maxGas, ge), cmpGas(">", rlz.Gt, 0, gt), cmpGas(">", rlz.Gt, maxGas-1, gt), cmpGas(">", rlz.Gt, maxGas, gt),
		cmpStack("=", rlz.Eq, 0, eq), cmpStack("=", rlz.Eq, 2, eq), cmpStack("=", rlz.Eq, 1024, eq), cmpStack("≠", rlz.Ne, 1, ne),
		cmpStack("<", rlz.Lt, 1, lt), cmpStack("<", rlz.Lt, 2, lt), cmpStack("<", rlz.Lt, 0, lt), cmpStack("≤", rlz.Le, 1, le),
		cmpStack("≥", rlz.Ge, 1, ge), cmpStack("≥", rlz.Ge, 1024, ge), cmpStack(">", rlz.Gt, 1, gt), cmpStack(">", rlz.Gt, 1023, gt), cmpStack(">", rlz.Gt, 1024, gt),
	)
	rev := func(name string, c rlz.Condition, lo, hi tosca.Revision) {
		add(Cond{name, c, yes(func(s *st.State) bool { return lo <= s.Revision && s.Revision <= hi })})
	}
	rev("revision(istanbul-berlin)", rlz.RevisionBounds(tosca.R07_Istanbul, tosca.R09_Berlin), tosca.R07_Istanbul, tosca.R09_Berlin)
	rev("revision(cancun)", rlz.IsRevision(tosca.R13_Cancun), tosca.R13_Cancun, tosca.R13_Cancun)
	rev("revision(known)", rlz.AnyKnownRevision(), tosca.R07_Istanbul, tosca.R13_Cancun)
	rev("revision(next)", rlz.IsRevision(common.R99_UnknownNextRevision), 99, 99)

	for _, o := range []operand{pc, p0, k0, k1} {
		for _, op := range []vm.OpCode{vm.STOP, vm.JUMPDEST, vm.PUSH2} {
			is := func(s *st.State, v *big.Int) (bool, bool) {
				have, data := codeAt(s, v)
				return have == byte(op), !data
			}
			f := func(want bool) func(s *st.State) (bool, bool) {
				return func(s *st.State) (bool, bool) {
					v, ok := o.get(s)
					if !ok {
						return false, false
					}
					h, ok := is(s, v)
					return ok && h == want, ok
				}
			}
			add(Cond{fmt.Sprintf("code[%s]=%v", o.name, op), rlz.Eq(rlz.Op(o.e), op), f(true)})
			if op == vm.JUMPDEST {
				add(Cond{fmt.Sprintf("code[%s]≠%v", o.name, op), rlz.Ne(rlz.Op(o.e), op), f(false)})
			}
		}
	}
	add(Cond{"code[pc]=push32", rlz.Eq(rlz.Op(rlz.Pc()), vm.PUSH32), func(s *st.State) (bool, bool) {
		h, data := codeAt(s, big.NewInt(int64(s.Pc)))
		return !data && h == 0x7f, !data
	}})
	isData := func(s *st.State, v *big.Int) bool { _, d := codeAt(s, v); return d }
	for _, o := range []operand{pc, p0, p1, k0, k1, k2} {
		add(Cond{"isCode[" + o.name + "]", rlz.IsCode(o.e), on(o, neg(isData))})
		add(Cond{"isData[" + o.name + "]", rlz.IsData(o.e), on(o, isData)})
	}
	word := func(i int, e rlz.BindableExpression[common.U256], n string, v common.U256) {
		o := param(i)
		add(Cond{fmt.Sprintf("%s%d=%s", n, i, v.DecimalString()), rlz.Eq[common.U256](e, v), on(o, func(_ *st.State, x *big.Int) bool { return x.Cmp(bigOf(v)) == 0 })})
		add(Cond{fmt.Sprintf("%s%d≠%s", n, i, v.DecimalString()), rlz.Ne[common.U256](e, v), on(o, func(_ *st.State, x *big.Int) bool { return x.Cmp(bigOf(v)) != 0 })})
	}
	word(0, rlz.Param(0), "param", common.NewU256(0))
	word(0, rlz.Param(0), "param", common.NewU256(2))
	word(0, rlz.Param(0), "param", common.MaxU256())
	word(1, rlz.Param(1), "param", common.NewU256(0))
	word(1, rlz.ValueParam(1), "value", common.NewU256(1))
	word(2, rlz.Param(2), "param", common.NewU256(1, 0))

	for _, o := range []operand{p0, p1, k1} {
		warm := func(s *st.State, v *big.Int) bool { return s.Storage.IsWarm(wordOf(v)) }
		add(Cond{"warm[" + o.name + "]", rlz.IsStorageWarm(o.e), on(o, warm)})
		add(Cond{"cold[" + o.name + "]", rlz.IsStorageCold(o.e), on(o, neg(warm))})
		set := func(s *st.State, v *big.Int) bool { return bigOf(s.TransientStorage.Get(wordOf(v))).Sign() != 0 }
		add(Cond{"transient[" + o.name + "]≠0", rlz.BindTransientStorageToNonZero(o.e), on(o, set)})
		add(Cond{"transient[" + o.name + "]=0", rlz.BindTransientStorageToZero(o.e), on(o, neg(set))})
		empty := func(s *st.State, v *big.Int) bool { return s.Accounts.GetAccount(addressOf(v)) == st.Account{} }
		add(Cond{"empty(" + o.name + ")", rlz.AccountIsEmpty(o.e), on(o, empty)})
		add(Cond{"!empty(" + o.name + ")", rlz.AccountIsNotEmpty(o.e), on(o, neg(empty))})
		warmA := func(s *st.State, v *big.Int) bool { return s.Accounts.IsWarm(addressOf(v)) }
		add(Cond{"warm(" + o.name + ")", rlz.IsAddressWarm(o.e), on(o, warmA)})
		add(Cond{"cold(" + o.name + ")", rlz.IsAddressCold(o.e), on(o, neg(warmA))})
		recent := func(s *st.State, v *big.Int) bool {
			n := new(big.Int).SetUint64(s.BlockContext.BlockNumber)
			return v.Cmp(n) < 0 && new(big.Int).Add(v, big.NewInt(256)).Cmp(n) >= 0
		}
		add(Cond{"recent(" + o.name + ")", rlz.InRange256FromCurrentBlock(o.e), on(o, recent)})
		add(Cond{"!recent(" + o.name + ")", rlz.OutOfRange256FromCurrentBlock(o.e), on(o, neg(recent))})
		blob := func(s *st.State, v *big.Int) bool {
			return v.Cmp(big.NewInt(int64(len(s.TransactionContext.BlobHashes)))) < 0
		}
		add(Cond{"blob(" + o.name + ")", rlz.HasBlobHash(o.e), on(o, blob)})
		add(Cond{"!blob(" + o.name + ")", rlz.HasNoBlobHash(o.e), on(o, neg(blob))})
	}
	for c := tosca.StorageAssigned; c <= tosca.StorageModifiedRestored; c++ {
		for _, kv := range [][2]operand{{p0, p1}, {p1, p0}, {k1, p1}, {p0, k0}, {p0, k1}} {
			if kv[0].name != "param0" && c%3 != 0 {
				continue
			}
			f := func(s *st.State) (bool, bool) {
				k, ok := kv[0].get(s)
				if !ok {
					return false, false
				}
				v, ok := kv[1].get(s)
				if !ok {
					return false, false
				}
				return storageStatus(bigOf(s.Storage.GetOriginal(wordOf(k))), bigOf(s.Storage.GetCurrent(wordOf(k))), v) == c, true
			}
			add(Cond{fmt.Sprintf("storage(%v,%s,%s)", c, kv[0].name, kv[1].name), rlz.StorageConfiguration(c, kv[0].e, kv[1].e), f})
		}
	}
	self := func(s *st.State) (tosca.Address, bool) { return s.CallContext.AccountAddress, true }
	zero, one, max := common.NewU256(0), common.NewU256(1), common.MaxU256()
	add(
		cmpBalance("self", rlz.SelfAddress(), self, "=", rlz.Eq, zero, eq),
		cmpBalance("self", rlz.SelfAddress(), self, "≠", rlz.Ne, zero, ne),
		cmpBalance("self", rlz.SelfAddress(), self, ">", rlz.Gt, zero, gt),
		cmpBalance("self", rlz.SelfAddress(), self, ">", rlz.Gt, max, gt),
		cmpBalance("self", rlz.SelfAddress(), self, "<", rlz.Lt, zero, lt),
		cmpBalance("self", rlz.SelfAddress(), self, "<", rlz.Lt, one, lt),
		cmpBalance("self", rlz.SelfAddress(), self, "≥", rlz.Ge, max, ge),
	)
	p0a := func(s *st.State) (tosca.Address, bool) {
		v, ok := p0.get(s)
		if !ok {
			return tosca.Address{}, false
		}
		return addressOf(v), true
	}
	add(
		cmpBalance("param0", rlz.ToAddress(rlz.Param(0)), p0a, "=", rlz.Eq, zero, eq),
		cmpBalance("param0", rlz.ToAddress(rlz.Param(0)), p0a, "≤", rlz.Le, one, le),
		cmpBalance("param0", rlz.ToAddress(rlz.Param(0)), p0a, ">", rlz.Gt, one, gt),
	)
	for _, a := range []tosca.Address{{}, {0: 7, 19: 1}} {
		add(Cond{fmt.Sprint("self=", a), rlz.Eq[tosca.Address](rlz.SelfAddress(), a), yes(func(s *st.State) bool { return s.CallContext.AccountAddress == a })})
	}
	add(
		Cond{"selfdestructed", rlz.HasSelfDestructed(), yes(func(s *st.State) bool { return s.HasSelfDestructed })},
		Cond{"!selfdestructed", rlz.HasNotSelfDestructed(), yes(func(s *st.State) bool { return !s.HasSelfDestructed })},
	)
	return l
}

// WellFormed lists what every generated state obeys.
func WellFormed(s *st.State) string {
	switch {
	case s.Status < 0 || s.Status >= st.NumStatusCodes:
		return "status out of range"
	case s.Gas < 0 || s.Gas > maxGas:
		return "gas out of range"
	case s.GasRefund < -maxGas || s.GasRefund > maxGas:
		return "gas refund out of range"
	case s.Stack.Size() > st.MaxStackSize:
		return "stack too large"
	case s.Code.Length() > st.MaxCodeSize:
		return "code too large"
	case s.Memory.Size()%32 != 0:
		return "memory size no multiple of a word"
	case s.CallData.Length() > st.MaxDataSize || s.LastCallReturnData.Length() > st.MaxDataSize || s.ReturnData.Length() > st.MaxDataSize:
		return "data too large"
	case s.ReturnData.Length() > 0 && s.Status != st.Stopped && s.Status != st.Reverted:
		return "return data without a result"
	case !s.Accounts.Exists(s.CallContext.AccountAddress):
		return "executing account missing"
	case len(s.CallJournal.Future) != 1 || len(s.CallJournal.Past) != 0:
		return "call journal"
	}
	// The fork schedule of the conformance tests: a fork every 1000 blocks.
	n, revs := s.BlockContext.BlockNumber, []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun}
	want, lo, hi := common.R99_UnknownNextRevision, uint64(6000), uint64(1<<64-1)
	if n/1000 < uint64(len(revs)) {
		want, lo = revs[n/1000], n/1000*1000
		hi = lo + 999
	}
	if s.Revision != want {
		return fmt.Sprintf("revision %v at block %d", s.Revision, n)
	}
	if t := s.BlockContext.TimeStamp; t < lo || t > hi {
		return fmt.Sprintf("time %d at block %d", t, n)
	}
	return ""
}

var _ = gen.ErrUnsatisfiable
