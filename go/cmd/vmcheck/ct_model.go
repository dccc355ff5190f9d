package main

import (
	"encoding/json"
	"sort"

	cc "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/ct/utils"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

// refOf loads a conformance testing state into the reference model.
func refOf(s *st.State, p *tosca.Parameters) *ref.State {
	*p = utils.ToVmParameters(s)
	r := ref.New(p)
	r.PC = uint64(s.Pc)
	r.Gas = int64(s.Gas)
	r.Refund = int64(s.GasRefund)
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		r.Stack = append(r.Stack, ref.W(s.Stack.Get(i).Bytes32be()))
	}
	r.Mem = append([]byte{}, s.Memory.Read(0, uint64(s.Memory.Size()))...)
	r.RetData = s.LastCallReturnData.ToBytes()
	return r
}

// refStep executes up to n steps of the reference on the state, in place.
// World state changes take effect through the context of the state.
func refStep(s *st.State, n int, trace *[]int64) {
	if s.Status != st.Running {
		return
	}
	var p tosca.Parameters
	r := refOf(s, &p)
	r.GasTrace = trace
	for i := 0; i < n && r.Status == ref.Running; i++ {
		r.Step()
	}
	switch r.Status {
	case ref.Running:
		s.Status = st.Running
	case ref.Stopped, ref.SelfDestructed:
		s.Status = st.Stopped
		s.ReturnData = cc.Bytes{}
	case ref.Returned:
		s.Status = st.Stopped
		s.ReturnData = cc.NewBytes(r.Out)
	case ref.Reverted:
		s.Status = st.Reverted
		s.ReturnData = cc.NewBytes(r.Out)
	default:
		s.Status = st.Failed
		return
	}
	s.Pc = uint16(r.PC)
	s.Gas = tosca.Gas(r.Gas)
	s.GasRefund = tosca.Gas(r.Refund)
	s.Stack.Resize(0)
	for _, w := range r.Stack {
		s.Stack.Push(cc.NewU256FromBytes(w[:]...))
	}
	mem := st.NewMemory()
	mem.Set(r.Mem)
	s.Memory = mem
	s.LastCallReturnData = cc.NewBytes(r.RetData)
}

func u256(w ref.W) cc.U256 { return cc.NewU256FromBytes(w[:]...) }

// ctVariant selects the surroundings of an enumerated state.
type ctVariant struct {
	rev      tosca.Revision
	readOnly bool
	warm     bool
	gone     bool // has already self destructed
	poor     bool // has no balance
	mem      int  // words of memory
	lead     int  // number of instructions in front of the operation
	success  bool // outcome of the next call
	out      int  // size of its output
	cost     tosca.Gas
}

const bigGas = 1_000_000

// ctState builds a conformance testing state about to execute op with the
// given operands (top first) on top of extra stack elements.
func ctState(op byte, args []ref.W, extra int, v ctVariant) *st.State {
	var code []byte
	for i := 0; i < v.lead; i++ {
		code = append(code, []byte{0x5b, 0x61, 0x5b, 0x5b, 0x58}[i%5])
		if i%5 == 1 {
			code = append(code, 0x5b, 0x80)
		}
	}
	pc := len(code)
	code = append(code, op)
	if op >= 0x60 && op <= 0x7f {
		for k := 0; k <= int(op-0x60); k++ {
			code = append(code, byte(0xd1+k*5))
		}
	}
	code = append(code, 0x5b, 0x60, 0x5b, 0x00)
	s := st.NewState(st.NewCode(code))
	s.Pc = uint16(pc)
	s.Revision = v.rev
	s.ReadOnly = v.readOnly
	s.Gas = bigGas
	s.GasRefund = 17
	for i := 0; i < extra; i++ {
		s.Stack.Push(cc.NewU256(uint64(i)*0x101 + 3))
	}
	for i := len(args) - 1; i >= 0; i-- {
		s.Stack.Push(u256(args[i]))
	}
	m := make([]byte, v.mem*32)
	for i := range m {
		m[i] = byte(i*3 + 1)
	}
	s.Memory = st.NewMemory(m...)
	n := func(x uint64) cc.U256 { return cc.NewU256(x) }
	sb := st.NewStorageBuilder().SetOriginal(n(0), n(5)).SetCurrent(n(0), n(5)).SetOriginal(n(1), n(7)).SetCurrent(n(1), n(8)).SetWarm(n(1), true).
		SetOriginal(n(3), n(6)).SetWarm(n(3), true).SetCurrent(n(4), n(9)).SetWarm(n(4), true).SetOriginal(n(5), n(1)).SetCurrent(n(5), n(1)).SetWarm(n(5), true)
	if v.warm {
		sb.SetWarm(n(0), true).SetWarm(n(2), true)
	}
	s.Storage = sb.Build()
	s.TransientStorage = &st.TransientStorage{}
	s.TransientStorage.Set(n(1), n(3))
	ab := st.NewAccountsBuilder()
	for _, a := range engine.StdWorld.Accts {
		if !(v.poor && a.Addr == engine.Self) {
			ab.SetBalance(a.Addr, u256(ref.W(a.Balance)))
		}
		if len(a.Code) > 0 {
			ab.SetCode(a.Addr, cc.NewBytes(a.Code))
		}
		if v.warm {
			ab.SetWarm(a.Addr)
		}
	}
	if v.warm {
		ab.SetWarm(engine.Ghost)
	}
	s.Accounts = ab.Build()
	s.CallContext = st.CallContext{AccountAddress: engine.Self, CallerAddress: engine.Caller, Value: n(77)}
	s.BlockContext = st.BlockContext{
		BaseFee: n(0x1234567), BlobBaseFee: n(0x89abc), BlockNumber: 1234, ChainID: n(0xfa), CoinBase: engine.Base,
		GasLimit: 1 << 40, GasPrice: n(0x5555), PrevRandao: u256(pow2(200, 3)), TimeStamp: 5678,
	}
	var hashes []tosca.Hash
	for i := 0; i < 256; i++ {
		hashes = append(hashes, tosca.Hash{0xb1, byte(i), 3: 7})
	}
	s.RecentBlockHashes = cc.NewImmutableHashArray(hashes...)
	in := make([]byte, 77)
	for i := range in {
		in[i] = byte(0x80 + i)
	}
	s.CallData = cc.NewBytes(in)
	s.LastCallReturnData = cc.NewBytes([]byte{9, 8, 7, 6, 5})
	s.TransactionContext = &st.TransactionContext{OriginAddress: engine.Origin, BlobHashes: []tosca.Hash{{1}, {2, 3}}}
	if v.gone {
		s.HasSelfDestructed = true
		s.SelfDestructedJournal = []st.SelfDestructEntry{st.NewSelfDestructEntry(engine.Self, engine.Poor)}
	}
	out := make([]byte, v.out)
	for i := range out {
		out[i] = byte(0x41 + i)
	}
	s.CallJournal = st.NewCallJournal()
	s.CallJournal.Future = []st.FutureCall{{Success: v.success, Output: cc.NewBytes(out), GasCosts: v.cost, GasRefund: 11, CreatedAccount: engine.Made}, {Success: !v.success, GasCosts: 3}}
	s.Logs.AddLog([]byte{1, 2}, n(4))
	return s
}

// ctEnumerate calls f for every state of the enumeration of an opcode.
func ctEnumerate(op byte, deep bool, f func(*st.State)) {
	vs := func(rev tosca.Revision, ro bool) (res []ctVariant) {
		base := ctVariant{rev: rev, readOnly: ro, mem: 1, success: true, out: 5, cost: 100}
		res = append(res, base)
		w := base
		w.warm, w.mem, w.lead = true, 0, 1
		res = append(res, w)
		if deep {
			w.mem, w.lead, w.warm = 4, 7, false
			res = append(res, w)
		}
		if op == 0xff {
			g := base
			g.gone = true
			res = append(res, g)
			g.warm = true
			res = append(res, g)
			g.poor = true
			res = append(res, g)
			g.gone = false
			res = append(res, g)
			g.warm = false
			res = append(res, g)
			g.gone = true
			res = append(res, g)
		}
		if op >= 0xf0 && op <= 0xfa {
			for _, o := range []int{0, 64} {
				g := base
				g.success, g.out, g.cost, g.warm = false, o, 1<<40, true
				res = append(res, g)
				g.success, g.cost, g.warm = o == 64, 0, false
				res = append(res, g)
			}
		}
		return
	}
	var trace []int64
	sweep := func(s *st.State) {
		// every gas amount at which a charge may fail
		trace = trace[:0]
		c := s.Clone()
		refStep(c, 1, &trace)
		c.Release()
		f(s)
		ts := append([]int64{}, trace...)
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		last := int64(-1)
		for _, t := range append([]int64{1}, ts...) {
			for _, g := range []int64{t - 1, t} {
				if g > last && g < bigGas {
					last = g
					s.Gas = tosca.Gas(g)
					f(s)
				}
			}
		}
		s.Gas = bigGas
	}
	pops, pushes, _ := ref.Info(op, nRevs)
	for rev := tosca.Revision(0); rev < nRevs; rev++ {
		for _, ro := range []bool{false, true} {
			for _, v := range vs(rev, ro) {
				product(ctOperands(op, deep), func(args []ref.W) {
					s := ctState(op, args, 2, v)
					sweep(s)
					s.Release()
				})
			}
			// stack bounds
			v := vs(rev, ro)[0]
			for _, h := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 1022, 1023, 1024} {
				if h > pops+2 && h < 15 {
					continue
				}
				s := ctState(op, nil, h, v)
				sweep(s)
				s.Release()
			}
			_ = pushes
		}
	}
	// states that have come to an end
	for _, status := range []st.StatusCode{st.Stopped, st.Reverted, st.Failed} {
		s := ctState(op, ws(1, 2, 3, 4, 5, 6, 7), 0, ctVariant{rev: nRevs - 1})
		s.Status = status
		f(s)
	}
}

func ctOperands(op byte, deep bool) [][]ref.W {
	switch op {
	case 0x54, 0x5c:
		return [][]ref.W{append(ws(0, 1, 2, 3, 4, 5), maxWord)}
	case 0x55, 0x5d:
		return [][]ref.W{ws(0, 1, 2, 3, 4, 5), ws(0, 1, 5, 6, 7, 8, 9)}
	case 0x40:
		return [][]ref.W{append(ws(0, 977, 978, 979, 1232, 1233, 1234, 1235), pow2(64, 1233), maxWord)}
	case 0x49:
		return [][]ref.W{append(ws(0, 1, 2, 3), pow2(64, 0), maxWord)}
	case 0x56:
		return [][]ref.W{append(ws(0, 1, 2, 3, 4, 5, 100), pow2(64, 1), maxWord)}
	case 0x57:
		return [][]ref.W{append(ws(0, 1, 2, 3, 4, 5, 100), pow2(64, 1), maxWord), append(ws(0, 1), pow2(255, 0))}
	case 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d:
		al := []ref.W{{}, ref.FromU64(1), ref.FromU64(2), ref.FromU64(31), ref.FromU64(32), ref.FromU64(255), ref.FromU64(256), ref.FromU64(1<<64 - 1), pow2(64, 0), pow2(127, 5), pow2(128, 0), pow2(255, 0), pow2(255, 9), maxWord, ref.ArithOp(0x03, []ref.W{maxWord, ref.FromU64(1)})}
		return [][]ref.W{al, al}
	case 0x08, 0x09:
		al := []ref.W{{}, ref.FromU64(1), ref.FromU64(7), pow2(128, 3), pow2(255, 0), maxWord}
		return [][]ref.W{al, al, al}
	case 0x20, 0x51, 0x52, 0x53, 0xf3, 0xfd, 0x37, 0x39, 0x3e, 0x5e, 0xa0, 0xf0:
		r := operands(op, deep)
		for i := range r {
			if i < 2 && op != 0x37 && op != 0x39 && op != 0x3e && op != 0x5e {
				r[i] = append(append([]ref.W{}, r[i]...), maxWord, pow2(63, 0), pow2(32, 0))
			}
		}
		return r
	case 0x3c:
		return [][]ref.W{awords(engine.Rich, engine.Ghost), ws(0, 31), append(ws(0, 40), maxWord), ws(0, 33)}
	case 0xf1, 0xf2:
		if !deep {
			return [][]ref.W{append(ws(0, 3000), maxWord), awords(engine.Rich, engine.Ghost, engine.Self), ws(0, 1, 1001), ws(0), ws(0, 40), ws(64), ws(0, 31)}
		}
	case 0xf4, 0xfa:
		if !deep {
			return [][]ref.W{append(ws(0, 3000), maxWord), awords(engine.Rich, engine.Ghost), ws(0), ws(0, 40), ws(64), ws(0, 31)}
		}
	}
	return operands(op, deep)
}

type ctCase struct {
	State string
	Steps int
	Code  string
}

func ctReport(x *engine.Explorer, vm, family, what string, s, want, got *st.State, steps int) {
	c := ctCase{Steps: steps}
	if s != nil {
		c.State = s.String()
		c.Code = s.Code.String()
	}
	b, _ := json.Marshal(c)
	f := engine.Finding{VM: vm, Family: family, What: what, Case: b}
	if want != nil {
		f.Want = want.String()
	}
	if got != nil {
		f.Got = got.String()
	}
	x.Report(f)
}
