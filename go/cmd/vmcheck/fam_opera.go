//go:build opera

package main

import (
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/holiman/uint256"

	"github.com/Fantom-foundation/Tosca/go/geth_adapter"
	geth_interpreter "github.com/Fantom-foundation/Tosca/go/interpreter/geth"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/proc"

	_ "github.com/Fantom-foundation/Tosca/go/processor/opera"
)

// P30: transactions executed by the call machinery of go-ethereum, through the
// adapters of interpreters and states.

func init() {
	checks["P30"] = check{"lfvm,evmzero,evmrs", runOpera}
}

func runOpera(x *engine.Explorer) {
	x.Workers = 8
	revs := allRevs
	// the network's rules end with the London revision
	allRevs = revs[:3]
	h := newProcHarness(x, "opera")
	for i := range h.envs {
		h.envs[i].Rules = proc.Opera
	}
	h.operaAll()
	h.coverage()
	e := newE2E(x, "opera")
	for i := range e.envs {
		e.envs[i].Rules = proc.Opera
	}
	e.explore()
	// the adapters support all revisions
	allRevs = revs
	h = &procHarness{x: x, mk: newGethProcessor, name: "geth-adapter", suffix: "-adapter", envs: make([]proc.Env, x.Workers), asp: proc.Everything}
	for i := range h.envs {
		h.envs[i].Rules = proc.Geth
	}
	h.operaAll()
	h.coverage()
}

func (h *procHarness) operaAll() {
	x := h.x
	deep := x.Thorough()
	h.operaStatic()
	h.operaRefunds()
	h.operaViews()
	h.tree("nested-2", treeSpec{first: ops1(), second: ops2(), revs: allRevs, roots: outcomes})
	var f []procOp
	for _, o := range ops1() {
		if o.runs && (o.op.Gas == -2000 || deep) {
			f = append(f, o)
		}
	}
	h.tree("nested-3", treeSpec{first: f, second: ops2(), third: ops3(), revs: engine.Pick(x, allRevs[1:2], allRevs), roots: outcomes[:2]})
	var kill []procOp
	for _, t := range []tosca.Address{pG, pE} {
		kill = append(kill, procOp{op: proc.Op{Op: proc.Destruct, Target: t}})
	}
	h.tree("nested-destruct", treeSpec{first: append(kill, ops1()...), second: kill, revs: allRevs, roots: outcomes})
	h.sequence("sequences", ops1(), ops2(), allRevs)
	h.depth()
	h.deposit()
	procPrecompiles(h)
	h.stateCalls("state-contract", !deep)
	if h.suffix == "" {
		procTx(h)
	}
}

// gethProcessor executes transactions as a client built on go-ethereum does.
type gethProcessor struct{ factory vm.InterpreterFactory }

func newGethProcessor(i tosca.Interpreter) tosca.Processor {
	return gethProcessor{geth_adapter.NewGethInterpreterFactory(i)}
}

func (p gethProcessor) Run(block tosca.BlockParameters, tx tosca.Transaction, context tosca.TransactionContext) (tosca.Receipt, error) {
	num := func(v [32]byte) *big.Int { return new(big.Int).SetBytes(v[:]) }
	config := geth_interpreter.MakeChainConfig(*params.AllEthashProtocolChanges, num(block.ChainID), block.Revision)
	forks := []*big.Int{nil, big.NewInt(0)}
	fork := func(r tosca.Revision) *big.Int { return forks[map[bool]int{false: 0, true: 1}[block.Revision >= r]] }
	config.IstanbulBlock, config.BerlinBlock, config.LondonBlock = fork(tosca.R07_Istanbul), fork(tosca.R09_Berlin), fork(tosca.R10_London)
	if config.ShanghaiTime != nil {
		config.ShanghaiTime = new(uint64)
	}
	if config.CancunTime != nil {
		config.CancunTime = new(uint64)
	}
	ctx := vm.BlockContext{
		CanTransfer: func(s vm.StateDB, a common.Address, v *uint256.Int) bool { return s.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(s vm.StateDB, a, b common.Address, v *uint256.Int) {
			if a != b && !v.IsZero() {
				s.SubBalance(a, v, tracing.BalanceChangeTransfer)
				s.AddBalance(b, v, tracing.BalanceChangeTransfer)
			}
		},
		GetHash:     func(n uint64) common.Hash { return common.Hash(context.GetBlockHash(int64(n))) },
		Coinbase:    common.Address(block.Coinbase),
		GasLimit:    uint64(block.GasLimit),
		BlockNumber: big.NewInt(block.BlockNumber),
		Time:        uint64(block.Timestamp),
		Difficulty:  num(block.PrevRandao),
		BaseFee:     num(block.BaseFee),
		BlobBaseFee: num(block.BlobBaseFee),
	}
	if block.Revision >= tosca.R11_Paris {
		ctx.Difficulty, ctx.Random = new(big.Int), (*common.Hash)(&block.PrevRandao)
	}
	txc := vm.TxContext{Origin: common.Address(tx.Sender), GasPrice: num(tx.GasPrice)}
	for _, h := range proc.GethBlobs {
		txc.BlobHashes = append(txc.BlobHashes, common.Hash(h))
	}
	adapter := geth_interpreter.NewStateDbAdapter(context)
	state := &gethState{StateDB: adapter, world: context}
	evm := vm.NewEVM(ctx, txc, state, &config, vm.Config{Interpreter: p.factory})

	create := tx.Recipient == nil
	need := uint64(21000)
	if create {
		need = 53000
	}
	for _, b := range tx.Input {
		need += 4
		if b != 0 {
			need += 12
		}
	}
	var list types.AccessList
	for _, t := range tx.AccessList {
		need += 2400 + 1900*uint64(len(t.Keys))
		keys := make([]common.Hash, len(t.Keys))
		for i, k := range t.Keys {
			keys[i] = common.Hash(k)
		}
		list = append(list, types.AccessTuple{Address: common.Address(t.Address), StorageKeys: keys})
	}
	from := common.Address(tx.Sender)
	cost, over := new(uint256.Int).MulOverflow(tx.GasPrice.ToUint256(), uint256.NewInt(uint64(tx.GasLimit)))
	if state.GetNonce(from) != tx.Nonce || state.GetCodeSize(from) > 0 || over || state.GetBalance(from).Cmp(cost) < 0 {
		return tosca.Receipt{}, errors.New("rejected")
	}
	state.SubBalance(from, cost, tracing.BalanceDecreaseGasBuy)
	if uint64(tx.GasLimit) < need {
		return tosca.Receipt{GasUsed: tx.GasLimit}, errors.New("intrinsic gas")
	}
	if block.Revision >= tosca.R09_Berlin {
		set := vm.PrecompiledAddressesBerlin
		if block.Revision >= tosca.R13_Cancun {
			set = vm.PrecompiledAddressesCancun
		}
		adapter.PrepareAccessList(from, (*common.Address)(tx.Recipient), set, list)
	}
	var out []byte
	var created common.Address
	var err error
	left := uint64(tx.GasLimit) - need
	if create {
		out, created, left, err = evm.Create(vm.AccountRef(from), tx.Input, left, tx.Value.ToUint256())
	} else {
		state.SetNonce(from, state.GetNonce(from)+1)
		out, left, err = evm.Call(vm.AccountRef(from), common.Address(*tx.Recipient), tx.Input, left, tx.Value.ToUint256())
	}
	if tx.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if err == nil {
		limit := uint64(2)
		if block.Revision >= tosca.R10_London {
			limit = 5
		}
		left += min(state.GetRefund(), (uint64(tx.GasLimit)-left)/limit)
	}
	state.AddBalance(from, new(uint256.Int).Mul(uint256.NewInt(left), tx.GasPrice.ToUint256()), tracing.BalanceIncreaseGasReturn)
	r := tosca.Receipt{Success: err == nil, GasUsed: tx.GasLimit - tosca.Gas(left), Output: out, Logs: context.GetLogs()}
	if create {
		r.ContractAddress = (*tosca.Address)(&created)
	}
	return r, nil
}

// gethState is a state database with the semantics of go-ethereum's: what the
// adapter of this repository approximates is done exactly.
type gethState struct {
	vm.StateDB
	world   tosca.TransactionContext
	refund  uint64
	refunds map[int]uint64
}

func (s *gethState) AddBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	s.world.SetBalance(tosca.Address(a), tosca.ValueFromUint256(new(uint256.Int).Add(s.GetBalance(a), v)))
}

func (s *gethState) SubBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	s.world.SetBalance(tosca.Address(a), tosca.ValueFromUint256(new(uint256.Int).Sub(s.GetBalance(a), v)))
}

func (s *gethState) AddRefund(n uint64) { s.refund += n }
func (s *gethState) GetRefund() uint64  { return s.refund }
func (s *gethState) SubRefund(n uint64) {
	if n > s.refund {
		panic("refund counter below zero")
	}
	s.refund -= n
}

func (s *gethState) Snapshot() int {
	if s.refunds == nil {
		s.refunds = map[int]uint64{}
	}
	n := int(s.world.CreateSnapshot())
	s.refunds[n] = s.refund
	return n
}

func (s *gethState) RevertToSnapshot(n int) {
	s.world.RestoreSnapshot(tosca.Snapshot(n))
	s.refund = s.refunds[n]
}

// SelfDestruct marks an account and clears its balance.
func (s *gethState) SelfDestruct(a common.Address) {
	s.world.SetBalance(tosca.Address(a), tosca.Value{})
	s.Selfdestruct6780(a)
}

// Selfdestruct6780 marks an account, as the world of the explorer does without
// looking at the time of its creation.
func (s *gethState) Selfdestruct6780(a common.Address) {
	s.world.SelfDestruct(tosca.Address(a), tosca.Address(a))
}

// operaStatic explores calls within static frames of contracts at addresses
// around those of precompiled contracts.
func (h *procHarness) operaStatic() {
	var targets []tosca.Address
	for n := 0; n <= 12; n++ {
		targets = append(targets, tosca.Address{19: byte(n)})
	}
	for i := 0; i < 19; i++ {
		for _, b := range []byte{1, 0x80} {
			for _, n := range []byte{0, 1, 4, 9, 10} {
				a := tosca.Address{19: n}
				a[i] = b
				targets = append(targets, a)
			}
		}
	}
	base := stdProcWorld()
	kinds := []tosca.CallKind{tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall}
	h.parallel("static-frames", len(targets)*len(allRevs), func(w *engine.Worker, i int) {
		t := targets[i%len(targets)]
		rev := allRevs[i/len(targets)]
		for _, code := range []bool{true, false} {
			world := with(base, func(w *proc.World) {
				if code {
					w.SetCode(t, tosca.Code{2})
				}
				w.SetBalance(t, val(5))
			})
			for _, k1 := range kinds {
				for _, k2 := range kinds {
					for _, k3 := range kinds {
						for _, e := range endings(false) {
							for _, g := range []int64{-1000, 0, 2000} {
								e.Ops = effects(2)
								c := proc.Case{Rev: rev, World: world, Tx: tx(&pA, 0), Scripts: []proc.Script{
									{Ops: []proc.Op{{Op: proc.DoCall, Kind: k1, Target: pB, Gas: -500, Input: []byte{1}}, {Op: proc.Store, A: 1, B: 3}}, Use: 10},
									{Ops: []proc.Op{{Op: proc.DoCall, Kind: k2, Target: t, Gas: g, Input: []byte{2}}, {Op: proc.DoCall, Kind: k3, Target: pC, Gas: g, Input: []byte{3}}}, Use: 10},
									e, {Ops: effects(3), Use: 5}}}
								h.check(w, &c)
							}
						}
					}
				}
			}
		}
	})
}

// operaRefunds explores refunds granted and withdrawn by nested calls, which
// may be negative for a while.
func (h *procHarness) operaRefunds() {
	rs := []int64{0, 1, 300, -300, 4800, -4800, 15000}
	base := stdProcWorld()
	h.parallel("refunds", len(rs)*len(rs)*len(rs), func(w *engine.Worker, i int) {
		r0, r1, r2 := rs[i%len(rs)], rs[i/len(rs)%len(rs)], rs[i/len(rs)/len(rs)]
		for _, rev := range allRevs {
			for _, k := range []tosca.CallKind{tosca.Call, tosca.DelegateCall, tosca.Create} {
				for _, root := range []proc.Outcome{proc.Succeed, proc.Revert, proc.Fail, proc.Error} {
					for _, e1 := range outcomes[:3] {
						for _, e2 := range outcomes[:3] {
							for _, u := range []int64{10, 50000} {
								for _, deep := range []bool{false, true} {
									eff := func(e proc.Outcome, r int64) int64 {
										if e == proc.Succeed {
											return r
										}
										return 0
									}
									c2 := eff(e2, r2)
									if deep {
										c2 = eff(e1, c2)
									}
									if eff(e1, r1)+c2+r0 < 0 {
										continue // there are no negative refunds of transactions
									}
									a := proc.Op{Op: proc.DoCall, Kind: k, Target: pB, Gas: 200000, Input: []byte{1}}
									b := proc.Op{Op: proc.DoCall, Kind: k, Target: pC, Gas: 100000, Input: []byte{2}}
									s := []proc.Script{{Ops: []proc.Op{a, b}, End: root, Use: u, Refund: r0}, {End: e1, Use: 20, Refund: r1}, {End: e2, Use: 30, Refund: r2}}
									if deep {
										s[0].Ops, s[1].Ops = s[0].Ops[:1], []proc.Op{b}
									}
									h.check(w, &proc.Case{Rev: rev, World: base, Tx: tx(&pA, 0), Scripts: s})
								}
							}
						}
					}
				}
			}
		}
	})
}

// operaViews explores what contracts see of the state, and the results of
// their effects.
func (h *procHarness) operaViews() {
	base := stdProcWorld()
	targets := []tosca.Address{pA, pB, pE, pG, pS, {19: 1}, {}, proc.StateContract}
	kinds := []tosca.CallKind{tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall, tosca.Create, tosca.Create2}
	h.parallel("views", len(targets)*len(kinds)*len(kinds)*len(allRevs), func(w *engine.Worker, i int) {
		t := targets[i%len(targets)]
		i /= len(targets)
		k1, k2 := kinds[i%len(kinds)], kinds[i/len(kinds)%len(kinds)]
		rev := allRevs[i/len(kinds)/len(kinds)]
		for _, end := range outcomes {
			for _, kill := range []bool{false, true} {
				see := proc.Op{Op: proc.Probe, Target: t, A: 2}
				mid := []proc.Op{see, {Op: proc.Store, A: 2, B: 5}, {Op: proc.Transient, A: 1, B: 6}, see}
				if kill {
					mid = append(mid, proc.Op{Op: proc.Destruct, Target: pE}, see, proc.Op{Op: proc.Destruct, Target: pG}, see)
				}
				inner := append([]proc.Op{}, mid...)
				mid = append(mid, proc.Op{Op: proc.DoCall, Kind: k2, Target: pC, Gas: -100, Input: []byte{2}}, see)
				c := proc.Case{Rev: rev, World: base, Tx: tx(&pA, 0), Scripts: []proc.Script{
					{Ops: []proc.Op{see, {Op: proc.DoCall, Kind: k1, Target: pB, Value: val(0), Gas: -100, Input: []byte{1}}, see}},
					{Ops: mid, End: end}, {Ops: inner}}}
				h.check(w, &c)
				c.Tx.AccessList = []tosca.AccessTuple{{Address: t, Keys: []tosca.Key{{31: 1}}}}
				c.Scripts[2].End = proc.Revert
				h.check(w, &c)
			}
		}
	})
}
