package main

import (
	"fmt"
	"math/big"
	"runtime/debug"
	"sort"

	_ "github.com/Fantom-foundation/Tosca/go/processor/floria"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/proc"
	"verif/ref"
)

// The transaction processor: P19 to P23.

func init() {
	checks["P19"] = check{"", func(x *engine.Explorer) { runProc(x, procTx) }}
	checks["P20"] = check{"", func(x *engine.Explorer) { runProc(x, procAtomic) }}
	checks["P21"] = check{"", func(x *engine.Explorer) { runProc(x, procFrames) }}
	checks["P22"] = check{"", func(x *engine.Explorer) { runProc(x, procPrecompiles) }}
	checks["P23"] = check{"", func(x *engine.Explorer) { runProc(x, procState) }}
}

type procHarness struct {
	x      *engine.Explorer
	mk     tosca.ProcessorFactory
	name   string
	suffix string // of the names of families
	envs   []proc.Env
	asp    proc.Aspects
}

func runProc(x *engine.Explorer, f func(h *procHarness)) {
	x.Workers = 8
	debug.SetGCPercent(800)
	h := newProcHarness(x, "floria")
	f(h)
	h.coverage()
}

func newProcHarness(x *engine.Explorer, name string) *procHarness {
	h := &procHarness{x: x, mk: tosca.GetProcessorFactory(name), name: name, envs: make([]proc.Env, x.Workers), asp: proc.Everything}
	if h.mk == nil {
		fatal("cannot load implementation " + name)
	}
	return h
}

func (h *procHarness) parallel(family string, n int, f func(w *engine.Worker, i int)) {
	h.x.Parallel(family+h.suffix, n, f)
}

func (h *procHarness) coverage() {
	cov := map[string]int64{}
	for i := range h.envs {
		for k, v := range h.envs[i].Cov {
			cov[k] += v
		}
	}
	h.x.Extra("model_branches"+h.suffix, cov)
}

func (h *procHarness) check(w *engine.Worker, c *proc.Case) {
	e := &h.envs[w.ID]
	w.BeginNote(func() string { return string(c.Describe()) })
	what, want, got := func() (what, want, got string) {
		defer func() {
			if r := recover(); r != nil {
				what = fmt.Sprint("panic: ", r)
			}
		}()
		return e.Check(c, h.mk, h.asp)
	}()
	w.End()
	if e.Steps == 0 {
		return // not specified
	}
	w.Count(1, e.Steps, 1)
	h.x.NonTrivial.Add(1)
	if what != "" {
		h.x.Report(engine.Finding{VM: h.name, Family: w.Family, What: what, Want: want, Got: got, Case: c.Describe()})
	}
}

var allRevs = []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun}

// someRevs are the revisions of which each differs from its predecessor.
func someRevs() []tosca.Revision {
	if last := allRevs[len(allRevs)-1]; last != tosca.R10_London {
		return []tosca.Revision{tosca.R07_Istanbul, tosca.R10_London, last}
	}
	return allRevs
}

func hx(s string) (a tosca.Address) {
	fmt.Sscanf(s, "%x", new([]byte))
	var b []byte
	fmt.Sscanf(s, "%x", &b)
	copy(a[20-len(b):], b)
	return
}

var (
	pS = hx("5e5e5e5e000000000000000000000000000005e5")
	pA = hx("aaaa000000000000000000000000000000000a0a")
	pB = hx("bbbb000000000000000000000000000000000b0b")
	pC = hx("cccc000000000000000000000000000000000c0c")
	pE = hx("eeee000000000000000000000000000000000e0e")
	pG = hx("9999000000000000000000000000000000009090")
)

func val(n uint64) (v tosca.Value) { return tosca.Value(ref.FromU64(n)) }

func big256(s string) tosca.Value {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	var v tosca.Value
	n.FillBytes(v[:])
	return v
}

func stdProcWorld() *proc.World {
	w := &proc.World{}
	w.SetBalance(pS, big256("1000000000000000000"))
	w.SetNonce(pS, 5)
	for i, a := range []tosca.Address{pA, pB, pC} {
		w.SetCode(a, tosca.Code{byte(i)})
		w.SetNonce(a, 1)
		w.SetBalance(a, val(1000))
		w.InitStorage(a, tosca.Key{31: 1}, tosca.Word{31: 7})
	}
	w.SetBalance(pE, val(3))
	w.SetCode(proc.Driver, tosca.Code{2})
	w.SetNonce(proc.Driver, 1)
	w.SetBalance(proc.Driver, val(10))
	return w
}

// with returns a modified copy of a world.
func with(w *proc.World, f func(*proc.World)) *proc.World {
	n := &proc.World{}
	n.Reset(w)
	f(n)
	return n
}

func effects(k byte) []proc.Op {
	return []proc.Op{{Op: proc.Store, A: 1, B: 10 + k}, {Op: proc.Store, A: 2 + k, B: 1}, {Op: proc.Transient, A: 1, B: 20 + k},
		{Op: proc.Log, A: k, B: 30 + k}, {Op: proc.Touch, A: 40 + k, Target: tosca.Address{19: 0x70 + k}}}
}

// op is a nested call with a variant of the world it is made in.
type procOp struct {
	op      proc.Op
	variant int // of the world, relevant to creations
	runs    bool
}

const (
	plain = iota
	hasNonce
	hasCode
	hasBalance
	maxNonce
	variants
)

// callOpsFor enumerates the calls a contract can make; next is the script of
// the callee.
func callOpsFor(self tosca.Address, next byte, targets []tosca.Address, values []uint64, gases []int64, vars []int) (res []procOp) {
	for _, g := range gases {
		for _, k := range []tosca.CallKind{tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall} {
			for _, t := range targets {
				for _, v := range values {
					if v > 0 && (k == tosca.DelegateCall || k == tosca.StaticCall) {
						continue
					}
					isCode := t == pA || t == pB || t == pC
					res = append(res, procOp{op: proc.Op{Op: proc.DoCall, Kind: k, Target: t, Value: val(v), Gas: g, Input: []byte{next}}, runs: isCode && v <= 1000})
				}
			}
		}
		for _, k := range []tosca.CallKind{tosca.Create, tosca.Create2} {
			for _, v := range values {
				if v > 1000 {
					continue
				}
				for _, variant := range vars {
					res = append(res, procOp{op: proc.Op{Op: proc.DoCall, Kind: k, Value: val(v), Gas: g, Input: []byte{next}, Salt: 9}, variant: variant,
						runs: variant == plain || variant == hasBalance})
				}
			}
		}
	}
	return
}

func (o *procOp) world(base *proc.World, self tosca.Address) *proc.World {
	if o.variant == plain || o.op.Kind != tosca.Create && o.op.Kind != tosca.Create2 {
		return base
	}
	return with(base, func(w *proc.World) {
		p := tosca.CallParameters{Sender: self, Input: o.op.Input, Salt: tosca.Hash{31: o.op.Salt}}
		a := proc.CreateAddress(o.op.Kind, &p, w.GetNonce(self))
		switch o.variant {
		case hasNonce:
			w.SetNonce(a, 1)
		case hasCode:
			w.SetCode(a, tosca.Code{1})
		case hasBalance:
			w.SetBalance(a, val(77))
		case maxNonce:
			w.SetNonce(self, ^uint64(0))
		}
	})
}

func tx(to *tosca.Address, input ...byte) tosca.Transaction {
	return tosca.Transaction{Sender: pS, Recipient: to, Nonce: 5, Input: input, Value: val(12), GasLimit: 10_000_000, GasPrice: val(3)}
}

var outcomes = []proc.Outcome{proc.Succeed, proc.Revert, proc.Fail, proc.Error}

// endings are the ways a callee ends: with the outcome and, for code
// deployments, with outputs of different kinds.
func endings(create bool) (res []proc.Script) {
	for _, o := range outcomes {
		s := proc.Script{End: o, Use: 1000}
		if o == proc.Succeed || o == proc.Revert {
			s.Output = []byte{1, 2, 3}
		}
		if o == proc.Succeed {
			s.Refund = 500
		}
		res = append(res, s)
	}
	if create {
		res = append(res, proc.Script{Use: 5, Output: []byte{0xef, 1}}, proc.Script{Use: 5, Output: make([]byte, 24577)}, proc.Script{Use: 5})
	}
	return
}

func join(o ...[]proc.Op) (res []proc.Op) {
	for _, x := range o {
		res = append(res, x...)
	}
	return
}

// ---------------------------------------------------------------- call trees

type treeSpec struct {
	first, second, third []procOp
	revs                 []tosca.Revision
	roots                []proc.Outcome
	accessList           bool
}

func isCreate(o *procOp) bool { return o.op.Kind == tosca.Create || o.op.Kind == tosca.Create2 }

// tree explores all chains of up to three nested calls.
func (h *procHarness) tree(name string, t treeSpec) {
	base := stdProcWorld()
	h.parallel(name, len(t.first)*len(t.revs)*len(t.roots), func(w *engine.Worker, i int) {
		root := t.roots[i%len(t.roots)]
		i /= len(t.roots)
		rev := t.revs[i%len(t.revs)]
		o1 := &t.first[i/len(t.revs)]
		world := o1.world(base, pA)
		c := proc.Case{Rev: rev, World: world, Tx: tx(&pA, 0), Scripts: make([]proc.Script, 4)}
		if t.accessList {
			c.Tx.AccessList = []tosca.AccessTuple{{Address: pB, Keys: []tosca.Key{{31: 1}}}}
		}
		r := proc.Script{End: root, Use: 100, Ops: join(effects(0), []proc.Op{o1.op}, []proc.Op{{Op: proc.Store, A: 1, B: 99}})}
		if root != proc.Fail && root != proc.Error {
			r.Output = []byte{9}
		}
		c.Scripts[0] = r
		if !o1.runs {
			h.check(w, &c)
			return
		}
		for _, e1 := range endings(isCreate(o1)) {
			e1.Ops = effects(1)
			c.Scripts[1] = e1
			h.check(w, &c)
			for j := range t.second {
				o2 := &t.second[j]
				e1.Ops = join(effects(1), []proc.Op{o2.op}, []proc.Op{{Op: proc.Store, A: 1, B: 98}})
				c.Scripts[1] = e1
				if !o2.runs {
					h.check(w, &c)
					continue
				}
				for _, e2 := range endings(isCreate(o2)) {
					e2.Ops = effects(2)
					c.Scripts[2] = e2
					h.check(w, &c)
					for k := range t.third {
						o3 := &t.third[k]
						e2.Ops = join(effects(2), []proc.Op{o3.op})
						c.Scripts[2] = e2
						for _, e3 := range []proc.Outcome{proc.Succeed, proc.Fail} {
							c.Scripts[3] = proc.Script{Ops: effects(3), End: e3, Use: 7, Refund: 1}
							if e3 == proc.Fail {
								c.Scripts[3].Refund = 0
							}
							h.check(w, &c)
							if !o3.runs {
								break
							}
						}
					}
				}
			}
		}
	})
}

// sequence explores all pairs of calls made one after the other.
func (h *procHarness) sequence(name string, ops, ops2 []procOp, revs []tosca.Revision) {
	base := stdProcWorld()
	h.parallel(name, len(ops)*len(revs), func(w *engine.Worker, i int) {
		rev := revs[i%len(revs)]
		o1 := &ops[i/len(revs)]
		c := proc.Case{Rev: rev, World: o1.world(base, pA), Tx: tx(&pA, 0), Scripts: make([]proc.Script, 4)}
		e1s := endings(isCreate(o1))
		if !o1.runs {
			e1s = e1s[:1]
		}
		for _, e1 := range e1s {
			e1.Ops = effects(1)
			c.Scripts[1] = e1
			for j := range ops2 {
				o2 := ops2[j]
				o2.op.Input = []byte{2}
				e2s := endings(isCreate(&o2))
				if !o2.runs {
					e2s = e2s[:1]
				}
				for _, e2 := range e2s {
					e2.Ops = effects(2)
					c.Scripts[2] = e2
					c.Scripts[0] = proc.Script{Use: 100, Ops: join([]proc.Op{o1.op, o2.op}, effects(0))}
					h.check(w, &c)
				}
			}
		}
	})
}

func ops1() []procOp {
	return callOpsFor(pA, 1, []tosca.Address{pB, pA, pE, pG, {19: 4}, {19: 9}, {19: 10}, {19: 11}, proc.StateContract, pS, {}}, []uint64{0, 1, 5000},
		[]int64{-2000, 0, 30000}, []int{plain, hasNonce, hasCode, hasBalance, maxNonce})
}
func ops2() []procOp {
	return callOpsFor(pB, 2, []tosca.Address{pC, pA, pE, pG, {19: 4}, {19: 9}, proc.StateContract}, []uint64{0, 1, 5000}, []int64{-3000}, []int{plain})
}
func ops3() []procOp {
	return callOpsFor(pC, 3, []tosca.Address{pA, pB, pG, {19: 9}}, []uint64{0, 1}, []int64{-3000}, []int{plain})
}

func procFrames(h *procHarness) {
	deep := h.x.Thorough()
	h.tree("nested-2", treeSpec{first: ops1(), second: ops2(), revs: allRevs, roots: outcomes})
	h.tree("nested-2-access-list", treeSpec{first: ops1(), second: ops2()[:10], revs: allRevs, roots: outcomes[:2], accessList: true})
	revs := []tosca.Revision{tosca.R07_Istanbul, allRevs[len(allRevs)-1]}
	n3 := ops3()
	o1 := ops1()
	if deep {
		revs = allRevs
	} else {
		var f []procOp
		for _, o := range o1 {
			if o.runs && o.op.Gas == -2000 {
				f = append(f, o)
			}
		}
		o1 = f
	}
	h.tree("nested-3", treeSpec{first: o1, second: ops2(), third: n3, revs: revs, roots: outcomes[:2]})
	h.sequence("sequences", ops1(), engine.Pick(h.x, ops2(), ops1()), allRevs)
	h.txKinds()
	h.depth()
	h.deposit()
}

// txKinds explores the ways a transaction can call something directly.
func (h *procHarness) txKinds() {
	type target struct {
		to *tosca.Address
		w  func(*proc.World)
	}
	addrOf := func(a tosca.Address) *tosca.Address { return &a }
	created := proc.CreateAddress(tosca.Create, &tosca.CallParameters{Sender: pS}, 5)
	targets := []target{{&pA, nil}, {&pE, nil}, {&pG, nil}, {addrOf(tosca.Address{19: 2}), nil}, {addrOf(tosca.Address{19: 9}), nil}, {addrOf(tosca.Address{19: 10}), nil},
		{&pS, nil}, {addrOf(proc.StateContract), nil}, {nil, nil},
		{nil, func(w *proc.World) { w.SetNonce(created, 1) }}, {nil, func(w *proc.World) { w.SetCode(created, tosca.Code{1}) }}, {nil, func(w *proc.World) { w.SetBalance(created, val(5)) }}}
	values := []tosca.Value{{}, val(1), big256("999999999970000000"), big256("999999999970000001"), big256("1000000000000000001")}
	base := stdProcWorld()
	h.parallel("tx-targets", len(targets)*len(allRevs)*len(values)*2, func(w *engine.Worker, i int) {
		t := targets[i%len(targets)]
		i /= len(targets)
		rev := allRevs[i%len(allRevs)]
		i /= len(allRevs)
		v := values[i%len(values)]
		world := base
		if t.w != nil {
			world = with(base, t.w)
		}
		if i/len(values) == 1 {
			world = with(world, func(w *proc.World) { // a receiver whose balance could overflow
				if t.to != nil && *t.to != pS {
					w.SetBalance(*t.to, big256("0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"))
				}
				w.SetNonce(pS, ^uint64(0)-1)
			})
		}
		for _, e := range endings(t.to == nil) {
			for _, al := range [][]tosca.AccessTuple{nil, {}, {{Address: pG, Keys: []tosca.Key{{31: 1}, {31: 2}}}}} {
				e.Ops = effects(0)
				t1 := tx(t.to, 0)
				t1.Nonce = world.GetNonce(pS)
				t1.Value = v
				t1.AccessList = al
				h.check(w, &proc.Case{Rev: rev, World: world, Tx: t1, Scripts: []proc.Script{e}})
			}
		}
	})
}

// depth explores recursions down to and beyond the limit of the call depth.
func (h *procHarness) depth() {
	kinds := []tosca.CallKind{tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall, tosca.Create, tosca.Create2}
	base := stdProcWorld()
	h.parallel("depth", len(kinds)*2*2*len(allRevs), func(w *engine.Worker, i int) {
		k := kinds[i%len(kinds)]
		i /= len(kinds)
		end := outcomes[i%2]
		i /= 2
		v := uint64(i % 2)
		rev := allRevs[i/2]
		if v > 0 && (k == tosca.DelegateCall || k == tosca.StaticCall) {
			return
		}
		if !h.x.Thorough() && i/2%3 != 0 {
			return
		}
		o := proc.Op{Op: proc.DoCall, Kind: k, Target: pA, Value: val(v), Gas: -100, Input: []byte{0}}
		c := proc.Case{Rev: rev, Tx: tx(&pA, 0), World: with(base, func(w *proc.World) { w.SetBalance(pA, val(1000000)) }),
			Scripts: []proc.Script{{Ops: []proc.Op{{Op: proc.Store, A: 1, B: 3}, o}, End: end, Use: 1}}}
		h.check(w, &c)
	})
}

// deposit explores the deployment of code: gas, length and content around all
// boundaries.
func (h *procHarness) deposit() {
	lens := []int{0, 1, 2, 31, 32, 33, 255, 24575, 24576, 24577, 24578, 30000}
	firsts := []byte{0, 0xee, 0xef, 0xf0}
	deltas := []int64{-201, -200, -199, -1, 0, 1, 200, 5000}
	base := stdProcWorld()
	h.parallel("deposit", len(lens)*len(firsts)*len(deltas)*3*len(allRevs), func(w *engine.Worker, i int) {
		n := lens[i%len(lens)]
		i /= len(lens)
		f := firsts[i%len(firsts)]
		i /= len(firsts)
		d := deltas[i%len(deltas)]
		i /= len(deltas)
		how := i % 3
		rev := allRevs[i/3]
		out := make([]byte, n)
		if n > 0 {
			out[0] = f
		}
		left := int64(n)*200 + d
		if left < 0 {
			return
		}
		s := proc.Script{Use: 10, Output: out, Ops: effects(1), Refund: 77}
		c := proc.Case{Rev: rev, World: base, Tx: tx(nil, 0), Scripts: []proc.Script{s, s}}
		if how == 0 {
			c.Tx.GasLimit = tosca.Gas(53004 + left + 10)
		} else {
			k := tosca.Create
			if how == 2 {
				k = tosca.Create2
			}
			c.Tx = tx(&pA, 0)
			c.Scripts[0] = proc.Script{Ops: []proc.Op{{Op: proc.DoCall, Kind: k, Gas: left + 10, Input: []byte{1}}, {Op: proc.Store, A: 9, B: 9}}}
		}
		h.check(w, &c)
	})
}

// ------------------------------------------------------------- P20 atomicity

func procAtomic(h *procHarness) {
	h.asp = proc.Aspects{} // only the world, not gas and access status
	deep := h.x.Thorough()
	all := allRevs
	h.tree("nested-2", treeSpec{first: ops1(), second: ops2(), revs: all, roots: outcomes})
	// destruction of contracts within the tree
	var kill []procOp
	for _, t := range []tosca.Address{pA, pB, pG, pE} {
		kill = append(kill, procOp{op: proc.Op{Op: proc.Destruct, Target: t}})
	}
	h.tree("nested-destruct", treeSpec{first: append(kill, ops1()...), second: kill, revs: all, roots: outcomes})
	var f []procOp
	for _, o := range ops1() {
		if o.runs && (o.op.Gas == -2000 || deep) {
			f = append(f, o)
		}
	}
	h.tree("nested-3", treeSpec{first: f, second: ops2(), third: append(ops3(), kill...), revs: engine.Pick(h.x, []tosca.Revision{tosca.R09_Berlin, tosca.R12_Shanghai}, all), roots: outcomes[:2]})
	h.sequence("sequences", append(ops1(), kill...), append(ops2(), kill...), engine.Pick(h.x, someRevs(), all))
	h.txKinds()
	h.deposit()
	h.stateCalls("state-contract", !deep)
}

// ------------------------------------------------------ P22 precompiled calls

func procPrecompiles(h *procHarness) {
	base := stdProcWorld()
	kinds := []tosca.CallKind{tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall}
	var targets []tosca.Address
	for i := 0; i <= 18; i++ {
		targets = append(targets, tosca.Address{19: byte(i)})
	}
	for i := 0; i < 20; i++ {
		for _, b := range []byte{1, 4, 9, 10} {
			if i == 19 {
				continue
			}
			x, y := tosca.Address{}, tosca.Address{19: b}
			x[i], y[i] = b, 0x80
			targets = append(targets, x, y)
		}
	}
	lens := []int{0, 1, 31, 32, 33, 64, 65, 96, 127, 128, 191, 192, 193, 212, 213, 214, 384, 1000}
	if h.x.Thorough() {
		for i := 2; i < 420; i++ {
			lens = append(lens, i)
		}
		sort.Ints(lens)
	}
	costs := func(words int64) []int64 {
		return []int64{3000, 60 + 12*words, 600 + 120*words, 15 + 3*words, 200, 150, 6000, 45000, 45001, 1, 50000}
	}
	h.parallel("gas-and-input", len(targets)*len(lens)*len(allRevs), func(w *engine.Worker, i int) {
		t := targets[i%len(targets)]
		i /= len(targets)
		n := lens[i%len(lens)]
		rev := allRevs[i/len(lens)]
		in := make([]byte, n)
		for j := range in {
			in[j] = byte(j*7 + 1)
		}
		var gases []int64
		for _, g := range costs(int64((n + 31) / 32)) {
			gases = append(gases, g-1, g, g+1)
		}
		gases = append(gases, 0, -1000)
		if t != (tosca.Address{19: t[19]}) {
			gases = gases[len(gases)-3:]
		}
		for _, g := range gases {
			for _, k := range kinds {
				for _, v := range []uint64{0, 1} {
					if v > 0 && (k == tosca.StaticCall || k == tosca.DelegateCall) {
						continue
					}
					o := proc.Op{Op: proc.DoCall, Kind: k, Target: t, Value: val(v), Gas: g, Input: in}
					h.check(w, &proc.Case{Rev: rev, World: base, Tx: tx(&pA, 0), Scripts: []proc.Script{{Ops: []proc.Op{o, {Op: proc.Store, A: 5, B: 5}}}}})
				}
			}
		}
		// directly by a transaction
		for _, g := range gases {
			if g < 0 {
				g = 100000
			}
			tt := tx(&t, in...)
			need := int64(21000)
			for _, b := range in {
				if b == 0 {
					need += 4
				} else {
					need += 16
				}
			}
			tt.GasLimit = tosca.Gas(need + g)
			for _, al := range [][]tosca.AccessTuple{nil, {}} {
				tt.AccessList = al
				h.check(w, &proc.Case{Rev: rev, World: base, Tx: tt})
			}
		}
	})
	// precompiled contracts which also have an account with code or balance
	h.parallel("with-accounts", 12*len(allRevs), func(w *engine.Worker, i int) {
		n := byte(i % 12)
		rev := allRevs[i/12]
		a := tosca.Address{19: n}
		for _, f := range []func(*proc.World){func(w *proc.World) { w.SetCode(a, tosca.Code{1}) }, func(w *proc.World) { w.SetBalance(a, val(9)) }} {
			world := with(base, f)
			for _, k := range kinds {
				for _, kk := range kinds {
					for _, g := range []int64{-1000, 0, 14, 15, 18} {
						for _, v := range []uint64{0, 1} {
							if v > 0 && (kk == tosca.StaticCall || kk == tosca.DelegateCall) {
								continue
							}
							o := proc.Op{Op: proc.DoCall, Kind: kk, Target: a, Value: val(v), Gas: g, Input: []byte{3}}
							c := proc.Case{Rev: rev, World: world, Tx: tx(&pA, 0), Scripts: []proc.Script{
								{Ops: []proc.Op{{Op: proc.DoCall, Kind: k, Target: pB, Gas: -500, Input: []byte{2}}}},
								{Ops: effects(1)}, {Ops: []proc.Op{o}}, {Ops: effects(2)}}}
							h.check(w, &c)
						}
					}
				}
			}
		}
	})
}

// --------------------------------------------------------- P23 state contract

func procState(h *procHarness) { h.stateCalls("state-contract", false) }

func (h *procHarness) stateCalls(name string, small bool) {
	sel := func(s string) []byte { h := ref.Keccak([]byte(s)); return h[:4] }
	selectors := [][]byte{sel("setBalance(address,uint256)"), sel("copyCode(address,address)"), sel("swapCode(address,address)"),
		sel("setStorage(address,bytes32,bytes32)"), sel("incNonce(address,uint256)"), {1, 2, 3, 4}}
	word := func(a tosca.Address) []byte { return append(make([]byte, 12), a[:]...) }
	num := func(n uint64) []byte { w := ref.FromU64(n); return w[:] }
	accounts := []tosca.Address{pA, pE, pG, proc.Driver, pB, proc.StateContract, pS}
	var firsts, seconds [][]byte
	for _, a := range accounts {
		firsts = append(firsts, word(a))
	}
	dirty := word(pA)
	dirty[0] = 0xff // the upper bytes of addresses are ignored
	firsts = append(firsts, dirty)
	seconds = append(seconds, firsts...)
	for _, n := range []uint64{0, 1, 2, 255, 256, 257, 1 << 40} {
		seconds = append(seconds, num(n))
	}
	b264 := num(1)
	b264[23] = 1 // 2^64 + 1
	top := num(7)
	top[0] = 1
	seconds = append(seconds, b264, top)
	// length variants relative to the full argument list
	cuts := []int{0, -1, 1, -32, 32, -33, 64, -64}
	gases := []int64{0, 8999, 9000, 9001, 19999, 20000, 20001, 31999, 32000, 32202, 32203, 32609, 33000, 63999, 64000, 64101, 64406, 1000000}
	kinds := []tosca.CallKind{tosca.Call, tosca.CallCode, tosca.DelegateCall, tosca.StaticCall}
	base := with(stdProcWorld(), func(w *proc.World) {
		w.SetCode(pE, tosca.Code{4, 5, 6}) // inert code of three bytes
	})
	existing := with(base, func(w *proc.World) { w.SetCode(proc.StateContract, tosca.Code{3}) })
	worlds := []*proc.World{base, existing}
	n := len(selectors) * len(firsts) * len(seconds)
	h.parallel(name, n, func(w *engine.Worker, i int) {
		s := selectors[i%len(selectors)]
		i /= len(selectors)
		f := firsts[i%len(firsts)]
		sec := seconds[i/len(firsts)]
		full := append(append(append([]byte{}, s...), f...), sec...)
		if i%len(selectors) == 3 || s[0] == selectors[3][0] {
			full = append(full, num(77)...)
		}
		var inputs [][]byte
		for _, c := range cuts {
			l := len(full) + c
			if l < 0 {
				continue
			}
			b := append([]byte{}, full...)
			for len(b) < l {
				b = append(b, 0)
			}
			inputs = append(inputs, b[:l])
		}
		inputs = append(inputs, full[:3], full[:0], full[:4])
		for li, in := range inputs {
			for _, g := range gases {
				if li > 0 && g != 1000000 && (small || g%1000 != 0) {
					continue
				}
				// driver calls the contract; Driver runs script 2
				for _, wd := range worlds {
					if small && wd != base {
						continue
					}
					for _, k := range kinds {
						for _, outer := range []tosca.CallKind{tosca.Call, tosca.StaticCall} {
							for _, end := range outcomes[:2] {
								if (k != tosca.Call || outer != tosca.Call || end != proc.Succeed) && (li > 0 || g != 1000000) {
									continue
								}
								for _, v := range []uint64{0, 1} {
									if v > 0 && (k == tosca.StaticCall || k == tosca.DelegateCall || li > 0) {
										continue
									}
									o := proc.Op{Op: proc.DoCall, Kind: k, Target: proc.StateContract, Value: val(v), Gas: g, Input: in}
									c := proc.Case{Rev: allRevs[len(allRevs)-1], World: wd, Tx: tx(&pA, 0), Scripts: []proc.Script{
										{Ops: []proc.Op{{Op: proc.DoCall, Kind: outer, Target: proc.Driver, Gas: -500, Input: []byte{2}}}},
										{}, {Ops: []proc.Op{o}, End: end}, {Ops: effects(3)}}}
									if in != nil && len(in) > 0 && in[0] < 4 {
										c.Scripts = append(c.Scripts[:3], proc.Script{})
									}
									h.check(w, &c)
								}
							}
						}
					}
					if small {
						continue
					}
					// not the driver
					o := proc.Op{Op: proc.DoCall, Kind: tosca.Call, Target: proc.StateContract, Gas: g, Input: in}
					h.check(w, &proc.Case{Rev: tosca.R07_Istanbul, World: wd, Tx: tx(&pA, 0), Scripts: []proc.Script{{Ops: []proc.Op{o}}, {}, {}, {Ops: effects(3)}}})
				}
			}
		}
		if small {
			return
		}
		// transactions by the driver itself, if it is not a contract
		for _, rev := range allRevs {
			for _, in := range inputs[:3] {
				for _, from := range []tosca.Address{proc.Driver, pS} {
					wd := with(base, func(w *proc.World) {
						w.SetCode(proc.Driver, nil)
						w.SetBalance(proc.Driver, val(1<<40))
					})
					t := tx(&proc.StateContract, in...)
					t.Sender, t.Nonce = from, wd.GetNonce(from)
					h.check(w, &proc.Case{Rev: rev, World: wd, Tx: t})
				}
			}
		}
	})
}

// ------------------------------------------------------------ P19 transactions

func procTx(h *procHarness) {
	deep := h.x.Thorough()
	max := ^uint64(0)
	type acct struct {
		nonce uint64
		code  tosca.Code
	}
	nonces := [][2]uint64{{5, 5}, {4, 5}, {6, 5}, {0, 0}, {1, 0}, {max, max}, {max - 1, max - 1}, {max, 0}, {0, max}, {1 << 63, 1 << 63}, {1<<32 + 5, 5}}
	codes := []tosca.Code{nil, {1}, {0x60, 0x01}}
	senders := []tosca.Address{pS, {}, {19: 4}}
	addrOf := func(a tosca.Address) *tosca.Address { return &a }
	tos := []*tosca.Address{&pA, nil, &pE, &pG, &pS, addrOf(tosca.Address{19: 4})}
	type price struct {
		p, bal tosca.Value
		gas    tosca.Gas
	}
	m256 := big256("0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	prices := []price{
		{val(0), val(0), 100000}, {val(0), val(12), 100000}, {val(0), val(11), 100000},
		{val(1), val(100000), 100000}, {val(1), val(99999), 100000}, {val(1), val(100012), 100000}, {val(1), val(100011), 100000}, {val(1), val(100013), 100000},
		{val(1000000007), val(100000 * 1000000007), 100000}, {val(1000000007), val(100000*1000000007 - 1), 100000}, {val(1000000007), big256("0xffffffffffffffffffff"), 100000},
		{m256, m256, 1}, {m256, m256, 0}, {m256, m256, 2}, {m256, m256, 100000},
		{big256("0x8000000000000000000000000000000000000000000000000000000000000000"), m256, 2},
		{big256("0x1000000000000000000000000000000000000000000000000"), big256("0x1000000000000000000000000000000000000000000000000"), 1 << 62},
		{big256("0x100000000000000000000000000000000"), big256("0xffffffffffffffffffffffffffffffffffffffffffffff"), 100000},
		{val(max), big256("0xfffffffffffffffffffffffffffff"), 100000},
		{val(1 << 63), big256("0xfffffffffffffffffffffffffffff"), 1 << 40},
	}
	revs := engine.Pick(h.x, someRevs(), allRevs)
	// validity
	h.parallel("validity", len(nonces)*len(codes)*len(senders)*len(tos)*len(prices), func(w *engine.Worker, i int) {
		n := nonces[i%len(nonces)]
		i /= len(nonces)
		code := codes[i%len(codes)]
		i /= len(codes)
		from := senders[i%len(senders)]
		i /= len(senders)
		to := tos[i%len(tos)]
		p := prices[i/len(tos)]
		world := with(stdProcWorld(), func(w *proc.World) {
			w.SetNonce(pS, 0)
			w.SetBalance(pS, val(0))
			w.SetNonce(from, n[1])
			w.SetCode(from, code)
			w.SetBalance(from, p.bal)
		})
		for _, rev := range revs {
			for _, e := range endings(false)[:3] {
				t := tx(to, 0)
				t.Sender, t.Nonce, t.GasPrice, t.GasLimit = from, n[0], p.p, p.gas
				e.Ops = effects(0)
				h.check(w, &proc.Case{Rev: rev, World: world, Tx: t, Scripts: []proc.Script{e}})
			}
		}
	})
	// intrinsic gas: inputs, access lists, gas limits around the boundary
	inputs := [][]byte{nil, {0}, {1}, {0, 0, 1}, make([]byte, 33), {1, 2, 3, 0, 0}, make([]byte, 49151), make([]byte, 49152), make([]byte, 49153)}
	for i := 0; i < 256; i++ {
		inputs = append(inputs, []byte{byte(i)})
	}
	if deep {
		for n := 0; n < 64; n++ {
			for k := 0; k <= n; k += 3 {
				b := make([]byte, n)
				for j := 0; j < k; j++ {
					b[n-1-j] = 0x80
				}
				inputs = append(inputs, b)
			}
		}
	}
	lists := [][]tosca.AccessTuple{nil, {}, {{Address: pA}}, {{Address: pA, Keys: []tosca.Key{{}}}}, {{Address: pA, Keys: []tosca.Key{{1}, {2}}}, {Address: pA}, {Address: pG, Keys: []tosca.Key{{1}}}},
		{{Address: tosca.Address{}}, {Address: pS, Keys: []tosca.Key{{5}, {5}, {5}}}}}
	base := stdProcWorld()
	h.parallel("intrinsic-gas", len(inputs)*len(lists)*2, func(w *engine.Worker, i int) {
		in := inputs[i%len(inputs)]
		i /= len(inputs)
		al := lists[i%len(lists)]
		var to *tosca.Address
		need := int64(53000)
		if i/len(lists) == 0 {
			to, need = &pA, 21000
		}
		for _, b := range in {
			if b == 0 {
				need += 4
			} else {
				need += 16
			}
		}
		for _, t := range al {
			need += 2400 + 1900*int64(len(t.Keys))
		}
		for _, rev := range allRevs {
			for _, g := range []int64{0, 1, 20999, need - 1, need, need + 1, need + 5, need + 1000} {
				t := tx(to, in...)
				t.GasLimit, t.AccessList = tosca.Gas(g), al
				h.check(w, &proc.Case{Rev: rev, World: base, Tx: t, Scripts: []proc.Script{{Use: 3}, {Use: 3}}})
			}
		}
	})
	// gas settlement: gas left, refunds around the caps, all outcomes
	limits := []tosca.Gas{21016, 21017, 21025, 21026, 21027, 30000, 100000, 100009}
	refunds := []int64{0, 1, 100, 1 << 40}
	for _, l := range limits {
		for _, d := range []int64{2, 5} {
			for k := int64(-2); k <= 2; k++ {
				refunds = append(refunds, int64(l)/d+k, 21016/d+k, (21016+int64(l))/2/d+k)
			}
		}
	}
	uses := []int64{0, 1, 2, 9, 10, 11, 15, 19, 20, 21, 1000, 8984, 78984, 78985}
	h.parallel("settlement", len(limits)*len(refunds)*len(uses), func(w *engine.Worker, i int) {
		l := limits[i%len(limits)]
		i /= len(limits)
		r := refunds[i%len(refunds)]
		u := uses[i/len(refunds)]
		for _, rev := range allRevs {
			for _, from := range []tosca.Address{pS, {}, {0: 1}, {19: 1}} {
				for _, e := range outcomes {
					if e != proc.Succeed && r != 0 {
						continue
					}
					for _, to := range []*tosca.Address{&pA, nil} {
						t := tx(to, 1)
						wd := base
						if from != pS {
							wd = with(base, func(w *proc.World) { w.SetBalance(from, big256("1000000000000")) })
							t.Nonce = 0
						}
						t.Sender, t.GasLimit = from, l
						if to == nil {
							t.GasLimit += 32000
						}
						s := proc.Script{Use: u, Refund: r, End: e, Ops: effects(0)}
						h.check(w, &proc.Case{Rev: rev, World: wd, Tx: t, Scripts: []proc.Script{s, s}})
					}
				}
			}
		}
	})
	h.txKinds()
}
