package main

import (
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/proc"
	"verif/ref"
)

// P24: processor and interpreters together execute transactions on contracts
// of real bytecode.

func init() {
	checks["P24"] = check{"lfvm,evmzero,evmrs", runE2E}
}

// refInterpreter executes code with the reference EVM.
type refInterpreter struct {
	steps int64
	trace *[]int64
}

func (r *refInterpreter) Run(p tosca.Parameters) (tosca.Result, error) {
	s := ref.New(&p)
	if p.Depth == 0 {
		s.GasTrace = r.trace
	}
	res := s.Run(1 << 20)
	r.steps += int64(s.Steps)
	return res, nil
}

type e2ePiece struct {
	name string
	code []byte // leaves one word on the stack
	call bool   // reaches the other contract
}

func e2ePieces(other tosca.Address, inner bool) (res []e2ePiece) {
	add := func(name string, call bool, parts ...any) {
		res = append(res, e2ePiece{name, engine.Asm(parts...), call})
	}
	u := ref.FromU64
	call := func(op byte, to tosca.Address, value, gas uint64) []byte {
		c := engine.Asm(u(32), u(0), u(33), u(3)) // output 0..32, input 3..36
		if op == 0xf1 || op == 0xf2 {
			c = append(c, engine.Push(value)...)
		}
		return engine.Asm(c, to, u(gas), op, 0x3d, 0x01) // + RETURNDATASIZE
	}
	add("sstore-new", false, u(5), u(2), 0x55, u(2))
	add("sstore-clear", false, u(0), u(1), 0x55, u(1))
	add("sstore-calldata", false, 0x5a, u(1), 0x55, u(3))
	add("sload", false, u(1), 0x54)
	add("env", false, 0x33, 0x34, 0x01, 0x30, 0x01, 0x32, 0x01, 0x47, 0x01)
	add("input", false, u(1), 0x35, 0x36, 0x01)
	add("log", false, u(7), u(40), u(0), 0xa1, u(4))
	add("account", false, other, 0x31, other, 0x3f, 0x01, other, 0x3b, 0x01)
	add("void-account", false, pG, 0x31, pG, 0x3f, 0x01, pG, 0x3b, 0x01)
	add("call", true, call(0xf1, other, 0, 1<<40))
	add("call-value", true, call(0xf1, other, 1, 1<<40))
	add("call-limited", true, call(0xf1, other, 0, 2600))
	add("call-too-much-value", true, call(0xf1, other, 100000, 1<<40))
	add("callcode-value", true, call(0xf2, other, 1, 1<<40))
	add("delegatecall", true, call(0xf4, other, 0, 1<<40))
	add("staticcall", true, call(0xfa, other, 0, 1<<40))
	add("call-void-value", false, call(0xf1, pG, 1, 1<<40))
	add("call-identity", false, 0x30, u(4), 0x52, call(0xf1, tosca.Address{19: 4}, 0, 1<<40))
	add("delegate-identity", false, call(0xf4, tosca.Address{19: 4}, 0, 1000))
	add("call-blake-value", false, call(0xf1, tosca.Address{19: 9}, 1, 20000))
	add("returndata", false, 0x3d, u(0), u(64), 0x3e, u(64), 0x51)
	add("returndata-too-much", false, u(1), 0x3d, u(64), 0x3e, u(64), 0x51)
	// init codes: PUSH1 n PUSH1 0 RETURN deploys zeros; with a store; reverting; invalid; calling back
	initCodes := []struct {
		name string
		c    []byte
	}{
		{"ok", engine.Asm(u(9), u(1), 0x55, u(3), u(0), 0xf3)},
		{"revert", engine.Asm(u(9), u(1), 0x55, u(3), u(0), 0xfd)},
		{"ef", engine.Asm(u(0xef), u(0), 0x53, u(1), u(0), 0xf3)},
		{"huge", engine.Asm(engine.PushW(u(24577)), u(0), 0xf3)},
		{"input", engine.Asm(0x36, u(0), 0x55, 0x38, u(1), 0x55)}, // CALLDATASIZE, CODESIZE
	}
	for _, ic := range initCodes {
		w := ref.W{}
		copy(w[:], ic.c)
		for _, op := range []byte{0xf0, 0xf5} {
			if inner && (ic.name != "ok" || op == 0xf5) && ic.name != "revert" {
				continue
			}
			c := engine.Asm(engine.Push32(w), u(64), 0x52)
			if op == 0xf5 {
				c = append(c, engine.Push(6)...)
			}
			v := uint64(0)
			if ic.name == "ok" || ic.name == "revert" {
				v = 1
			}
			add(fmt.Sprintf("create%x-%s", op, ic.name), false, c, u(uint64(len(ic.c))), u(64), u(v), op, 0x80, 0x31, 0x3d, 0x01, 0x01)
		}
	}
	// creation of a contract by the other's code, followed by a call of it
	w := ref.W{}
	copy(w[:], engine.Asm(u(0x30), u(0), 0x53, u(0xff), u(1), 0x53, u(2), u(0), 0xf3)) // deploys ADDRESS SELFDESTRUCT
	add("create-kill", false, engine.Push32(w), u(64), 0x52, u(18), u(64), u(2), 0xf0,
		u(0), u(0), u(0), u(0), u(0), 0x85, 0x5a, 0xf1, 0x01)
	add("transient", false, u(1), 0x5c, u(9), u(1), 0x5d)
	add("mcopy", false, u(32), u(3), u(70), 0x5e, u(64), 0x51)
	add("mem", false, 0x58, u(0x1000), 0x52, 0x59)
	return
}

// endings of the bytecode: n words are on the stack
func e2eEndings(n int) [][]byte {
	ret := engine.RetTop(n)
	rev := append(append([]byte{}, ret[:len(ret)-1]...), 0xfd)
	return [][]byte{ret, rev, {0xfe}, engine.Asm(pE, 0xff), {0x00}}
}

func e2eWorld(a, b []byte) *proc.World {
	w := &proc.World{}
	w.SetBalance(pS, big256("1000000000000000000"))
	w.SetNonce(pS, 5)
	w.SetCode(pA, a)
	w.SetNonce(pA, 1)
	w.SetBalance(pA, val(1000))
	w.InitStorage(pA, tosca.Key{31: 1}, tosca.Word{31: 7})
	w.SetCode(pB, b)
	w.SetNonce(pB, 1)
	w.SetBalance(pB, val(30))
	w.InitStorage(pB, tosca.Key{31: 1}, tosca.Word{31: 7})
	w.SetBalance(pE, val(3))
	return w
}

type e2e struct {
	x    *engine.Explorer
	mk   tosca.ProcessorFactory
	name string
	envs []proc.Env
	refs []refInterpreter
	proc [][]tosca.Processor
}

// run checks one transaction on all interpreters; with sweep also at the gas
// limits at which a charge of the outermost frame may fail.
func (h *e2e) run(w *engine.Worker, c *proc.Case, sweep bool) {
	e, r := &h.envs[w.ID], &h.refs[w.ID]
	trace := []int64{}
	r.trace = nil
	if sweep {
		r.trace = &trace
	}
	h.one(w, c, e, r)
	if !sweep {
		return
	}
	r.trace = nil
	limit := c.Tx.GasLimit
	base := int64(21000)
	if c.Tx.Recipient == nil {
		base = 53000
	}
	for _, b := range c.Tx.Input {
		if b == 0 {
			base += 4
		} else {
			base += 16
		}
	}
	seen := map[int64]bool{}
	for _, t := range trace {
		for _, g := range []int64{t - 1, t} {
			if g >= 0 && base+g < int64(limit) && !seen[g] {
				seen[g] = true
				c.Tx.GasLimit = tosca.Gas(base + g)
				h.one(w, c, e, r)
			}
		}
	}
	c.Tx.GasLimit = limit
}

func (h *e2e) one(w *engine.Worker, c *proc.Case, e *proc.Env, r *refInterpreter) {
	r.steps = 0
	want, _ := e.Expect(c, r)
	w.BeginNote(func() string {
		return string(c.Describe()) + fmt.Sprintf(" %x %x", c.World.GetCode(pA), c.World.GetCode(pB))
	})
	if want.Success {
		h.x.NonTrivial.Add(1)
	}
	for i, p := range h.proc[w.ID] {
		what, wa, got := func() (what, want1, got string) {
			defer func() {
				if r := recover(); r != nil {
					what = fmt.Sprint("panic: ", r)
				}
			}()
			return e.Compare(c, p, want)
		}()
		if what != "" {
			d := *c
			d.Scripts = nil
			h.x.Report(engine.Finding{VM: h.name + "/" + h.x.VMs[i].Name, Family: w.Family, What: what, Want: wa, Got: got,
				Case: c.DescribeCode(c.World.GetCode(pA), c.World.GetCode(pB))})
		}
	}
	w.End()
	w.Count(1, r.steps, int64(len(h.x.VMs)))
}

func runE2E(x *engine.Explorer) {
	x.Workers = 8
	newE2E(x, "floria").explore()
}

func newE2E(x *engine.Explorer, name string) *e2e {
	h := &e2e{x: x, mk: tosca.GetProcessorFactory(name), name: name, envs: make([]proc.Env, 8), refs: make([]refInterpreter, 8)}
	if h.mk == nil {
		fatal("cannot load implementation " + name)
	}
	for i := 0; i < 8; i++ {
		var ps []tosca.Processor
		for _, v := range x.VMs {
			ps = append(ps, h.mk(v.I))
		}
		h.proc = append(h.proc, ps)
	}
	return h
}

func (h *e2e) explore() {
	x := h.x
	deep := x.Thorough()
	pa, pb := e2ePieces(pB, false), e2ePieces(pA, true)
	revs := allRevs

	mkTx := func(input ...byte) tosca.Transaction {
		return tosca.Transaction{Sender: pS, Recipient: &pA, Nonce: 5, Input: input, Value: val(12), GasLimit: 400_000, GasPrice: val(3)}
	}
	// single pieces with a sweep over the gas limits
	x.Parallel("single-gas", len(pa)*len(revs)*2, func(w *engine.Worker, i int) {
		rev := revs[i%len(revs)]
		i /= len(revs)
		create := i%2 == 1
		p := pa[i/2]
		for _, end := range e2eEndings(1) {
			for _, bEnd := range e2eEndings(1)[:3] {
				a := engine.Asm(p.code, end)
				b := engine.Asm(0x34, u2(9), u2(2), 0x55, bEnd)
				c := proc.Case{Rev: rev, World: e2eWorld(a, b), Tx: mkTx(1, 0, 2)}
				if create {
					c.Tx.Recipient, c.Tx.Input = nil, a
					c.World = e2eWorld([]byte{0}, b)
				}
				h.run(w, &c, true)
				if !p.call {
					break
				}
			}
		}
	})
	// A: two pieces of which one reaches B, B: one piece, all endings
	type prog struct {
		code []byte
		call bool
	}
	var as []prog
	for _, p := range pa {
		for _, q := range pa {
			for k, end := range e2eEndings(2) {
				if k > 2 && !deep {
					continue
				}
				as = append(as, prog{engine.Asm(p.code, q.code, end), p.call || q.call})
			}
		}
	}
	var bs [][]byte
	for _, p := range pb {
		for k, end := range e2eEndings(1) {
			if k > 3 {
				continue
			}
			bs = append(bs, engine.Asm(p.code, end))
		}
	}
	rs := engine.Pick(x, someRevs(), allRevs)
	x.Parallel("two-contracts", len(as)*len(rs), func(w *engine.Worker, i int) {
		rev := rs[i%len(rs)]
		a := as[i/len(rs)]
		for k, b := range bs {
			if !deep && a.call && (k+i)%4 != 0 { // a quarter of the pairs per revision
				continue
			}
			c := proc.Case{Rev: rev, World: e2eWorld(a.code, b), Tx: mkTx(1, 0, 2)}
			h.run(w, &c, false)
			if !a.call {
				break
			}
		}
	})
	// B: two pieces, A a single call
	x.Parallel("deep-callee", len(pb)*len(pb)*len(revs), func(w *engine.Worker, i int) {
		rev := revs[i%len(revs)]
		i /= len(revs)
		q1, q2 := pb[i%len(pb)], pb[i/len(pb)]
		for k, end := range e2eEndings(2) {
			b := engine.Asm(q1.code, q2.code, end)
			for j, p := range pa {
				if !p.call || !deep && (j+k)%3 != 0 {
					continue
				}
				c := proc.Case{Rev: rev, World: e2eWorld(engine.Asm(p.code, u2(1), 0x54, e2eEndings(2)[0]), b), Tx: mkTx(1, 0, 2)}
				if (j+k)%3 == 0 {
					c.Tx.AccessList = []tosca.AccessTuple{{Address: pB, Keys: []tosca.Key{{31: 1}}}}
				}
				h.run(w, &c, false)
			}
		}
	})
	cov := map[string]int64{}
	for i := range h.envs {
		for k, v := range h.envs[i].Cov {
			cov[k] += v
		}
	}
	x.Extra("model_branches_bytecode", cov)
}

func u2(n uint64) ref.W { return ref.FromU64(n) }
