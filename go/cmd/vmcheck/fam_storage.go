package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P06"] = check{"lfvm,evmzero,evmrs-all", runStorage}
}

func slotWorld(orig, cur, trans, other uint64, warm bool) *engine.WorldSpec {
	w := engine.StdWorld
	w.Slots = []engine.Slot{
		{Addr: engine.Self, Key: tosca.Key(ref.FromU64(0)), Orig: tosca.Word(ref.FromU64(orig)), Cur: tosca.Word(ref.FromU64(cur)), Trans: tosca.Word(ref.FromU64(trans)), Warm: warm},
		{Addr: engine.Self, Key: tosca.Key(ref.FromU64(1)), Orig: tosca.Word(ref.FromU64(other)), Cur: tosca.Word(ref.FromU64(other))},
		// the same keys of other accounts must never be touched
		{Addr: engine.Caller, Key: tosca.Key(ref.FromU64(0)), Orig: tosca.Word(ref.FromU64(0x77)), Cur: tosca.Word(ref.FromU64(0x78)), Trans: tosca.Word(ref.FromU64(0x79))},
		{Addr: engine.Rich, Key: tosca.Key(ref.FromU64(0)), Orig: tosca.Word(ref.FromU64(0x99)), Cur: tosca.Word(ref.FromU64(0x99))},
	}
	return &w
}

// storageOps is the instruction alphabet of the histories: loads leave their
// value on the stack.
func storageOps(rev tosca.Revision) (ops [][]byte) {
	for _, k := range []byte{0, 1} {
		for _, v := range []byte{0, 1, 2} {
			ops = append(ops, []byte{0x60, v, 0x60, k, 0x55})
		}
		ops = append(ops, []byte{0x60, k, 0x54})
	}
	if rev >= tosca.R13_Cancun {
		for _, v := range []byte{0, 1} {
			ops = append(ops, []byte{0x60, v, 0x60, 0, 0x5d})
		}
		ops = append(ops, []byte{0x60, 0, 0x5c}, []byte{0x60, 1, 0x5c})
	}
	// a nested call that changes the storage
	ops = append(ops, engine.Asm(0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, engine.Rich, 0x61, 0x10, 0, 0xf1, 0x50))
	return
}

func loads(code []byte) (n int) {
	for i := 0; i < len(code); i++ {
		switch c := code[i]; {
		case c == 0x54 || c == 0x5c:
			n++
		case c >= 0x60 && c <= 0x7f:
			i += int(c - 0x5f)
		}
	}
	return
}

func runStorage(x *engine.Explorer) {
	deep := x.Thorough()
	depth := engine.Pick(x, 4, 5)
	// 1. all histories of storage instructions up to a length, for every
	// original and current value, cold and warm, in every revision
	type cfg struct {
		rev       tosca.Revision
		orig, cur uint64
		warm      bool
	}
	var cfgs []cfg
	for rev := tosca.Revision(0); rev < nRevs; rev++ {
		for o := uint64(0); o < 3; o++ {
			for c := uint64(0); c < 3; c++ {
				for _, wm := range []bool{false, true} {
					if wm && rev == 0 {
						continue
					}
					if !wm && o != c && rev > 0 {
						continue // not reachable: a change makes the slot warm
					}
					cfgs = append(cfgs, cfg{rev, o, c, wm})
				}
			}
		}
	}
	x.Extra("history_length", depth)
	x.Extra("configurations", len(cfgs))
	for d := 1; d <= depth; d++ {
		name := []string{"", "histories-1", "histories-2", "histories-3", "histories-4", "histories-5"}[d]
		ops := make([][][]byte, nRevs)
		for r := range ops {
			ops[r] = storageOps(tosca.Revision(r))
		}
		outer := 1
		if d > 1 {
			outer = len(ops[nRevs-1])
		}
		x.Parallel(name, len(cfgs)*outer, func(w *engine.Worker, i int) {
			cf := cfgs[i/outer]
			alpha := ops[cf.rev]
			if i%outer >= len(alpha) {
				return
			}
			// at the deepest level, revisions between the ones that changed
			// the rules are left to the shorter histories
			if d == depth && !(cf.rev == tosca.R07_Istanbul || cf.rev == tosca.R09_Berlin || cf.rev == tosca.R10_London || cf.rev == tosca.R13_Cancun) {
				return
			}
			if d >= 4 && (cf.warm || cf.orig != cf.cur) {
				return
			}
			world := slotWorld(cf.orig, cf.cur, 0, 1, cf.warm)
			world.Script = []engine.Resp{{Success: true, Mutate: true, Refund: 7}}
			var rec func(code []byte, left int)
			rec = func(code []byte, left int) {
				if left > 0 {
					for _, o := range alpha {
						rec(append(code[:len(code):len(code)], o...), left-1)
					}
					return
				}
				full := append(code[:len(code):len(code)], 0x5a)
				full = append(full, engine.RetTop(loads(code)+1)...)
				w.Check(&engine.Case{Rev: cf.rev, Gas: 200_000, Code: full, World: world, Sweep: d <= 2 || deep && d <= 3})
			}
			if d == 1 {
				rec(nil, 1)
			} else {
				rec(alpha[i%outer], d-1)
			}
		})
	}
	// refunds survive exactly the executions that succeed
	endings := [][]byte{{0x00}, {0x60, 0, 0x60, 0, 0xf3}, {0x60, 0, 0x60, 0, 0xfd}, {0x60, 33, 0x60, 0, 0xfd}, {0xfe}, {0x50, 0x50, 0x50, 0x50}, {0x60, 9, 0x56}, engine.Asm(engine.Rich, 0xff)}
	x.Parallel("endings", len(cfgs), func(w *engine.Worker, i int) {
		cf := cfgs[i]
		world := slotWorld(cf.orig, cf.cur, 0, 1, cf.warm)
		world.Script = []engine.Resp{{Success: true, Mutate: true, Refund: 7}}
		alpha := storageOps(cf.rev)
		for _, o := range alpha {
			for _, q := range append(alpha[:len(alpha):len(alpha)], nil) {
				for _, e := range endings {
					w.Check(&engine.Case{Rev: cf.rev, Gas: 200_000, Code: engine.Asm(o, q, e), World: world})
				}
			}
		}
	})
	// 2. the exact gas around the stipend limit for every cost of a store
	x.Parallel("stipend", nRevs*27, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		for _, wm := range []bool{false, true} {
			if !wm && i%3 != i/3%3 && rev > 0 {
				continue
			}
			world := slotWorld(uint64(i%3), uint64(i/3%3), 0, 0, wm)
			for g := int64(2290); g < 2330; g++ {
				w.Check(&engine.Case{Rev: rev, Gas: g, Code: []byte{0x60, byte(i / 9), 0x60, 0, 0x55}, World: world})
			}
			for _, cost := range []int64{100, 800, 2100, 2200, 2900, 5000, 20000, 22100} {
				for g := cost; g < cost+12; g++ {
					w.Check(&engine.Case{Rev: rev, Gas: g, Code: []byte{0x60, byte(i / 9), 0x60, 0, 0x55}, World: world})
				}
			}
		}
	})
	// 3. keys and values of every shape, loads and stores, persistent and transient
	keys := []ref.W{{}, maxWord, engine.AddrWord(engine.Self)}
	for n := 0; n < 256; n += 5 {
		keys = append(keys, pow2(n, 0))
	}
	var distinct ref.W
	for k := range distinct {
		distinct[k] = byte(k*7 + 1)
	}
	keys = append(keys, distinct)
	x.Parallel("words", len(keys)*len(keys), func(w *engine.Worker, i int) {
		k, v := keys[i%len(keys)], keys[i/len(keys)]
		for _, st := range [][2]byte{{0x55, 0x54}, {0x5d, 0x5c}, {0x55, 0x5c}, {0x5d, 0x54}} {
			code := engine.Asm(v, k, st[0], k, st[1], ref.FromU64(3), st[1])
			code = append(code, engine.RetTop(2)...)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: 200_000, Code: code})
		}
	})
	x.Sample("SSTORE(0,2); CALL(changes storage); SSTORE(0,0); return GAS - with original 1, current 2, cold")
}
