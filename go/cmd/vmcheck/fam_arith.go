package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

// limbWords returns all words whose four 64-bit limbs come from the given set.
func limbWords(limbs []uint64) (res []ref.W) {
	n := len(limbs)
	for i := 0; i < n*n*n*n; i++ {
		var w ref.W
		k := i
		for l := 0; l < 4; l++ {
			v := limbs[k%n]
			k /= n
			for b := 0; b < 8; b++ {
				w[31-8*l-b] = byte(v >> (8 * b))
			}
		}
		res = append(res, w)
	}
	return
}

// special returns the words around powers of two and small values.
func special() (res []ref.W) {
	for _, v := range []uint64{0, 1, 2, 3, 7, 8, 31, 32, 33, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000} {
		res = append(res, ref.FromU64(v))
	}
	one := ref.FromU64(1)
	for _, bit := range []int{31, 32, 63, 64, 127, 128, 191, 192, 254, 255} {
		w := ref.ArithOp(0x1b, []ref.W{ref.FromU64(uint64(bit)), one})
		m := ref.ArithOp(0x03, []ref.W{w, one})
		p := ref.ArithOp(0x01, []ref.W{w, one})
		res = append(res, m, w, p, ref.ArithOp(0x03, []ref.W{{}, w}))
	}
	max := ref.ArithOp(0x19, []ref.W{{}})
	res = append(res, max, ref.ArithOp(0x03, []ref.W{max, one}), ref.ArithOp(0x03, []ref.W{{}, ref.FromU64(7)}))
	var pat ref.W
	for i := range pat {
		pat[i] = byte(0x81 + i*5)
	}
	return append(res, pat)
}

func arithCase(op byte, args []ref.W) *engine.Case {
	var code []byte
	for i := len(args) - 1; i >= 0; i-- {
		code = append(code, engine.Push32(args[i])...)
	}
	code = append(code, op)
	// return the result and the stack element below it (none): MSTORE and RETURN
	code = append(code, engine.RetTop(1)...)
	return &engine.Case{Rev: tosca.R07_Istanbul, Gas: 100000, Code: code}
}

var binOps = []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x0a, 0x0b, 0x1a, 0x1b, 0x1c, 0x1d}

func init() {
	checks["P01"] = check{"lfvm,evmzero,evmrs-all", runArith}
}

func runArith(x *engine.Explorer) {
	sp := special()
	x.Extra("operand_alphabet", len(sp))
	// 1. all pairs of special words, all binary operations
	x.Parallel("binary-special", len(sp)*len(sp), func(w *engine.Worker, i int) {
		for _, op := range binOps {
			c := arithCase(op, []ref.W{sp[i/len(sp)], sp[i%len(sp)]})
			w.Check(c)
		}
	})
	// 2. all unary
	x.Parallel("unary", len(sp), func(w *engine.Worker, i int) {
		for _, op := range []byte{0x15, 0x19} {
			w.Check(arithCase(op, []ref.W{sp[i]}))
		}
	})
	// 3. limb-exhaustive pairs
	lw := limbWords([]uint64{0, 1, 1<<64 - 1})
	lw2 := lw
	if x.Thorough() {
		lw2 = limbWords([]uint64{0, 1, 1 << 63, 1<<64 - 1})
	}
	ops := []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x0a}
	x.Parallel("binary-limbs", len(lw2)*len(lw2), func(w *engine.Worker, i int) {
		for _, op := range ops {
			w.Check(arithCase(op, []ref.W{lw2[i/len(lw2)], lw2[i%len(lw2)]}))
		}
	})
	// 4. modular arithmetic: triples
	tr := sp
	if !x.Thorough() {
		tr = sp[:0:0]
		for i := 0; i < len(sp); i += 2 {
			tr = append(tr, sp[i])
		}
		tr = append(tr, sp[len(sp)-3:]...)
	}
	x.Parallel("modular", len(tr)*len(tr), func(w *engine.Worker, i int) {
		for _, m := range tr {
			for _, op := range []byte{0x08, 0x09} {
				w.Check(arithCase(op, []ref.W{tr[i/len(tr)], tr[i%len(tr)], m}))
			}
		}
	})
	// 5. shifts, BYTE and SIGNEXTEND with all indices
	x.Parallel("indexed", 300, func(w *engine.Worker, i int) {
		for _, v := range sp {
			for _, op := range []byte{0x0b, 0x1a, 0x1b, 0x1c, 0x1d} {
				w.Check(arithCase(op, []ref.W{ref.FromU64(uint64(i)), v}))
			}
		}
	})
	// 5b. SIGNEXTEND and BYTE on all words with a single distinguished byte
	x.Parallel("indexed-bytes", 33*32, func(w *engine.Worker, i int) {
		for _, bg := range []byte{0, 0xff, 0x7f} {
			for _, b := range []byte{0x00, 0x7f, 0x80, 0xff} {
				var v ref.W
				for k := range v {
					v[k] = bg
				}
				v[i%32] = b
				for _, op := range []byte{0x0b, 0x1a} {
					w.Check(arithCase(op, []ref.W{ref.FromU64(uint64(i / 32)), v}))
				}
			}
		}
	})
	// 6. small exhaustive: all 6-bit signed and unsigned pairs
	n := Pick3(x, 24, 64)
	x.Parallel("binary-small", (2*n)*(2*n), func(w *engine.Worker, i int) {
		a, b := small(i/(2*n), n), small(i%(2*n), n)
		for _, op := range binOps {
			w.Check(arithCase(op, []ref.W{a, b}))
		}
	})
	// 7. EXP with all small exponents, and exponents with one byte set, incl. gas
	x.Parallel("exp", len(sp), func(w *engine.Worker, i int) {
		for e := 0; e < 300; e++ {
			w.Check(arithCase(0x0a, []ref.W{sp[i], ref.FromU64(uint64(e))}))
		}
		for by := 0; by < 32; by++ {
			var e ref.W
			e[by] = byte(1 + by)
			c := arithCase(0x0a, []ref.W{sp[i], e})
			c.Sweep = true
			w.Check(c)
		}
	})
	x.Sample("PUSH32 2^255 PUSH32 -1 SDIV PUSH1 0 MSTORE PUSH1 32 PUSH1 0 RETURN")
}

// Pick3 is engine.Pick for ints.
func Pick3(x *engine.Explorer, q, t int) int { return engine.Pick(x, q, t) }

func small(i, n int) ref.W {
	if i < n {
		return ref.FromU64(uint64(i))
	}
	return ref.ArithOp(0x03, []ref.W{{}, ref.FromU64(uint64(i - n + 1))})
}
