package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P04"] = check{"lfvm,evmzero,evmrs-all", runMem}
}

// fill puts a recognisable pattern into the first 96 bytes of memory.
func fill() (code []byte) {
	for i := 0; i < 3; i++ {
		var w ref.W
		for k := range w {
			w[k] = byte(i*32 + k + 1)
		}
		code = append(code, engine.Push32(w)...)
		code = append(code, 0x60, byte(32*i), 0x52)
	}
	return
}

// dumpMem returns MSIZE (as the first word after the first n bytes) and the
// memory content.
func dumpMem(n int) (code []byte) {
	code = append(code, 0x59)
	code = append(code, engine.Push(uint64(n))...)
	code = append(code, 0x52)
	code = append(code, engine.Push(uint64(n+32))...)
	return append(code, 0x60, 0x00, 0xf3)
}

func offsets(x *engine.Explorer) (res []ref.W) {
	for _, v := range []uint64{0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 255, 256, 1023, 1024} {
		res = append(res, ref.FromU64(v))
	}
	if x.Thorough() {
		for _, v := range []uint64{2, 3, 15, 30, 34, 62, 66, 94, 98, 127, 129, 160, 512, 992, 2047, 2048, 4095} {
			res = append(res, ref.FromU64(v))
		}
	}
	return res
}

func extremes() (res []ref.W) {
	one := ref.FromU64(1)
	for _, n := range []int{20, 31, 32, 37, 62, 63, 64, 128, 255} {
		w := pow2(n, 0)
		res = append(res, w, ref.ArithOp(0x03, []ref.W{w, one}), ref.ArithOp(0x03, []ref.W{w, ref.FromU64(32)}), ref.ArithOp(0x01, []ref.W{w, ref.FromU64(31)}))
	}
	m := ref.ArithOp(0x19, []ref.W{{}})
	return append(res, m, ref.ArithOp(0x03, []ref.W{m, ref.FromU64(31)}))
}

const memGas = 3_000_000

func runMem(x *engine.Explorer) {
	offs := offsets(x)
	exts := extremes()
	all := append(append([]ref.W{}, offs...), exts...)
	x.Extra("offset_alphabet", len(all))
	input := make([]byte, 77)
	for i := range input {
		input[i] = byte(0x80 + i)
	}
	pre := fill()
	// 1. single operand accesses at every offset
	x.Parallel("load-store", len(all), func(w *engine.Worker, i int) {
		for _, op := range []byte{0x51, 0x52, 0x53, 0x35} {
			for _, val := range []ref.W{{}, pow2(255, 0x1ff)} {
				code := append([]byte{}, pre...)
				if op == 0x52 || op == 0x53 {
					code = append(code, engine.Push32(val)...)
				}
				code = append(code, engine.PushW(all[i])...)
				code = append(code, op)
				if op == 0x51 || op == 0x35 {
					code = append(code, engine.RetTop(1)...)
				} else {
					code = append(code, dumpMem(160)...)
				}
				c := &engine.Case{Rev: tosca.R13_Cancun, Gas: memGas, Code: code, Input: input, Sweep: i < 24}
				w.Check(c)
				// twice, on an expanded memory
				c2 := *c
				c2.Code = append(engine.Asm(0x60, 0x01, 0x61, 0x03, 0x00, 0x52), code...)
				c2.Sweep = false
				w.Check(&c2)
			}
		}
	})
	// 2. two operand regions: KECCAK256, RETURN, REVERT, LOG, CREATE
	x.Parallel("regions", len(all)*len(all), func(w *engine.Worker, i int) {
		o, n := all[i/len(all)], all[i%len(all)]
		for _, op := range []byte{0x20, 0xf3, 0xfd, 0xa0, 0xa1, 0xf0} {
			code := append([]byte{}, pre...)
			if op == 0xa1 {
				code = append(code, engine.Push32(pow2(200, 5))...)
			}
			code = append(code, engine.PushW(n)...)
			code = append(code, engine.PushW(o)...)
			if op == 0xf0 {
				code = append(code, 0x60, 0x00)
			}
			code = append(code, op)
			if op == 0x20 || op == 0xf0 {
				code = append(code, 0x59)
				code = append(code, engine.RetTop(2)...)
			} else {
				code = append(code, dumpMem(160)...)
			}
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: memGas, Code: code, Input: input})
		}
	})
	// 3. three operand copies
	src := append(append([]ref.W{}, offs...), exts[len(exts)-12:]...)
	src = append(src, ref.FromU64(76), ref.FromU64(77), ref.FromU64(78), ref.FromU64(45))
	x.Parallel("copies", len(src)*len(src), func(w *engine.Worker, i int) {
		d, s := src[i/len(src)], src[i%len(src)]
		for _, n := range src {
			for _, op := range []byte{0x37, 0x39, 0x3c, 0x5e, 0x3e} {
				code := append([]byte{}, pre...)
				if op == 0x3e {
					// obtain 64 bytes of return data from a call
					code = append(code, engine.Asm(0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, engine.Rich, 0x5a, 0xfa, 0x50)...)
				}
				code = append(code, engine.PushW(n)...)
				code = append(code, engine.PushW(s)...)
				code = append(code, engine.PushW(d)...)
				if op == 0x3c {
					code = append(code, engine.Asm(engine.Rich)...)
				}
				code = append(code, op)
				code = append(code, dumpMem(192)...)
				w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: memGas, Code: code, Input: input, World: &ret64})
			}
		}
	})
	// 4. MCOPY overlaps: all small triples
	n := Pick3(x, 12, 36)
	x.Parallel("mcopy-overlap", n*n, func(w *engine.Worker, i int) {
		for l := 0; l < n+30; l += 3 {
			code := append([]byte{}, pre...)
			code = append(code, 0x60, byte(l), 0x60, byte(i/n*3), 0x60, byte(i%n*3), 0x5e)
			code = append(code, dumpMem(192)...)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: memGas, Code: code, Sweep: l < 9})
		}
	})
	// 5. sequences of memory operations
	toks := [][]byte{
		engine.Asm(0x60, 0xab, 0x60, 0x00, 0x52), engine.Asm(0x60, 0xcd, 0x60, 0x21, 0x53), engine.Asm(0x60, 0x1f, 0x51, 0x50), engine.Asm(0x60, 0x40, 0x51, 0x60, 0x05, 0x52),
		engine.Asm(0x60, 0x09, 0x60, 0x02, 0x60, 0x3c, 0x37), engine.Asm(0x60, 0x21, 0x60, 0x00, 0x60, 0x11, 0x39), engine.Asm(0x60, 0x25, 0x60, 0x03, 0x60, 0x08, 0x5e),
		engine.Asm(0x60, 0x30, 0x60, 0x07, 0x20, 0x60, 0x10, 0x52), engine.Asm(0x59, 0x60, 0x60, 0x53), engine.Asm(0x59, 0x59, 0x52), engine.Asm(0x60, 0x03, 0x60, 0x50, 0x60, 0x41, engine.Rich, 0x3c),
		engine.Asm(0x60, 0x07, 0x60, 0x00, 0x60, 0x61, 0x5e), engine.Asm(0x60, 0x00, 0x60, 0x00, 0x60, 0xff, 0x5e), engine.Asm(0x60, 0x01, 0x61, 0x01, 0x00, 0x53),
	}
	seqs(x, "memory-sequences", toks, Pick3(x, 3, 4), func(w *engine.Worker, body []byte) {
		code := append(append([]byte{}, body...), dumpMem(288)...)
		w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: memGas, Code: code, Input: input, Sweep: len(body) < 14})
	})
	// 6. expansion cost: every size class up to the quadratic regime, exact gas
	x.Parallel("expansion", Pick3(x, 1200, 6000), func(w *engine.Worker, i int) {
		off := uint64(i) * 37
		code := append(engine.Push(off), 0x51, 0x50)
		code = append(code, 0x59)
		code = append(code, engine.RetTop(1)...)
		w.Check(&engine.Case{Gas: memGas * 10, Code: code, Sweep: true})
		code = append(engine.Push(off), 0x51, 0x50)
		code = append(code, engine.Push(off*2+5)...)
		code = append(code, 0x51, 0x50, 0x59)
		code = append(code, engine.RetTop(1)...)
		w.Check(&engine.Case{Gas: memGas * 10, Code: code, Sweep: i%7 == 0})
	})
	// 7. keccak of all lengths around the block size, values written at unaligned positions
	x.Parallel("keccak-lengths", Pick3(x, 300, 700), func(w *engine.Worker, i int) {
		for o := 0; o < 4; o++ {
			code := append([]byte{}, pre...)
			code = append(code, engine.Push(uint64(i))...)
			code = append(code, 0x60, byte(o*9), 0x20)
			code = append(code, engine.RetTop(1)...)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: memGas, Code: code})
		}
	})
	// 8. call data: loads at every offset for many input lengths
	x.Parallel("calldata", 70, func(w *engine.Worker, i int) {
		in := input[:i]
		for o := 0; o < 110; o++ {
			code := append(engine.Push(uint64(o)), 0x35, 0x36)
			code = append(code, engine.RetTop(2)...)
			w.Check(&engine.Case{Gas: memGas, Code: code, Input: in})
		}
	})
	x.Sample("fill; PUSH n PUSH src PUSH dst MCOPY; MSIZE; return memory")
}

var ret64 = withScript(engine.StdWorld, engine.Resp{Success: true, Out: 64})

func withScript(s engine.WorldSpec, r ...engine.Resp) engine.WorldSpec {
	s.Script = r
	return s
}
