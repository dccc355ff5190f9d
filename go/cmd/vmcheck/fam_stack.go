package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

const nRevs = 6

func init() {
	checks["P02"] = check{"lfvm,evmzero,evmrs-all", runStack}
}

// pushN pushes n distinct small values.
func pushN(n int) (code []byte) {
	for i := 0; i < n; i++ {
		code = append(code, 0x60, byte(n-i))
	}
	return
}

// stackCase runs op on a stack of the given height and returns everything
// that is left in reach.
func stackCase(rev tosca.Revision, op byte, imm []byte, height int) *engine.Case {
	code := pushN(height)
	code = append(code, op)
	code = append(code, imm...)
	pops, pushes, _ := ref.Info(op, rev)
	after := height - pops + pushes
	for after > 1021 {
		code = append(code, 0x50)
		after--
	}
	n := min(max(after, 0), 20)
	code = append(code, engine.RetTop(n)...)
	return &engine.Case{Rev: rev, Gas: 5_000_000, Code: code}
}

func heights() (res []int) {
	for h := 0; h <= 19; h++ {
		res = append(res, h)
	}
	return append(res, 100, 511, 512, 1005, 1006, 1007, 1008, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024)
}

func runStack(x *engine.Explorer) {
	hs := heights()
	if x.Thorough() {
		hs = nil
		for h := 0; h <= 1024; h++ {
			hs = append(hs, h)
		}
	}
	x.Extra("heights", len(hs))
	// every opcode at every height of interest in every revision
	x.Parallel("op-height", 256*len(hs), func(w *engine.Worker, i int) {
		op, h := byte(i%256), hs[i/256]
		var imm []byte
		if op >= 0x60 && op <= 0x7f {
			for k := byte(0); k <= op-0x60; k++ {
				imm = append(imm, 0xc1+k)
			}
		}
		for rev := tosca.Revision(0); rev < nRevs; rev++ {
			w.Check(stackCase(rev, op, imm, h))
		}
	})
	// one more push than fits: 1024 elements plus each pushing opcode
	x.Parallel("overflow", 256, func(w *engine.Worker, i int) {
		op := byte(i)
		for _, h := range []int{1022, 1023, 1024} {
			for rev := tosca.Revision(0); rev < nRevs; rev++ {
				code := append(pushN(h), op)
				if op >= 0x60 && op <= 0x7f {
					code = append(code, make([]byte, op-0x5f)...)
				}
				w.Check(&engine.Case{Rev: rev, Gas: 5_000_000, Code: code})
				w.Check(&engine.Case{Rev: rev, Gas: 5_000_000, Code: append(append([]byte{}, code...), op)})
			}
		}
	})
	// push data: every length, several patterns, every truncation
	x.Parallel("push-data", 32*40, func(w *engine.Worker, i int) {
		n, cut := i%32+1, i/32
		for pat := 0; pat < 4; pat++ {
			data := make([]byte, n)
			for k := range data {
				switch pat {
				case 0:
					data[k] = byte(0x11 + k*7)
				case 1:
					data[k] = 0xff
				case 2:
					data[k] = 0x5b
				case 3:
					if k == 0 {
						data[k] = 0x80
					}
				}
			}
			code := append([]byte{byte(0x5f + n)}, data...)
			code = append(code, engine.RetTop(1)...)
			if cut < len(code) {
				// truncated inside or right after the push
				w.Check(&engine.Case{Gas: 1000, Code: code[:len(code)-cut]})
			}
			// pushes in front, to make offsets odd
			for lead := 0; lead < 3; lead++ {
				w.Check(&engine.Case{Gas: 10000, Code: append(pushN(lead), code...)})
			}
		}
	})
	// all sequences of stack manipulating instructions up to a depth, on a
	// stack holding distinct values
	toks := [][]byte{{0x50}, {0x80}, {0x81}, {0x82}, {0x83}, {0x90}, {0x91}, {0x92}, {0x93}, {0x60, 0xaa}, {0x61, 0xbb, 0xcc}, {0x63, 1, 2, 3, 4}, {0x64, 1, 2, 3, 4, 5}}
	seqs(x, "stack-sequences", toks, Pick3(x, 4, 5), func(w *engine.Worker, body []byte) {
		code := append(pushN(4), body...)
		code = append(code, engine.RetTop(4)...)
		w.Check(&engine.Case{Gas: 10000, Code: code})
	})
	// deep DUP/SWAP pairs
	x.Parallel("dup-swap-pairs", 32*32, func(w *engine.Worker, i int) {
		a, b := byte(0x80+i%32), byte(0x80+i/32)
		for _, h := range []int{15, 16, 17, 18, 20} {
			code := append(pushN(h), a, b)
			code = append(code, engine.RetTop(h)...)
			w.Check(&engine.Case{Gas: 10000, Code: code})
		}
	})
	x.Sample("PUSH1 x17, SWAP16, DUP16, MSTORE.., RETURN")
}

// seqs enumerates all token sequences of length 1..depth.
func seqs(x *engine.Explorer, name string, toks [][]byte, depth int, f func(w *engine.Worker, body []byte)) {
	total := 0
	var starts []int
	p := 1
	for d := 1; d <= depth; d++ {
		p *= len(toks)
		starts = append(starts, total)
		total += p
	}
	x.Parallel(name, total, func(w *engine.Worker, i int) {
		d := 0
		for d+1 < len(starts) && i >= starts[d+1] {
			d++
		}
		k := i - starts[d]
		var body []byte
		for n := 0; n <= d; n++ {
			body = append(body, toks[k%len(toks)]...)
			k /= len(toks)
		}
		f(w, body)
	})
}
