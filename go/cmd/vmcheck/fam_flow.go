package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P03"] = check{"lfvm,evmzero,evmrs-all", runFlow}
}

func pow2(n int, add uint64) ref.W {
	w := ref.ArithOp(0x1b, []ref.W{ref.FromU64(uint64(n)), ref.FromU64(1)})
	return ref.ArithOp(0x01, []ref.W{w, ref.FromU64(add)})
}

func runFlow(x *engine.Explorer) {
	// (a) all byte strings over an alphabet of control-flow relevant bytes
	alpha := []byte{0x5b, 0x56, 0x57, 0x60, 0x61, 0x00, 0x01, 0x03, 0x04, 0x58, 0x50, 0xfe}
	var toks [][]byte
	for _, b := range alpha {
		toks = append(toks, []byte{b})
	}
	seqs(x, "byte-strings", toks, Pick3(x, 5, 6), func(w *engine.Worker, body []byte) {
		w.Check(&engine.Case{Gas: 200, Code: body})
	})
	// the same behind a push of a target and a condition
	seqs(x, "byte-strings-with-stack", toks, Pick3(x, 4, 5), func(w *engine.Worker, body []byte) {
		for t := 4; t < 10; t++ {
			w.Check(&engine.Case{Gas: 200, Code: append([]byte{0x60, 0x01, 0x60, byte(t)}, body...)})
		}
	})
	// (b) structured jumps into a body of data and destinations
	bodyAlpha := [][]byte{{0x5b}, {0x60}, {0x61}, {0x62}, {0x7f}, {0x00}}
	high := []ref.W{pow2(8, 0), pow2(16, 0), pow2(31, 0), pow2(32, 0), pow2(63, 0), pow2(64, 0), pow2(128, 0), pow2(255, 0)}
	seqs(x, "jump-targets", bodyAlpha, Pick3(x, 5, 6), func(w *engine.Worker, body []byte) {
		for _, hi := range append([]ref.W{{}}, high...) {
			n := len(body) + 38
			for t := 0; t < n; t++ {
				if hi != (ref.W{}) && (t < 35 || t > 35+len(body)) {
					continue
				}
				if hi == (ref.W{}) && t < 33 {
					continue
				}
				tw := ref.ArithOp(0x01, []ref.W{hi, ref.FromU64(uint64(t))})
				code := append(engine.Push32(tw), 0x56)
				code = append(code, body...)
				w.Check(&engine.Case{Gas: 100, Code: code})
			}
		}
	})
	conds := []ref.W{{}, ref.FromU64(1), pow2(64, 0), pow2(255, 0), pow2(32, 0)}
	seqs(x, "conditional-jumps", bodyAlpha, Pick3(x, 4, 5), func(w *engine.Worker, body []byte) {
		for _, c := range conds {
			for _, hi := range append([]ref.W{{}}, high...) {
				for t := 35; t < 35+len(body)+36; t++ {
					if hi != (ref.W{}) && t > 37+len(body)+33 {
						continue
					}
					tw := ref.ArithOp(0x01, []ref.W{hi, ref.FromU64(uint64(t))})
					code := append(engine.PushW(c), engine.Push32(tw)...)
					code = append(code, 0x57)
					code = append(code, body...)
					if t > len(code)+1 {
						break
					}
					w.Check(&engine.Case{Gas: 100, Code: code})
				}
			}
		}
	})
	// (c) every push width as data in front of destinations, every target,
	// every truncation
	x.Parallel("push-data-analysis", 33*3, func(w *engine.Worker, i int) {
		n := i % 33
		lead := i / 33
		for t := 0; t < 80; t++ {
			code := []byte{0x60, byte(t), 0x56}
			for k := 0; k < lead; k++ {
				code = append(code, 0x5b)
			}
			if n > 0 {
				code = append(code, byte(0x5f+n))
			}
			for k := 0; k < 40; k++ {
				code = append(code, 0x5b)
			}
			code = append(code, 0x58) // leave the PC on the stack
			code = append(code, engine.RetTop(1)...)
			w.Check(&engine.Case{Gas: 1000, Code: code})
			for cut := 1; cut < 40; cut += 3 {
				w.Check(&engine.Case{Gas: 1000, Code: code[:len(code)-cut]})
			}
		}
	})
	// (d) PC at every position, code of many lengths filled by JUMPDESTs
	lens := []int{0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 24575, 24576, 24577, 32766, 32767, 32768, 49151, 49152, 65525, 65534, 65535, 65536, 65537, 65600, 70000}
	x.Parallel("long-code", len(lens), func(w *engine.Worker, i int) {
		n := lens[i]
		// jump over n bytes of padding, to a destination that reports its PC
		for _, pad := range []byte{0x00, 0x5b, 0x7f, 0x61} {
			for _, d := range []int{-1, 0, 1} {
				t := 5 + n
				code := append([]byte{0x62, byte((t + d) >> 16), byte((t + d) >> 8), byte(t + d), 0x56}, make([]byte, n)...)
				for k := 5; k < 5+n; k++ {
					code[k] = pad
				}
				code = append(code, 0x5b, 0x58)
				code = append(code, engine.RetTop(1)...)
				w.Check(&engine.Case{Gas: 1000, Code: code})
				w.Check(&engine.Case{Gas: 1000, Code: code, WithHash: true})
			}
		}
		// run through n JUMPDESTs
		code := make([]byte, n)
		for k := range code {
			code[k] = 0x5b
		}
		code = append(code, 0x58)
		code = append(code, engine.RetTop(1)...)
		w.Check(&engine.Case{Gas: 100000, Code: code})
		w.Check(&engine.Case{Gas: int64(n), Code: code})
	})
	// (e) loops: i iterations with exact gas
	x.Parallel("loops", Pick3(x, 60, 300), func(w *engine.Worker, i int) {
		// PUSH2 n; JUMPDEST; PUSH1 1; SWAP1; SUB; DUP1; PUSH1 3; JUMPI; GAS; return
		code := []byte{0x61, byte((i + 1) >> 8), byte(i + 1), 0x5b, 0x60, 0x01, 0x90, 0x03, 0x80, 0x60, 0x03, 0x57, 0x5a}
		code = append(code, engine.RetTop(1)...)
		c := &engine.Case{Gas: 100000, Code: code, Sweep: i < 40}
		w.Check(c)
		// a forward jump chain of i links
		var chain []byte
		for k := 0; k < i; k++ {
			t := len(chain) + 6
			chain = append(chain, 0x61, byte(t>>8), byte(t), 0x56, 0xfe, 0xfe, 0x5b)
		}
		w.Check(&engine.Case{Gas: 100000, Code: append(chain, engine.RetTop(0)...)})
	})
	// (f) calling functions by pushed return addresses, JUMP as last byte, jumps to 0
	x.Parallel("jump-sites", 64, func(w *engine.Worker, i int) {
		for k := 0; k < 64; k++ {
			code := make([]byte, 64)
			for j := range code {
				code[j] = 0x5b
			}
			// jump placed at k, target i, the next lap fails for lack of gas
			if k < 60 {
				copy(code[k:], []byte{0x60, byte(i), 0x56})
			} else {
				copy(code[60:], []byte{0x60, byte(i), 0x57})
			}
			for _, g := range []int64{50, 100, 500} {
				w.Check(&engine.Case{Gas: g, Code: code})
				w.Check(&engine.Case{Gas: g, Code: append(append([]byte{}, code...), 0x56)})
			}
		}
	})
	// (g) super-instruction prone sequences around jumps
	jt := [][]byte{{0x90}, {0x91}, {0x50}, {0x56}, {0x57}, {0x61, 0x00, 0x2a}, {0x15}, {0x80}, {0x60, 0x01}, {0x5b}}
	seqs(x, "fused-jumps", jt, Pick3(x, 5, 6), func(w *engine.Worker, body []byte) {
		code := []byte{0x60, 0x2a, 0x60, 0x00, 0x60, 0x2a, 0x60, 0x01, 0x60, 0x2a}
		code = append(code, body...)
		for len(code) < 0x2a {
			code = append(code, 0x00)
		}
		if len(code) > 0x2a {
			return
		}
		code = append(code, 0x5b, 0x58)
		code = append(code, engine.RetTop(1)...)
		w.Check(&engine.Case{Gas: 500, Code: code})
	})
	// (h) every fused pattern with jump targets whose high limbs are set
	x.Parallel("fused-high-targets", len(high)+1, func(w *engine.Worker, i int) {
		hi := ref.W{}
		if i > 0 {
			hi = high[i-1]
		}
		pats := [][]byte{{0x91, 0x90, 0x50, 0x56}, {0x50, 0x56}, {0x90, 0x50, 0x56}, {0x91, 0x90, 0x50, 0x90, 0x56}, {0x56}, {0x57}, {0x15, 0x57}}
		for _, pat := range pats {
			for pos := 0; pos < 4; pos++ {
				for t := 0; t < 160; t++ {
					tw := ref.ArithOp(0x01, []ref.W{hi, ref.FromU64(uint64(t))})
					var code []byte
					for k := 0; k < 4; k++ {
						if k == pos {
							code = append(code, engine.Push32(tw)...)
						} else {
							code = append(code, engine.Push32(ref.FromU64(1))...)
						}
					}
					code = append(code, pat...)
					code = append(code, 0x5b, 0x58)
					code = append(code, engine.RetTop(1)...)
					if t < 130 && t%16 != 0 {
						continue
					}
					w.Check(&engine.Case{Gas: 500, Code: code})
				}
			}
		}
	})
	x.Sample("PUSH32 2^64+35 JUMP JUMPDEST ... must fail")
	_ = tosca.R07_Istanbul
}
