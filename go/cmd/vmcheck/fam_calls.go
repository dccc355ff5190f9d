package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P07"] = check{"lfvm,evmzero,evmrs-all", runCalls}
}

// afterCall returns the code that observes everything a call can influence.
func afterCall() []byte {
	// stack: success; adds RETURNDATASIZE, GAS, BALANCE(self), SLOAD(0), MSIZE
	code := engine.Asm(0x3d, 0x5a, 0x47, 0x60, 0, 0x54, 0x59)
	// store at 128.. and return all of the memory
	for i := 0; i < 6; i++ {
		code = append(code, engine.Push(uint64(160+32*i))...)
		code = append(code, 0x52)
	}
	return append(code, engine.Asm(ref.FromU64(352), 0x60, 0, 0xf3)...)
}

func callCode(op byte, gas, to, value ref.W, in, out [2]ref.W) []byte {
	code := engine.Asm(out[1], out[0], in[1], in[0])
	if op == 0xf1 || op == 0xf2 {
		code = append(code, engine.PushW(value)...)
	}
	return engine.Asm(code, to, gas, op)
}

func responses(deep bool) (res []engine.Resp) {
	for _, s := range []bool{true, false} {
		for _, out := range []int{0, 1, 32, 70} {
			for _, g := range []int{0, 1, 2, 3} {
				res = append(res, engine.Resp{Success: s, Out: out, Gas: g})
			}
		}
		res = append(res, engine.Resp{Success: s, Out: 33, Gas: 1, Refund: 4800}, engine.Resp{Success: s, Refund: -4800, Mutate: true})
	}
	if deep {
		res = append(res, engine.Resp{Success: true, Out: 4000, Gas: 1}, engine.Resp{Success: true, Out: 64, Gas: 3, Mutate: true, Refund: 1 << 40})
	}
	return
}

var callOps = []byte{0xf1, 0xf2, 0xf4, 0xfa}

func scripted(base *engine.WorldSpec, s ...engine.Resp) *engine.WorldSpec {
	w := *base
	w.Script = s
	return &w
}

func r2(a, b uint64) [2]ref.W { return [2]ref.W{ref.FromU64(a), ref.FromU64(b)} }

func runCalls(x *engine.Explorer) {
	deep := x.Thorough()
	resp := responses(deep)
	gases := append(ws(0, 1, 2299, 2300, 50_000, 1<<32, 1<<63-1, 1<<63), maxWord, pow2(64, 0), pow2(32, 0))
	dests := awords(engine.Self, engine.Rich, engine.Poor, engine.Nonced, engine.Coder, engine.Ghost, precompile(1), engine.Caller)
	dirty := engine.AddrWord(engine.Rich) // upper bytes must be ignored
	for i := 0; i < 12; i++ {
		dirty[i] = 0xee
	}
	dests = append(dests, dirty)
	values := append(ws(0, 1, 999, 1000, 1001), maxWord, pow2(64, 0), pow2(255, 0))
	pre := fill()
	// 1. gas x destination x value x kind x revision x static
	x.Parallel("gas-dest-value", len(gases)*len(dests)*nRevs, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		g, to := gases[i%len(gases)], dests[i/len(gases)]
		for _, op := range callOps {
			for _, v := range values {
				if (op == 0xf4 || op == 0xfa) && !v.IsZero() {
					continue
				}
				code := append([]byte{}, pre...)
				code = append(code, callCode(op, g, to, v, r2(3, 40), r2(8, 50))...)
				code = append(code, afterCall()...)
				for _, static := range []bool{false, true} {
					for k, wd := range []*engine.WorldSpec{&engine.StdWorld, &warmWorld} {
						for _, r := range []engine.Resp{{Success: true, Out: 60, Gas: 1}, {Success: false, Out: 20, Gas: 0}} {
							w.Check(&engine.Case{Rev: rev, Static: static, Gas: 100_000, Code: code, World: scripted(wd, r), Sweep: k == 0 && r.Success})
						}
					}
				}
			}
		}
	})
	// 2. responses x kinds x revisions x output regions
	regions := [][2]ref.W{r2(0, 0), r2(0, 32), r2(5, 1), r2(64, 64), r2(96, 3), r2(200, 70), {maxWord, {}}, {ref.FromU64(5), maxWord}, {maxWord, ref.FromU64(1)}, r2(1<<31, 1), r2(0, 1<<32), r2(1<<40, 5)}
	x.Parallel("responses-regions", len(resp)*len(regions)*len(regions), func(w *engine.Worker, i int) {
		r := resp[i%len(resp)]
		i /= len(resp)
		in, out := regions[i%len(regions)], regions[i/len(regions)]
		for _, op := range callOps {
			for _, v := range ws(0, 1) {
				if (op == 0xf4 || op == 0xfa) && !v.IsZero() {
					continue
				}
				code := append([]byte{}, pre...)
				code = append(code, callCode(op, ref.FromU64(20000), dests[1], v, in, out)...)
				code = append(code, afterCall()...)
				for _, rev := range []tosca.Revision{tosca.R07_Istanbul, tosca.R13_Cancun} {
					w.Check(&engine.Case{Rev: rev, Gas: 100_000, Code: code, World: scripted(&engine.StdWorld, r), Sweep: r.Out == 70 && r.Gas == 1})
				}
			}
		}
	})
	// 3. the return data buffer over histories of calls and creates:
	// every sequence of up to three nested executions followed by every copy
	kinds := [][]byte{
		callCode(0xf1, ref.FromU64(9000), dests[1], ref.W{}, r2(0, 0), r2(0, 0)),
		callCode(0xf2, ref.FromU64(9000), dests[2], ref.FromU64(1), r2(0, 10), r2(0, 10)),
		callCode(0xf4, ref.FromU64(9000), dests[4], ref.W{}, r2(0, 0), r2(10, 10)),
		callCode(0xfa, ref.FromU64(9000), dests[5], ref.W{}, r2(0, 0), r2(0, 96)),
		engine.Asm(0x60, 8, 0x60, 1, 0x60, 0, 0xf0),
		engine.Asm(0x60, 77, 0x60, 8, 0x60, 1, 0x60, 3, 0xf5),
		callCode(0xf1, ref.FromU64(9000), dests[1], ref.FromU64(1001), r2(0, 0), r2(0, 0)), // insufficient balance
		engine.Asm(0x60, 8, 0x60, 1, ref.FromU64(1001), 0xf0),                              // insufficient balance
		callCode(0xf2, ref.FromU64(9000), dests[1], ref.FromU64(1001), r2(0, 0), r2(0, 0)), // insufficient balance
	}
	scripts := []engine.Resp{{Success: true, Out: 40, Gas: 1}, {Success: false, Out: 24, Gas: 0}, {Success: true, Out: 0, Gas: 0}, {Success: false, Out: 0, Gas: 2}}
	depth := engine.Pick(x, 2, 3)
	n := 1
	for d := 0; d < depth; d++ {
		n *= len(kinds) * len(scripts)
	}
	copies := [][2]uint64{{0, 0}, {0, 1}, {0, 24}, {0, 25}, {24, 0}, {25, 0}, {8, 16}, {8, 17}, {0, 40}, {39, 1}, {40, 0}, {41, 0}, {20, 21}}
	x.Parallel("return-data", n, func(w *engine.Worker, i int) {
		code := append([]byte{}, pre...)
		var sc []engine.Resp
		for d := 0; d < depth; d++ {
			code = append(code, kinds[i%len(kinds)]...)
			i /= len(kinds)
			sc = append(sc, scripts[i%len(scripts)])
			i /= len(scripts)
			code = append(code, 0x3d) // RETURNDATASIZE after each
		}
		world := scripted(&engine.StdWorld, sc...)
		for _, cp := range copies {
			c := append(code[:len(code):len(code)], engine.Asm(ref.FromU64(cp[1]), ref.FromU64(cp[0]), 0x60, 2, 0x3e)...)
			for k := 0; k < 2*depth; k++ {
				c = append(c, engine.Push(uint64(96+32*k))...)
				c = append(c, 0x52)
			}
			c = append(c, engine.Asm(ref.FromU64(uint64(96+64*depth)), 0x60, 0, 0xf3)...)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: 200_000, Code: c, World: world})
		}
	})
	// 4. creates: value x region x salt x response x revision
	cvals := append(ws(0, 1, 1000, 1001), maxWord)
	cregs := [][2]ref.W{r2(0, 0), r2(0, 1), r2(3, 90), r2(64, 65), {maxWord, {}}, {maxWord, ref.FromU64(1)}, r2(0, 49151), r2(0, 49152), r2(0, 49153), r2(1, 60000), {{}, maxWord}, r2(0, 1<<32)}
	x.Parallel("creates", len(cvals)*len(cregs)*nRevs, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		v, reg := cvals[i%len(cvals)], cregs[i/len(cvals)]
		for _, op := range []byte{0xf0, 0xf5} {
			for _, r := range resp {
				code := append([]byte{}, pre...)
				if op == 0xf5 {
					code = append(code, engine.Push32(pow2(251, 0x1234))...)
				}
				code = append(code, engine.Asm(reg[1], reg[0], v, op)...)
				code = append(code, afterCall()...)
				for _, static := range []bool{false, true} {
					w.Check(&engine.Case{Rev: rev, Gas: 200_000, Static: static, Code: code, World: scripted(&engine.StdWorld, r), Sweep: r.Out == 32 && r.Gas == 1})
				}
			}
		}
	})
	// 5. the all-but-one-64th rule for every small amount of gas left
	x.Parallel("one-64th", engine.Pick(x, 1500, 12000), func(w *engine.Worker, i int) {
		for _, op := range callOps {
			for _, g := range append(ws(uint64(i), uint64(i)-uint64(i)/64, uint64(i)-uint64(i)/64+1), maxWord) {
				code := callCode(op, g, dests[5], ref.W{}, r2(0, 0), r2(0, 0))
				code = append(code, 0x5a)
				code = append(code, engine.RetTop(2)...)
				w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: int64(2600 + 21 + i), Code: code, World: scripted(&engine.StdWorld, engine.Resp{Success: true, Gas: i % 4})})
			}
		}
		for _, op := range []byte{0xf0, 0xf5} {
			code := engine.Asm(0x60, 1, 0x60, 0, 0x60, 0, 0x60, 0, op, 0x5a)
			code = append(code, engine.RetTop(2)...)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: int64(32012 + i), Code: code, World: scripted(&engine.StdWorld, engine.Resp{Success: true, Gas: i % 4})})
		}
	})
	x.Sample("CALL(gas=2^64, to=empty account, value=1000, in=[3,43), out=[8,58)) answered by failure with 20 bytes; all observable effects compared")
}
