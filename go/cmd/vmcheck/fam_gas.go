package main

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P05"] = check{"lfvm,evmzero,evmrs-all", runGas}
}

func ws(vs ...uint64) (res []ref.W) {
	for _, v := range vs {
		res = append(res, ref.FromU64(v))
	}
	return
}

func awords(as ...tosca.Address) (res []ref.W) {
	for _, a := range as {
		res = append(res, engine.AddrWord(a))
	}
	return
}

var maxWord = ref.ArithOp(0x19, []ref.W{{}})

func precompile(n byte) (a tosca.Address) { a[19] = n; return }

// operands lists, top of the stack first, the operand values explored for an
// opcode. Deep selects larger alphabets.
func operands(op byte, deep bool) [][]ref.W {
	offs, sizes := ws(0, 1, 32, 700), ws(0, 1, 32, 33, 700)
	addrs := awords(engine.Self, engine.Rich, engine.Poor, engine.Ghost)
	vals := ws(0, 1, 1000, 1001)
	num := append(ws(0, 1, 3), maxWord)
	if deep {
		offs = ws(0, 1, 31, 32, 33, 700, 9000)
		sizes = ws(0, 1, 31, 32, 33, 64, 65, 700, 9001)
		addrs = append(addrs, awords(engine.Nonced, engine.Coder, engine.Caller, engine.Origin, engine.Base, precompile(1), precompile(9))...)
		vals = append(vals, ws(999)...)
		vals = append(vals, maxWord)
		num = append(num, ws(31, 32, 255, 256)...)
		num = append(num, pow2(255, 0), pow2(64, 0))
	}
	switch {
	case op == 0x0a:
		var e []ref.W
		for n := 0; n < 256; n += 4 {
			e = append(e, pow2(n, 0))
		}
		for n := 8; n <= 256; n += 8 {
			e = append(e, ref.ArithOp(0x03, []ref.W{pow2(n%256, 0), ref.FromU64(1)}))
		}
		return [][]ref.W{ws(0, 2, 7), append(e, ref.W{})}
	case op == 0x20 || op == 0xf3 || op == 0xfd:
		return [][]ref.W{offs, sizes}
	case op == 0x31 || op == 0x3b || op == 0x3f || op == 0xff:
		return [][]ref.W{addrs}
	case op == 0x35 || op == 0x51 || op == 0x40 || op == 0x49:
		return [][]ref.W{append(append([]ref.W{}, offs...), maxWord, ref.FromU64(1233))}
	case op == 0x37 || op == 0x39 || op == 0x5e || op == 0x3e:
		return [][]ref.W{offs, append(append([]ref.W{}, offs...), maxWord), sizes}
	case op == 0x3c:
		return [][]ref.W{addrs, offs, ws(0, 40), sizes}
	case op == 0x52 || op == 0x53:
		return [][]ref.W{offs, num}
	case op == 0x54 || op == 0x5c:
		return [][]ref.W{ws(0, 1, 2)}
	case op == 0x55 || op == 0x5d:
		return [][]ref.W{ws(0, 1, 2), ws(0, 5, 6, 7, 8, 9)}
	case op >= 0xa0 && op <= 0xa4:
		r := [][]ref.W{offs, sizes}
		for k := byte(0); k < op-0xa0; k++ {
			r = append(r, ws(uint64(k)+0x77))
		}
		return r
	case op == 0xf0:
		return [][]ref.W{vals, offs, append(append([]ref.W{}, sizes...), ws(49151, 49152, 49153)...)}
	case op == 0xf5:
		return [][]ref.W{vals, offs, append(append([]ref.W{}, sizes...), ws(49152, 49153)...), ws(5)}
	case op == 0xf1 || op == 0xf2:
		g := append(ws(0, 2300, 5000), maxWord)
		if deep {
			return [][]ref.W{g, addrs, vals, ws(0, 33), ws(0, 40), ws(0, 64), ws(0, 31, 700)}
		}
		return [][]ref.W{g, addrs, vals, ws(0), ws(0, 40), ws(64), ws(0, 31)}
	case op == 0xf4 || op == 0xfa:
		g := append(ws(0, 2300, 5000), maxWord)
		if deep {
			return [][]ref.W{g, addrs, ws(0, 33), ws(0, 40), ws(0, 64), ws(0, 31, 700)}
		}
		return [][]ref.W{g, addrs, ws(0), ws(0, 40), ws(64), ws(0, 31)}
	case op == 0x56:
		return [][]ref.W{ws(0, 4)}
	case op == 0x57:
		return [][]ref.W{ws(0, 6), ws(0, 1)}
	}
	pops, _, _ := ref.Info(op, nRevs)
	var r [][]ref.W
	for k := 0; k < pops; k++ {
		if pops > 3 {
			r = append(r, ws(uint64(k+1)))
		} else {
			r = append(r, num)
		}
	}
	return r
}

// product calls f for every combination.
func product(sets [][]ref.W, f func([]ref.W)) {
	cur := make([]ref.W, len(sets))
	var rec func(int)
	rec = func(i int) {
		if i == len(sets) {
			f(cur)
			return
		}
		for _, v := range sets[i] {
			cur[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

// apply pushes the operands (top first) and the opcode.
func apply(op byte, args []ref.W) (code []byte) {
	for i := len(args) - 1; i >= 0; i-- {
		code = append(code, engine.PushW(args[i])...)
	}
	code = append(code, op)
	if op >= 0x60 && op <= 0x7f {
		code = append(code, make([]byte, op-0x5f)...)
	}
	return
}

var warmWorld = func() engine.WorldSpec {
	w := engine.StdWorld
	w.Accts = append([]engine.Acct{}, w.Accts...)
	w.Slots = append([]engine.Slot{}, w.Slots...)
	for i := range w.Accts {
		w.Accts[i].Warm = true
	}
	w.Accts = append(w.Accts, engine.Acct{Addr: engine.Ghost, Warm: true})
	for i := range w.Slots {
		w.Slots[i].Warm = true
	}
	return w
}()

// gasUser are the opcodes with a dynamic price, combined with each other.
var gasUsers = []byte{0x0a, 0x20, 0x31, 0x37, 0x39, 0x3b, 0x3c, 0x3e, 0x3f, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5c, 0x5d, 0x5e, 0xa0, 0xa2, 0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa, 0xff}

func runGas(x *engine.Explorer) {
	deep := x.Thorough()
	worlds := []*engine.WorldSpec{&engine.StdWorld, &warmWorld}
	// 1. every opcode with every operand combination, in every revision, at
	// every gas amount at which a charge may fail
	x.Parallel("op-operands", 256*nRevs, func(w *engine.Worker, i int) {
		op, rev := byte(i%256), tosca.Revision(i/256)
		n := 0
		product(operands(op, deep), func(args []ref.W) {
			n++
			code := apply(op, args)
			code = append(code, 0x5a) // observe the gas left
			code = append(code, engine.RetTop(1)...)
			for _, wd := range worlds {
				w.Check(&engine.Case{Rev: rev, Gas: 400_000, Code: code, World: wd, Sweep: deep || n%7 < 4})
			}
		})
	})
	// 2. pairs of dynamically priced instructions
	x.Parallel("pairs", len(gasUsers)*len(gasUsers)*nRevs, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		a, b := gasUsers[i/nRevs/len(gasUsers)], gasUsers[i/nRevs%len(gasUsers)]
		var firsts, seconds [][]byte
		take := func(op byte, max int) (res [][]byte) {
			var all [][]byte
			product(operands(op, false), func(args []ref.W) { all = append(all, apply(op, args)) })
			step := len(all)/max + 1
			for k := 0; k < len(all); k += step {
				res = append(res, all[(k*7+int(op))%len(all)])
			}
			return
		}
		n := engine.Pick(x, 5, 16)
		firsts, seconds = take(a, n), take(b, n)
		for k, f := range firsts {
			for l, s := range seconds {
				code := append(append([]byte{}, f...), s...)
				code = append(code, 0x59, 0x5a)
				code = append(code, engine.RetTop(2)...)
				w.Check(&engine.Case{Rev: rev, Gas: 300_000, Code: code, Sweep: deep || (k+l)%5 == 0})
			}
		}
	})
	// 3. memory growth in two steps: every pair of sizes
	sizes := []uint64{1, 32, 33, 703, 704, 705, 736, 1024, 4096, 16384, 22528, 22529, 65536, 131072}
	if deep {
		sizes = append(sizes, 262144, 524288, 524289, 1<<20)
		for n := uint64(0); n < 120; n++ {
			sizes = append(sizes, n*n*29+3)
		}
	}
	x.Parallel("growth", len(sizes)*len(sizes), func(w *engine.Worker, i int) {
		a, b := sizes[i%len(sizes)], sizes[i/len(sizes)]
		for _, ops := range [][2]byte{{0x51, 0x51}, {0x20, 0x37}, {0x53, 0x5e}, {0xa0, 0xf3}, {0x39, 0x20}} {
			acc := func(op byte, n uint64) []byte {
				switch op {
				case 0x51, 0x52, 0x53:
					return engine.Asm(7, engine.Push(n), op)[1:]
				case 0x37, 0x39, 0x5e:
					return engine.Asm(engine.Push(n), 0x60, 1, 0x60, 0, op)
				}
				return engine.Asm(engine.Push(n), 0x60, 3, op)
			}
			pre := []byte{0x60, 0x09}
			code := append(append(pre, acc(ops[0], a)...), 0x60, 0x08)
			code = append(code, acc(ops[1], b)...)
			if ops[1] != 0xf3 {
				code = append(code, 0x5a, 0x59)
				code = append(code, engine.RetTop(2)...)
			}
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: 30_000_000, Code: code, Sweep: true})
		}
	})
	// 4. gas amounts at the edges of the integer types
	edge := []int64{0, 1, 2, 3, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1<<62 - 1, 1<<63 - 1}
	x.Parallel("gas-edges", len(edge)*256, func(w *engine.Worker, i int) {
		op, g := byte(i%256), edge[i/256]
		product(operands(op, false), func(args []ref.W) {
			code := apply(op, args)
			code = append(code, 0x5a)
			code = append(code, engine.RetTop(1)...)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: g, Code: code})
		})
	})
	// 5. every gas amount, one by one, for programs that loop until exhaustion
	loop := engine.Asm(0x60, 0, 0x5b, 0x60, 1, 0x01, 0x80, 0x60, 0x20, 0x02, 0x80, 0x52, 0x5a, 0x50, 0x60, 2, 0x56)
	max := engine.Pick(x, 1500, 20000)
	x.Parallel("every-gas", max, func(w *engine.Worker, i int) {
		w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: int64(i), Code: loop})
		w.Check(&engine.Case{Rev: tosca.R07_Istanbul, Gas: int64(i) + 3000, Code: engine.Asm(0x60, 0, 0x5b, 0x60, 1, 0x01, 0x80, 0x54, 0x50, 0x80, 0x60, 1, 0x55, 0x60, 2, 0x56)})
	})
	x.Sample("PUSH1 .. SSTORE GAS; return gas, at every gas amount where a charge fails, 6 revisions, cold and warm")
}
