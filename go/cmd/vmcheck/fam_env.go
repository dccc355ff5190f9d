package main

import (
	"errors"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P08"] = check{"lfvm,evmzero,evmrs-all", runStatic}
	checks["P09"] = check{"lfvm-all,evmzero-all,evmrs-logging,evmrs-all", runRevisions}
	checks["P10"] = check{"lfvm,evmzero,evmrs-all", runEnv}
	checks["P11"] = check{"lfvm,evmzero,evmrs-all", runLogs}
}

// sample returns up to n operand choices for an opcode, spread over the product.
func sampleOps(op byte, n int) (res [][]byte) {
	var all [][]byte
	product(operands(op, false), func(args []ref.W) { all = append(all, apply(op, args)) })
	step := (len(all) + n - 1) / n
	for k := 0; k < len(all); k += max(step, 1) {
		res = append(res, all[(k*11+int(op))%len(all)])
	}
	return
}

var mutating = []byte{0x55, 0x5d, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa, 0xff}

func runStatic(x *engine.Explorer) {
	deep := x.Thorough()
	// 1. every opcode, every operand choice, every revision, at every charge point
	x.Parallel("op-operands", 256*nRevs, func(w *engine.Worker, i int) {
		op, rev := byte(i%256), tosca.Revision(i/256)
		product(operands(op, deep), func(args []ref.W) {
			code := apply(op, args)
			code = append(code, 0x5a)
			code = append(code, engine.RetTop(1)...)
			w.Check(&engine.Case{Rev: rev, Static: true, Gas: 300_000, Code: code, Sweep: true})
		})
	})
	// 2. every stack height and every amount of gas around the static check of
	// the forbidden instructions
	x.Parallel("forbidden", len(mutating)*12*nRevs, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		op, h := mutating[i%len(mutating)], i/len(mutating)
		code := append(pushN(h), op, 0x5a)
		code = append(code, engine.RetTop(1)...)
		for g := int64(0); g < 60; g++ {
			w.Check(&engine.Case{Rev: rev, Static: true, Gas: g, Code: code})
		}
		for g := int64(360); g < 400; g++ {
			w.Check(&engine.Case{Rev: rev, Static: true, Gas: g, Code: code})
		}
		for _, g := range []int64{99, 100, 101, 699, 700, 701, 2300, 2301, 2600, 5000, 9000, 31999, 32000, 32100, 60000, 1 << 20} {
			w.Check(&engine.Case{Rev: rev, Static: true, Gas: g + int64(3*h), Code: code})
		}
	})
	// 3. a forbidden instruction after any other instruction
	x.Parallel("sequences", 256*len(mutating), func(w *engine.Worker, i int) {
		a, b := byte(i%256), mutating[i/256]
		for _, f := range sampleOps(a, engine.Pick(x, 4, 20)) {
			for _, s := range sampleOps(b, engine.Pick(x, 12, 40)) {
				code := append(append([]byte{}, f...), s...)
				for _, mid := range [][]byte{nil, {0x50}, {0x90}, {0x5b}, {0x60, 1, 0x50}} {
					c := append(append(append([]byte{}, f...), mid...), s...)
					w.Check(&engine.Case{Rev: tosca.R13_Cancun, Static: true, Gas: 300_000, Code: c})
				}
				_ = code
			}
		}
	})
	// 4. value transfers of every size through every call kind
	vals := []ref.W{{}, maxWord}
	for n := 0; n < 256; n++ {
		vals = append(vals, pow2(n, 0))
	}
	x.Parallel("values", len(vals)*2*nRevs, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		op, v := []byte{0xf1, 0xf2}[i%2], vals[i/2]
		for _, bal := range []ref.W{ref.FromU64(1000), maxWord} {
			world := engine.StdWorld
			world.Accts = append([]engine.Acct{}, world.Accts...)
			world.Accts[0].Balance = tosca.Value(bal)
			for _, to := range awords(engine.Self, engine.Rich, engine.Ghost) {
				code := callCode(op, ref.FromU64(5000), to, v, r2(0, 4), r2(0, 4))
				code = append(code, 0x5a)
				code = append(code, engine.RetTop(2)...)
				w.Check(&engine.Case{Rev: rev, Static: true, Gas: 100_000, Code: code, World: &world})
			}
		}
	})
	x.Sample("static: PUSH.. SSTORE/TSTORE/LOG/CREATE/SELFDESTRUCT/CALL with value, at every charge point")
}

func runRevisions(x *engine.Explorer) {
	// 1. every opcode in every revision, from sufficient and insufficient stacks
	x.Parallel("opcodes", 256*nRevs, func(w *engine.Worker, i int) {
		op, rev := byte(i%256), tosca.Revision(i/256)
		for h := 0; h < 19; h++ {
			code := append(pushN(h), op)
			for _, tail := range [][]byte{nil, {0}, engine.RetTop(1)} {
				c := append(code[:len(code):len(code)], tail...)
				w.Check(&engine.Case{Rev: rev, Gas: 100_000, Code: c})
				w.Check(&engine.Case{Rev: rev, Gas: 100_000, Code: c, Static: true})
			}
		}
		if op >= 0x60 && op <= 0x7f {
			return
		}
		for _, c := range sampleOps(op, 8) {
			c = append(c, 0x5a)
			w.Check(&engine.Case{Rev: rev, Gas: 400_000, Code: append(c, engine.RetTop(1)...), Sweep: x.Thorough()})
		}
	})
	// 2. pairs of opcodes at a change of rules: code cached for one revision
	// must not serve another one
	gated := []byte{0x48, 0x49, 0x4a, 0x5c, 0x5d, 0x5e, 0x5f, 0x44, 0x54, 0x55, 0x31, 0xf0, 0xf1, 0xff, 0x0c, 0x1e, 0x21, 0xa5, 0xb0, 0xef, 0xf6, 0xfe}
	x.Parallel("revision-histories", len(gated)*nRevs*nRevs, func(w *engine.Worker, i int) {
		op := gated[i%len(gated)]
		i /= len(gated)
		a, b := tosca.Revision(i%nRevs), tosca.Revision(i/nRevs)
		code := append(pushN(8), op)
		code = append(code, engine.RetTop(1)...)
		for _, r := range []tosca.Revision{a, b, a} {
			w.Check(&engine.Case{Rev: r, Gas: 100_000, Code: code, WithHash: true})
		}
	})
	// 3. unsupported revisions are reported as such, for any program
	progs := [][]byte{nil, {}, {0}, {0xfe}, engine.RetTop(0), {0x5f}, {0x60, 1}}
	revs := []tosca.Revision{6, 7, 8, 9, 20, 99, 127, 128, 255, 256, 257, 261, 1000, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1<<62 + 5}
	x.Parallel("unsupported", len(progs)*len(revs), func(w *engine.Worker, i int) {
		var world engine.World
		for _, vm := range x.VMs {
			if len(vm.Name) > 6 && vm.Name[5] == '+' {
				continue // the bare library; the revision is checked by its adapter
			}
			for _, static := range []bool{false, true} {
				c := &engine.Case{Rev: revs[i/len(progs)], Gas: 1000, Code: progs[i%len(progs)], Static: static, World: &engine.StdWorld}
				world.Reset(c.World)
				p := c.Params(&world)
				_, err := vm.I.Run(p)
				w.Count(1, 1, 1)
				var e *tosca.ErrUnsupportedRevision
				if !errors.As(err, &e) || e.Revision != c.Rev {
					x.Report(engine.Finding{VM: vm.Name, Family: "unsupported", What: fmt.Sprintf("revision %d: got error %v, want unsupported revision", c.Rev, err), Case: engine.MarshalCase(c)})
				}
				if len(world.J)+world.Mut != 0 {
					x.Report(engine.Finding{VM: vm.Name, Family: "unsupported", What: "effects reported for an unsupported revision", Case: engine.MarshalCase(c)})
				}
			}
		}
	})
	x.Sample("each of the 256 opcodes x 6 revisions x 19 stack heights")
}

func runEnv(x *engine.Explorer) {
	deep := x.Thorough()
	envOps := []byte{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a}
	var envs []*engine.Env
	for _, n := range []int64{0, 1, 255, 256, 257, 1234, 1<<31 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1} {
		for _, seed := range []byte{0, 0x40, 0x80, 0xc5} {
			for blobs := 0; blobs < 4; blobs++ {
				envs = append(envs, &engine.Env{Block: n, Time: n ^ 0x55, Gas: n/3 + 1, Seed: seed, Blobs: blobs, Value: pow2(int(seed), uint64(blobs))})
			}
		}
	}
	// 1. all pairs of environment instructions in all environments
	x.Parallel("parameters", len(envs)*len(envOps), func(w *engine.Worker, i int) {
		e, a := envs[i%len(envs)], envOps[i/len(envs)]
		for _, b := range envOps {
			code := append([]byte{a, b}, engine.RetTop(2)...)
			for rev := tosca.Revision(0); rev < nRevs; rev++ {
				w.Check(&engine.Case{Rev: rev, Gas: 1000, Code: code, Env: e, Input: make([]byte, i%70)})
			}
		}
	})
	// 2. block hashes: every distance in and around the window, all shapes
	blocks := []int64{0, 1, 2, 255, 256, 257, 258, 1000, 1 << 32, 1<<63 - 1}
	x.Parallel("blockhash", len(blocks)*600, func(w *engine.Worker, i int) {
		b, d := blocks[i%len(blocks)], int64(i/len(blocks))-100
		n := b - d
		arg := ref.FromU64(uint64(n))
		if n < 0 { // negative numbers wrap to huge ones
			arg = ref.ArithOp(0x03, []ref.W{{}, ref.FromU64(uint64(-n))})
		}
		if b > 0 && n < -1<<62 {
			return
		}
		args := []ref.W{arg}
		for _, sh := range []int{64, 65, 128, 255} {
			args = append(args, ref.ArithOp(0x01, []ref.W{arg, pow2(sh, 0)}))
		}
		for _, a := range args {
			code := append(engine.Push32(a), 0x40)
			w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: 1000, Code: append(code, engine.RetTop(1)...), Env: &engine.Env{Block: b, Time: 7, Gas: 1, Seed: 1}, Sweep: true})
		}
	})
	// 3. blob hashes: every index in and around the list, all shapes
	x.Parallel("blobhash", 8*300, func(w *engine.Worker, i int) {
		blobs, k := i%8, i/8
		idx := ref.FromU64(uint64(k))
		if k >= 20 {
			idx = pow2(k-20, uint64(k%3)) // powers of two and their neighbours
			if k >= 276 {
				return
			}
		}
		code := append(engine.Push32(idx), 0x49)
		w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: 1000, Code: append(code, engine.RetTop(1)...), Env: &engine.Env{Blobs: blobs, Seed: 9}, Sweep: true})
	})
	// 4. input and code: sizes and offsets
	lens := []int{0, 1, 5, 31, 32, 33, 64, 100}
	x.Parallel("input", len(lens)*140, func(w *engine.Worker, i int) {
		n, off := lens[i%len(lens)], uint64(i/len(lens))
		in := make([]byte, n)
		for k := range in {
			in[k] = byte(k*5 + 3)
		}
		code := engine.Asm(0x36, engine.Push(off), 0x35)
		w.Check(&engine.Case{Gas: 1000, Code: append(code, engine.RetTop(2)...), Input: in})
		for sz := uint64(0); sz < 70; sz += 3 {
			for _, op := range []byte{0x37, 0x39} {
				code := append(fill(), engine.Asm(engine.Push(sz), engine.Push(off), 0x60, 1, op, 0x38, 0x60, 96, 0x52, 0x60, 128, 0x60, 0, 0xf3)...)
				w.Check(&engine.Case{Gas: 10000, Code: code, Input: in})
			}
		}
	})
	// 5. accounts: every account, dirty address words, all properties
	as := awords(engine.Self, engine.Caller, engine.Origin, engine.Rich, engine.Poor, engine.Nonced, engine.Coder, engine.Ghost, engine.Base, precompile(1), precompile(2), precompile(10), tosca.Address{})
	var words []ref.W
	for _, a := range as {
		words = append(words, a)
		for k := 0; k < 12; k++ {
			d := a
			d[k] = 0x80
			words = append(words, d)
		}
		for k := 12; k < 32; k += engine.Pick(x, 5, 1) {
			d := a
			d[k] ^= 0x01
			words = append(words, d)
		}
	}
	x.Parallel("accounts", len(words)*nRevs, func(w *engine.Worker, i int) {
		rev, a := tosca.Revision(i%nRevs), words[i/nRevs]
		ops := []byte{0x31, 0x3b, 0x3f}
		for _, p := range ops {
			for _, q := range ops {
				// the second access is warm
				code := engine.Asm(a, p, a, q, 0x5a)
				for k, wd := range []*engine.WorldSpec{&engine.StdWorld, &warmWorld} {
					w.Check(&engine.Case{Rev: rev, Gas: 20000, Code: append(code, engine.RetTop(3)...), World: wd, Sweep: deep || k == 0})
				}
			}
		}
		for sz := uint64(0); sz < 80; sz += 13 {
			for _, off := range []ref.W{{}, ref.FromU64(1), ref.FromU64(32), ref.FromU64(69), ref.FromU64(70), pow2(64, 0), maxWord} {
				code := append(fill(), engine.Asm(engine.Push(sz), off, 0x60, 2, a, 0x3c, 0x60, 128, 0x60, 0, 0xf3)...)
				w.Check(&engine.Case{Rev: rev, Gas: 20000, Code: code})
			}
		}
	})
	// 6. the own balance before and after calls that change it
	x.Parallel("selfbalance", nRevs*4, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		for _, op := range callOps {
			code := engine.Asm(0x47)
			code = append(code, callCode(op, ref.FromU64(3000), engine.AddrWord(engine.Rich), ref.W{}, r2(0, 0), r2(0, 0))...)
			code = append(code, 0x47, 0x30, 0x31)
			w.Check(&engine.Case{Rev: rev, Gas: 50000, Code: append(code, engine.RetTop(4)...), World: scripted(&engine.StdWorld, engine.Resp{Success: i/nRevs%2 == 0, Mutate: i/nRevs/2 == 0})})
		}
	})
	x.Sample("BLOCKHASH(current-257..current+1), also with bits above 64 set")
}

func runLogs(x *engine.Explorer) {
	regs := [][2]ref.W{r2(0, 0), r2(0, 1), r2(5, 40), r2(64, 64), r2(96, 200), {maxWord, {}}, {maxWord, ref.FromU64(1)}, {{}, maxWord}, r2(0, 5000), r2(1<<33, 1), r2(0, 1<<33)}
	topics := []ref.W{{}, maxWord, pow2(160, 77)}
	var d ref.W
	for k := range d {
		d[k] = byte(k*3 + 1)
	}
	topics = append(topics, d)
	// 1. every number of topics, all topic words, all regions, all revisions
	x.Parallel("logs", 5*len(regs)*nRevs, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		n, reg := i%5, regs[i/5]
		sets := make([][]ref.W, n)
		for k := range sets {
			sets[k] = topics
		}
		product(sets, func(ts []ref.W) {
			code := fill()
			for k := n - 1; k >= 0; k-- {
				code = append(code, engine.PushW(ts[k])...)
			}
			code = append(code, engine.Asm(reg[1], reg[0], 0xa0+n, 0x59, 0x5a)...)
			code = append(code, engine.RetTop(2)...)
			for _, end := range [][]byte{code, append(code[:len(code)-1:len(code)-1], 0xfd)} {
				w.Check(&engine.Case{Rev: rev, Gas: 100_000, Code: end, Sweep: true})
			}
		})
	})
	// 2. histories of logs: order and content
	var toks [][]byte
	for n := 0; n <= 4; n++ {
		var c []byte
		for k := 0; k < n; k++ {
			c = append(c, 0x60, byte(0x10*n+k))
		}
		toks = append(toks, append(c, 0x60, byte(3*n), 0x60, byte(n), byte(0xa0+n)), append(append(c, 0x60, 0, 0x60, 40), byte(0xa0+n)))
	}
	toks = append(toks, engine.Asm(0x60, 0x5c, 0x60, 2, 0x52), engine.Asm(0x60, 1, 0x60, 0, 0x55), callCode(0xf1, ref.FromU64(100), engine.AddrWord(engine.Rich), ref.W{}, r2(0, 4), r2(0, 4)))
	seqs(x, "log-histories", toks, Pick3(x, 3, 4), func(w *engine.Worker, body []byte) {
		w.Check(&engine.Case{Rev: tosca.R13_Cancun, Gas: 100_000, Code: append(fill(), body...)})
	})
	// 3. self destruction
	bens := awords(engine.Self, engine.Caller, engine.Rich, engine.Poor, engine.Nonced, engine.Coder, engine.Ghost, engine.Base, precompile(3))
	dirty := bens[2]
	dirty[0], dirty[11] = 0xff, 0x01
	bens = append(bens, dirty)
	x.Parallel("selfdestruct", len(bens)*nRevs*2, func(w *engine.Worker, i int) {
		rev := tosca.Revision(i % nRevs)
		i /= nRevs
		b := bens[i%len(bens)]
		gone := i/len(bens) == 1
		for _, bal := range []ref.W{{}, ref.FromU64(1), pow2(128, 0), maxWord} {
			for _, warm := range []bool{false, true} {
				base := &engine.StdWorld
				if warm {
					base = &warmWorld
				}
				world := *base
				world.Accts = append([]engine.Acct{}, world.Accts...)
				world.Accts[0].Balance = tosca.Value(bal)
				world.Accts[0].Destructed = gone
				for _, pre := range [][]byte{nil, {0x60, 9, 0x60, 0, 0x55}, {0x60, 0, 0x60, 0, 0xa0}} {
					for _, static := range []bool{false, true} {
						code := append(append(pre[:len(pre):len(pre)], engine.PushW(b)...), 0xff, 0xfe)
						w.Check(&engine.Case{Rev: rev, Static: static, Gas: 100_000, Code: code, World: &world, Sweep: true})
					}
				}
			}
		}
	})
	x.Sample("LOG3(mem[96..296), topics) then REVERT; SELFDESTRUCT(to empty account) with balance, Berlin, cold")
}
