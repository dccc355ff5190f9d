package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P13"] = check{"lfvm-all,evmzero-all,evmrs-all,evmrs-logging", runHistories}
}

// An histOp is one execution of a history; equal numbers of codes stand for
// equal codes and hashes.
type histOp struct {
	name   string
	code   int
	body   []byte // executed after a prefix making the code unique to the history
	noHash bool
	rev    tosca.Revision
	static bool
	gas    int64
	world  *engine.WorldSpec
	nest   bool // calls execute the same code again
	size   int  // padded to this size
}

// nestWorld executes nested calls with the code of the execution itself.
type nestWorld struct {
	*engine.World
	p   tosca.Parameters
	run func(tosca.Parameters) (tosca.Result, error)
}

func (n *nestWorld) Call(kind tosca.CallKind, c tosca.CallParameters) (tosca.CallResult, error) {
	if n.p.Depth == 3 {
		return tosca.CallResult{GasLeft: c.Gas}, nil
	}
	d := *n
	d.p.Depth++
	d.p.Gas, d.p.Input, d.p.Context = c.Gas, c.Input, &d
	r, err := n.run(d.p)
	return tosca.CallResult{Output: r.Output, GasLeft: r.GasLeft, GasRefund: r.GasRefund, Success: r.Success}, err
}

func histOps() (ops []histOp) {
	add := func(o histOp) {
		if o.gas == 0 {
			o.gas = 1_000_000
		}
		ops = append(ops, o)
	}
	n32 := []byte{0x60, 0, 0x35} // the nonce
	hash := func(off, n byte) []byte { return []byte{0x60, n, 0x60, off, 0x20} }
	ret := engine.RetTop
	st := func(at byte) []byte { return []byte{0x60, at, 0x52} }
	add(histOp{name: "hash 32", code: 1, rev: 3, body: engine.Asm(n32, st(0), hash(0, 32), ret(1))})
	add(histOp{name: "hash 64", code: 2, rev: 3, body: engine.Asm(n32, st(0), 0x60, 9, st(32), hash(0, 64), ret(1))})
	add(histOp{name: "hash 64 more", code: 2, rev: 5, body: engine.Asm(n32, st(0), 0x60, 9, st(32), hash(0, 64), ret(1))})
	add(histOp{name: "hash zeros and neighbours", code: 3, rev: 3, body: engine.Asm(n32, st(64), hash(0, 32), hash(0, 64), hash(32, 64), hash(64, 32), hash(63, 32), hash(64, 33), hash(64, 0), ret(7))})
	// jump to position 20, which is a destination in one and data in the other code
	pos := 11 // length of the prefix
	jump := []byte{0x60, byte(pos + 8), 0x56}
	codeA := engine.Asm(jump, 0x61, 0x5b, 0x5b, 0x60, 0x60, 0x5b, 0x60, 7, ret(1)) // +8 is the data of a push
	codeB := engine.Asm(jump, 0x61, 0x5b, 0x5b, 0x00, 0x00, 0x5b, 0x60, 7, ret(1)) // +8 is a destination
	for i, c := range [][]byte{codeA, codeB} {
		name := [2]string{"jump into data", "jump"}[i]
		add(histOp{name: name, code: 4 + i, rev: 3, body: c})
		add(histOp{name: name + " unhashed", code: 4 + i, rev: 3, body: c, noHash: true})
	}
	add(histOp{name: "jump without gas", code: 5, rev: 3, body: codeB, gas: 10})
	push0 := engine.Asm(0x60, 3, 0x5f, ret(2))
	add(histOp{name: "PUSH0 before Shanghai", code: 6, rev: 3, body: push0})
	add(histOp{name: "PUSH0", code: 6, rev: 5, body: push0})
	dirty := []byte{}
	for i := 0; i < 12; i++ {
		dirty = append(dirty, engine.Asm(bytes.Repeat([]byte{0x7f}, 33), engine.Push(uint64(i*96)), 0x52)...)
	}
	add(histOp{name: "dirty memory", code: 7, rev: 3, body: engine.Asm(dirty, 0)})
	add(histOp{name: "dirty memory, return", code: 8, rev: 3, body: engine.Asm(dirty, n32, st(32), 0x60, 96, 0x60, 16, 0xf3)})
	add(histOp{name: "dirty memory, revert", code: 9, rev: 3, body: engine.Asm(dirty, n32, st(32), 0x60, 96, 0x60, 16, 0xfd)})
	add(histOp{name: "dirty memory, fail", code: 10, rev: 3, body: engine.Asm(dirty, 0xfe)})
	add(histOp{name: "dirty stack", code: 11, rev: 3, body: engine.Asm(pushN(200), 0)})
	add(histOp{name: "dirty stack, overflow", code: 12, rev: 3, body: append(pushN(1), 0x5b, 0x80, 0x60, byte(pos+2), 0x56)})
	add(histOp{name: "stack underflow", code: 13, rev: 3, body: engine.Asm(0x60, 1, 0x90, 0)})
	add(histOp{name: "probe", code: 14, rev: 3, body: engine.Asm(0x59, 0x60, 40, 0x51, 0x61, 2, 0, 0x51, 0x59, 0x3d, 0x61, 4, 0x7f, 0x51, st(0), st(32), st(64), st(96), 0x61, 5, 0, 0x60, 0, 0xf3)})
	spec := scripted(&engine.StdWorld, engine.Resp{Success: true, Out: 70})
	add(histOp{name: "call", code: 15, rev: 3, world: spec, body: engine.Asm(0x60, 70, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, engine.Rich, 0x61, 1, 0, 0xf1, 0x3d, 0x60, 70, st(0), 0x60, 96, 0x60, 0, 0xf3)})
	rec := engine.Asm(0x60, 32, 0x60, 0, 0x60, 32, 0x60, 0, 0x60, 0, 0x30, 0x5a, 0xf1, n32, 0x01, st(0), hash(0, 32), 0x60, 0, 0x51, 0x01, st(0), 0x60, 32, 0x60, 0, 0xf3)
	add(histOp{name: "recursion", code: 16, rev: 3, nest: true, body: rec})
	eff := engine.Asm(n32, 0x60, 5, 0x55, 0x60, 5, 0x54, st(0), n32, 0x60, 32, 0x60, 0, 0xa1, 0x60, 32, 0x60, 0, 0xf3)
	add(histOp{name: "effects", code: 17, rev: 3, body: eff})
	add(histOp{name: "effects, static", code: 17, rev: 3, static: true, body: eff})
	add(histOp{name: "truncated push", code: 18, rev: 3, body: engine.Asm(0x60, 1, 0x50, 0x7f, 1, 2, 3)})
	for i, s := range []int{24575, 24576, 24577} {
		add(histOp{name: fmt.Sprintf("code of %d bytes", s), code: 19 + i, rev: 3, size: s, body: engine.Asm(0x61, byte((s-1)>>8), byte(s-1), 0x56)})
	}
	return
}

// fakeHash is a well distributed hash standing for a code.
func fakeHash(n uint64) *tosca.Hash {
	var h tosca.Hash
	for i := 0; i < 32; i += 8 { // splitmix64
		n += 0x9e3779b97f4a7c15
		z := (n ^ n>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		binary.LittleEndian.PutUint64(h[i:], z^z>>31)
	}
	return &h
}

func (o *histOp) build(nonce uint64) *engine.Case {
	c := &engine.Case{Rev: o.rev, Static: o.static, Gas: o.gas, World: o.world}
	if c.World == nil {
		c.World = &engine.StdWorld
	}
	c.Code = append([]byte{0x69, byte(o.code), 0x5b}, make([]byte, 8)...)
	binary.BigEndian.PutUint64(c.Code[3:], nonce)
	c.Code[10] |= 1
	c.Code = append(c.Code, o.body...)
	for len(c.Code) < o.size {
		c.Code = append(c.Code, 0x5b)
	}
	c.Input = make([]byte, 32)
	binary.BigEndian.PutUint64(c.Input[20:], nonce)
	if !o.noHash {
		c.Hash = fakeHash(nonce<<8 | uint64(o.code))
	}
	return c
}

// run executes a case of the history, with all buffers shared with later
// executions, and returns the outcome; its output is not copied.
func (h *history) run(c *engine.Case, nest bool, run func(tosca.Parameters) (tosca.Result, error)) (o engine.Outcome, out []byte) {
	defer func() {
		if r := recover(); r != nil {
			o = engine.Outcome{Err: fmt.Sprintf("panic: %v", r)}
		}
	}()
	h.world.Reset(c.World)
	p := c.Params(&h.world)
	p.Code = h.code[:copy(h.code[:], c.Code)]
	p.Input = h.input[:copy(h.input[:], c.Input)]
	if c.Hash != nil {
		h.hash = *c.Hash
		p.CodeHash = &h.hash
	}
	if nest {
		n := &nestWorld{World: &h.world, p: p, run: run}
		p.Context = n
		n.p.Context = n
	}
	r, err := run(p)
	if err != nil {
		return engine.Outcome{Err: err.Error()}, nil
	}
	if !bytes.Equal(h.code[:len(c.Code)], c.Code) || !bytes.Equal(h.input[:len(c.Input)], c.Input) || c.Hash != nil && h.hash != *c.Hash {
		return engine.Outcome{Err: "parameters modified"}, nil
	}
	for i := range p.Code {
		h.code[i] = 0xfe
	}
	for i := range p.Input {
		h.input[i] = 0xee
	}
	h.hash = tosca.Hash{}
	return engine.Outcome{Success: r.Success, Out: bytes.Clone(r.Output), Gas: int64(r.GasLeft), Refund: int64(r.GasRefund),
		Journal: bytes.Clone(h.world.J), Access: bytes.Clone(h.world.A), Mut: h.world.Mut}, r.Output
}

type history struct {
	world engine.World
	code  [1 << 15]byte
	input [64]byte
	hash  tosca.Hash
}

func refRun(steps *int64, failed *bool) func(tosca.Parameters) (tosca.Result, error) {
	return func(p tosca.Parameters) (tosca.Result, error) {
		s := ref.New(&p)
		r := s.Run(1 << 30)
		*steps += int64(s.Steps)
		*failed = s.Status == ref.Failed
		return r, nil
	}
}

func runHistories(x *engine.Explorer) {
	ops := histOps()
	hs := make([]*history, 64)
	for i := range hs {
		hs[i] = &history{}
	}
	var total int
	// exec runs one history on every implementation.
	exec := func(w *engine.Worker, hist []histOp, nonce uint64) {
		h := hs[w.ID]
		cases := make([]*engine.Case, len(hist))
		want := make([]engine.Outcome, len(hist))
		failed := make([]bool, len(hist))
		names := ""
		var steps int64
		for i := range hist {
			cases[i] = hist[i].build(nonce)
			want[i], _ = h.run(cases[i], hist[i].nest, refRun(&steps, &failed[i]))
			names += hist[i].name + "; "
		}
		w.Begin([]byte(names))
		outs := make([][]byte, len(hist))
		for _, vm := range x.VMs {
			if len(hist) > 2 && strings.Contains(vm.Name, "logging") {
				continue // slow, and different in nothing but the output
			}
			for i, c := range cases {
				var got engine.Outcome
				got, outs[i] = h.run(c, hist[i].nest, vm.I.Run)
				d := engine.Diff(&want[i], &got, failed[i])
				for k := 0; k < i && d == ""; k++ {
					if !bytes.Equal(outs[k], want[k].Out) {
						d = fmt.Sprintf("execution %d changed the output of execution %d", i, k)
					}
				}
				if d != "" {
					x.Report(engine.Finding{VM: vm.Name, Family: w.Family, What: fmt.Sprintf("history [%s], execution %d: %s", names, i, d), Want: want[i].String(), Got: got.String(), Case: engine.MarshalCase(c)})
					break
				}
			}
		}
		w.End()
		w.Count(1, steps, int64(len(x.VMs)))
	}
	seqs := func(name string, ops []histOp, depth int, base uint64) {
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(ops)
		}
		total += n
		x.Parallel(name, n, func(w *engine.Worker, i int) {
			hist := make([]histOp, depth)
			for k, j := 0, i; k < depth; k++ {
				hist[k] = ops[j%len(ops)]
				j /= len(ops)
			}
			exec(w, hist, base+uint64(i))
		})
	}
	var small []histOp
	for _, o := range ops {
		if o.size == 0 {
			small = append(small, o)
		}
	}
	seqs("pairs", ops, 2, 1<<48)
	seqs("triples", small, 3, 2<<48)
	if x.Thorough() {
		seqs("quadruples", small, 4, 3<<48)
	}
	x.Extra("histories", total)
	runKeys(x, hs)
	runEvictions(x, hs)
	runConverter(x)
	x.ExternalShards("lfvm hash cache", engine.Pick(x, 100*time.Second, 300*time.Second), 8, filepath.Join(os.Getenv("VERIF_LIBS"), "goconc"), "P13", x.Tier)
}

// runKeys executes codes whose hashes, and hashes values which, differ in a
// single bit.
func runKeys(x *engine.Explorer, hs []*history) {
	ones := tosca.Hash(bytes.Repeat([]byte{0xff}, 32))
	bases := []tosca.Hash{*fakeHash(9 << 48), {}, ones}
	// a jump to a position which is a destination in every second code
	code := func(k int) []byte {
		c := engine.Asm(0x60, 5, 0x56, 0, 0, 0x5b, 0x60, byte(k), 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)
		if k&1 == 1 {
			c[4] = 0x60
		}
		return c
	}
	type job struct {
		name  string
		cases []*engine.Case
		zero  bool
	}
	var jobs []job
	for b, base := range bases {
		for bit := 0; bit < 256; bit++ {
			other := base
			other[bit/8] ^= 1 << (bit % 8)
			hashes := []*tosca.Hash{&base, &other}
			for _, first := range []int{0, 1} {
				j := job{name: fmt.Sprintf("codes with hashes differing in bit %d", bit)}
				for n := 0; n < 4; n++ {
					k := (first + n) & 1
					h := *hashes[k]
					j.cases = append(j.cases, &engine.Case{Rev: 3, Gas: 100_000, World: &engine.StdWorld, Code: code(2*b + k), Hash: &h})
				}
				jobs = append(jobs, j)
			}
		}
	}
	// an all zero hash stands for no hash
	j := job{name: "codes without a hash", zero: true}
	for n := 0; n < 6; n++ {
		j.cases = append(j.cases, &engine.Case{Rev: 3, Gas: 100_000, World: &engine.StdWorld, Code: code(n), Hash: &tosca.Hash{}})
	}
	jobs = append(jobs, j)
	for _, base := range bases {
		v := append(base[:], base[:]...)
		for bit := 0; bit < 512; bit++ {
			for _, size := range []byte{32, 64} {
				if bit >= int(size)*8 {
					continue
				}
				other := bytes.Clone(v)
				other[bit/8] ^= 1 << (bit % 8)
				j := job{name: fmt.Sprintf("hashes of %d bytes differing in bit %d", size, bit)}
				for n := 0; n < 4; n++ {
					j.cases = append(j.cases, &engine.Case{Rev: 3, Gas: 100_000, World: &engine.StdWorld, Input: [][]byte{v, other}[n&1],
						Code: engine.Asm(0x60, 64, 0x60, 0, 0x60, 0, 0x37, 0x60, size, 0x60, 0, 0x20, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)})
				}
				jobs = append(jobs, j)
			}
		}
	}
	x.Parallel("neighbouring keys", len(jobs), func(w *engine.Worker, i int) {
		j := jobs[i]
		h := hs[w.ID]
		w.Begin([]byte(j.name))
		for n, c := range j.cases {
			var steps int64
			var failed bool
			want, _ := h.run(c, false, refRun(&steps, &failed))
			w.Count(1, steps, int64(len(x.VMs)))
			for _, vm := range x.VMs {
				if strings.HasPrefix(vm.Name, "lfvm") && j.zero {
					continue
				}
				got, _ := h.run(c, false, vm.I.Run)
				if d := engine.Diff(&want, &got, failed); d != "" {
					x.Report(engine.Finding{VM: vm.Name, Family: w.Family, What: fmt.Sprintf("%s, execution %d: %s", j.name, n, d), Want: want.String(), Got: got.String(), Case: engine.MarshalCase(c)})
				}
			}
		}
		w.End()
	})
}

// hashRange accumulates the hashes of the words a, ..., a+n-1.
func hashRange(size byte) []byte {
	loop := engine.Asm(0x60, 0, 0x35, 0x60, 32, 0x35, 0x60, 0) // i n acc
	top := byte(len(loop))
	loop = append(loop, 0x5b)                                // i n acc
	loop = append(loop, 0x82, 0x60, 0, 0x52)                 // mem[0] = i
	loop = append(loop, 0x82, 0x60, 3, 0x02, 0x60, 32, 0x52) // mem[32] = 3i
	loop = append(loop, 0x60, 3, 0x02)                       // acc *= 3
	loop = append(loop, 0x60, size, 0x60, 0, 0x20, 0x01)     // acc += hash
	loop = append(loop, 0x91, 0x60, 1, 0x01, 0x91)           // i++  (i n acc -> acc n i -> ...)
	loop = append(loop, 0x90, 0x60, 1, 0x90, 0x03, 0x90)     // n--
	loop = append(loop, 0x81, 0x60, top, 0x57)               // while n
	return append(loop, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)
}

// runEvictions fills the caches beyond their capacities.
func runEvictions(x *engine.Explorer, hs []*history) {
	type block struct{ from, n uint64 }
	type job struct {
		vm     int
		size   byte
		blocks []block
	}
	var jobs []job
	for i, vm := range x.VMs {
		unit := uint64(512) // half of the capacity
		if vm.Name == "lfvm" {
			unit = 1 << 15
		} else if strings.HasPrefix(vm.Name, "lfvm") {
			continue // the cache is shared
		} else if strings.Contains(vm.Name, "logging") {
			continue
		}
		for _, size := range []byte{32, 64} {
			if vm.Name == "lfvm" && size == 64 {
				unit *= 4
			}
			al := []block{{0, unit}, {unit, unit}, {2 * unit, unit + 1}, {0, 1}, {unit - 1, 2}, {1 << 40, 1}}
			depth := engine.Pick(x, 3, 4)
			if vm.Name == "lfvm" {
				depth = engine.Pick(x, 1, 2)
			}
			j := job{vm: i, size: size}
			var rec func(pre []block)
			rec = func(pre []block) {
				if len(pre) == depth {
					j.blocks = append(j.blocks, pre...)
					return
				}
				for _, b := range al {
					rec(append(pre[:len(pre):len(pre)], b))
				}
			}
			rec(nil)
			jobs = append(jobs, j)
		}
	}
	// what every block yields, from the reference
	type key struct {
		b    block
		size byte
	}
	var keys []key
	seen := map[key]int{}
	for _, j := range jobs {
		for _, b := range j.blocks {
			if _, ok := seen[key{b, j.size}]; !ok {
				seen[key{b, j.size}] = len(keys)
				keys = append(keys, key{b, j.size})
			}
		}
	}
	blockCase := func(k key) *engine.Case {
		c := &engine.Case{Rev: 3, Gas: 1 << 40, Code: hashRange(k.size), Input: make([]byte, 64), WithHash: true, World: &engine.StdWorld}
		binary.BigEndian.PutUint64(c.Input[24:], k.b.from)
		binary.BigEndian.PutUint64(c.Input[56:], k.b.n)
		return c
	}
	want := make([]engine.Outcome, len(keys))
	x.Parallel("reference hashes", len(keys), func(w *engine.Worker, i int) {
		var steps int64
		var failed bool
		want[i], _ = hs[w.ID].run(blockCase(keys[i]), false, refRun(&steps, &failed))
		w.Count(1, steps, 0)
	})
	x.Parallel("hash cache evictions", len(jobs), func(w *engine.Worker, i int) {
		j := jobs[i]
		vm := x.VMs[j.vm]
		for n, b := range j.blocks {
			k := key{b, j.size}
			c := blockCase(k)
			w.Begin(c.Code)
			got, _ := hs[w.ID].run(c, false, vm.I.Run)
			w.End()
			w.Count(1, int64(b.n), 1)
			if d := engine.Diff(&want[seen[k]], &got, false); d != "" {
				x.Report(engine.Finding{VM: vm.Name, Family: w.Family, What: fmt.Sprintf("hashing %d byte values %d, ... in step %d of blocks %v: %s", j.size, b.from, n, j.blocks[max(0, n-4):n], d), Want: want[seen[k]].String(), Got: got.String(), Case: engine.MarshalCase(c)})
				return
			}
		}
	})
	// code caches
	x.Parallel("code cache evictions", len(x.VMs), func(w *engine.Worker, i int) {
		vm := x.VMs[i]
		if strings.Contains(vm.Name, "logging") {
			return
		}
		caps := []int{1 << 16}
		if strings.HasPrefix(vm.Name, "lfvm") {
			caps = []int{(1 << 30) / 24576 / 4}
		}
		h := hs[w.ID]
		nonce := uint64(5) << 48
		// codes jumping to a position which is a destination for even numbers only
		one := func(k uint64) string {
			c := &engine.Case{Rev: 3, Gas: 100_000, World: &engine.StdWorld}
			c.Code = engine.Asm(0x60, 5, 0x56, 0, 0, 0x5b, 0x67, make([]byte, 8), 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)
			if k&1 == 1 {
				c.Code[4] = 0x60 // position 5 is data
			}
			binary.BigEndian.PutUint64(c.Code[7:], k)
			c.Hash = fakeHash(nonce + k)
			got, _ := h.run(c, false, vm.I.Run)
			w.Count(1, 8, 1)
			if k&1 == 1 {
				if got.Err != "" || got.Success || got.Gas != 0 {
					return fmt.Sprintf("code %d: got %s, want a failed jump", k, got.String())
				}
				return ""
			}
			if got.Err != "" || !got.Success || len(got.Out) != 32 || binary.BigEndian.Uint64(got.Out[24:]) != k {
				return fmt.Sprintf("code %d: got %s, want success", k, got.String())
			}
			return ""
		}
		for _, c := range caps {
			for _, n := range []int{c - 1, c, c + 1} {
				nonce += 1 << 32
				w.Begin([]byte("fill the code cache"))
				seq := []uint64{0, 1}
				for k := 2; k < n; k++ {
					seq = append(seq, uint64(k))
				}
				seq = append(seq, 0, 1, 2, 3, uint64(n), uint64(n+1), uint64(n-1), 1, 0)
				for at, k := range seq {
					if d := one(k); d != "" {
						x.Report(engine.Finding{VM: vm.Name, Family: w.Family, What: fmt.Sprintf("after executing %d codes: %s", at, d), Case: engine.MarshalCase(&engine.Case{Rev: 3, World: &engine.StdWorld})})
						return
					}
				}
				w.End()
			}
		}
	})
}

// runConverter explores histories of the code converter with small caches.
func runConverter(x *engine.Explorer) {
	codes := [][]byte{{}, {0x5b}, {0x60, 1, 0x60, 2, 0x01}, {0x60, 3, 0x56, 0x5b, 0x00}, bytes.Repeat([]byte{0x5b}, 24576), bytes.Repeat([]byte{0x5b}, 24577)}
	type use struct {
		code int
		hash bool
	}
	var al []use
	for c := range codes {
		al = append(al, use{c, true})
		if c == 2 {
			al = append(al, use{c, false})
		}
	}
	hashes := make([]tosca.Hash, len(codes))
	for i := range hashes {
		hashes[i] = tosca.Hash{byte(i)} // the zero hash included
	}
	depth := engine.Pick(x, 4, 5)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(al)
	}
	const unit = 24576 * 4
	for _, si := range []bool{false, true} {
		plain, err := lfvm.NewConverter(lfvm.ConversionConfig{CacheSize: -1, WithSuperInstructions: si})
		if err != nil {
			fatal("cannot load implementation: %v", err)
		}
		want := make([]lfvm.Code, len(codes))
		for i, c := range codes {
			want[i] = plain.Convert(c, nil)
		}
		for size := 1; size <= 3; size++ {
			x.Parallel("converter", n, func(w *engine.Worker, i int) {
				cv, err := lfvm.NewConverter(lfvm.ConversionConfig{CacheSize: size*unit + 5, WithSuperInstructions: si})
				if err != nil {
					fatal("cannot load implementation: %v", err)
				}
				w.BeginNote(func() string { return "converter" })
				defer w.End()
				var seq []use
				for k, j := 0, i; k < depth; k++ {
					u := al[j%len(al)]
					j /= len(al)
					seq = append(seq, u)
					code := bytes.Clone(codes[u.code])
					var h *tosca.Hash
					if u.hash {
						hh := hashes[u.code]
						h = &hh
					}
					got := cv.Convert(code, h)
					for b := range code {
						code[b] = 0xfe
					}
					if h != nil {
						*h = tosca.Hash{}
					}
					if len(got) != len(want[u.code]) || !(len(got) == 0 || reflect.DeepEqual(got, want[u.code])) {
						x.Report(engine.Finding{VM: "lfvm converter", Family: w.Family, What: fmt.Sprintf("cache for %d codes, super instructions %v: conversions (code, with hash) %v yield %.80v for the last", size, si, seq, got), Case: []byte(`{}`)})
						return
					}
				}
				w.Count(1, int64(depth), int64(depth))
			})
		}
	}
}
