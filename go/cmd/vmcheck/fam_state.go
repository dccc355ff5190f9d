package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/ct/utils"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"golang.org/x/crypto/sha3"
	"verif/engine"
)

// P27: the states the conformance tests work with are values: clones are
// independent, comparison and difference agree with what can be observed, and
// writing a state to a file and reading it back loses nothing.

func init() {
	checks["P27"] = check{"", func(x *engine.Explorer) {
		c := &stateCheck{x: x}
		c.components()
		c.memoryCosts()
		c.codes()
		c.states()
		c.files()
		c.adapter()
	}}
}

type stateCheck struct {
	x  *engine.Explorer
	mu sync.Mutex
	n  map[string]int
}

// report reports up to three findings per family and kind.
func (c *stateCheck) report(family, what, kind, want, got string) {
	c.mu.Lock()
	if c.n == nil {
		c.n = map[string]int{}
	}
	key := family + kind
	c.n[key]++
	n := c.n[key]
	c.mu.Unlock()
	if n > 3 {
		return
	}
	if len(got) > 800 {
		got = got[:800]
	}
	data, _ := json.Marshal(map[string]any{"family": family, "what": what, "kind": kind})
	f := engine.Finding{VM: "ct/st", Family: family, What: kind + ": " + what, Want: want, Got: got, Case: data}
	c.x.Report(f)
}

func (c *stateCheck) guard(family, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			c.report(family, what, "panic", "no panic", fmt.Sprint(e))
		}
	}()
	f()
}

// ---- operation sequences on components

// component describes a part of a state: X is the real thing, the model holds
// the expected observations.
type component struct {
	name  string
	fresh func() any
	ops   []compOp
	clone func(any) any
	// observe lists what can be observed, in the format of the model
	observe func(any) string
	eq      func(a, b any) bool
	diff    func(a, b any) int
	// canonical maps observations to classes which have to be equal
	canonical func(m compModel) string
	release   func(any)
	extra     func(x any, what string) // further checks
	depth     int
}

type compModel map[string]string

func (m compModel) clone() compModel {
	r := compModel{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m compModel) String() string {
	var l []string
	for k, v := range m {
		if v != "" {
			l = append(l, k+"="+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type compOp struct {
	name string
	// run applies the operation and returns the component to go on with and
	// what the operation returned
	run func(x any) (any, string)
	// model returns what the operation is expected to return
	model func(m compModel) string
}

const compSlots = 2

func (c *stateCheck) components() {
	for _, p := range c.componentList() {
		c.component(p)
	}
}

func (c *stateCheck) component(p component) {
	slots := compSlots
	width := len(p.ops)*slots + slots*(slots-1)
	depth := p.depth
	if c.x.Thorough() {
		depth++
	}
	name := func(seq []int) string {
		var l []string
		for _, o := range seq {
			l = append(l, p.opName(o))
		}
		return p.name + ": " + strings.Join(l, "; ")
	}
	run := func(seq []int) {
		var x [compSlots]any
		var m [compSlots]compModel
		for i := range x {
			x[i], m[i] = p.fresh(), compModel{}
		}
		for _, o := range seq {
			if o < len(p.ops)*slots {
				op, i := p.ops[o/slots], o%slots
				want := op.model(m[i])
				var got string
				x[i], got = op.run(x[i])
				if got != want {
					c.report(p.name, name(seq), "result of the last operation", want, got)
				}
				continue
			}
			i := o - len(p.ops)*slots // clone i to the other one
			if p.release != nil {
				p.release(x[1-i])
			}
			x[1-i], m[1-i] = p.clone(x[i]), m[i].clone()
		}
		for i := range x {
			if got, want := p.observe(x[i]), m[i].String(); got != want {
				c.report(p.name, name(seq), fmt.Sprint("content of instance ", i), want, got)
			}
		}
		if p.extra != nil {
			for i := range x {
				p.extra(x[i], name(seq))
			}
		}
		if p.eq != nil {
			want := p.canonical(m[0]) == p.canonical(m[1])
			for k := 0; k < 2; k++ {
				if got := p.eq(x[k], x[1-k]); got != want {
					c.report(p.name, name(seq), "equality", fmt.Sprint(want), fmt.Sprint(got))
				}
				if d := p.diff(x[k], x[1-k]); (d == 0) != want {
					c.report(p.name, name(seq), "difference", fmt.Sprint("empty: ", want), fmt.Sprint("empty: ", d == 0))
				}
			}
		}
		if p.release != nil {
			for i := range x {
				p.release(x[i])
			}
		}
	}
	c.x.Parallel("operations on "+p.name, width*width, func(w *engine.Worker, n int) {
		seq := []int{n / width, n % width}
		w.BeginNote(func() string { return name(seq) })
		defer w.End()
		count := 0
		var rec func(seq []int)
		rec = func(seq []int) {
			if count++; count%100000 == 0 {
				w.End()
				w.BeginNote(func() string { return name(seq) })
			}
			c.guard(p.name, name(seq), func() { run(seq) })
			if len(seq) < depth {
				for o := 0; o < width; o++ {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
		}
		if n%width == 0 {
			rec2 := seq[:1]
			c.guard(p.name, name(rec2), func() { run(rec2) })
		}
		rec(seq)
		w.Count(int64(count), int64(count), int64(count))
	})
}

func (p *component) opName(o int) string {
	if o < len(p.ops)*compSlots {
		return fmt.Sprintf("%d.%s", o%compSlots, p.ops[o/compSlots].name)
	}
	i := o - len(p.ops)*compSlots
	return fmt.Sprintf("%d=clone of %d", 1-i, i)
}

func silent(f func(m compModel)) func(m compModel) string {
	return func(m compModel) string { f(m); return "" }
}

var stateKeys = []common.U256{common.NewU256(1), common.NewU256(1, 0, 0, 1)}
var stateAddrs = []tosca.Address{{1}, {19: 1}}

func u256s(v common.U256) string {
	if v.IsZero() {
		return ""
	}
	return v.String()
}

func boolS(b bool) string {
	if b {
		return "true"
	}
	return ""
}

// dropZero compares ignoring everything marked as only present.
func exact(m compModel) string { return m.String() }

func (c *stateCheck) componentList() []component {
	var res []component

	// storage
	p := component{name: "storage", depth: 4,
		fresh: func() any { return &st.Storage{} },
		clone: func(x any) any { return x.(*st.Storage).Clone() },
		observe: func(x any) string {
			s, m := x.(*st.Storage), compModel{}
			for i, k := range stateKeys {
				m[fmt.Sprint("current", i)] = u256s(s.GetCurrent(k))
				m[fmt.Sprint("original", i)] = u256s(s.GetOriginal(k))
				m[fmt.Sprint("warm", i)] = boolS(s.IsWarm(k))
			}
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.Storage).Eq(b.(*st.Storage)) },
		diff:      func(a, b any) int { return len(a.(*st.Storage).Diff(b.(*st.Storage))) },
		canonical: exact,
	}
	type so = func(s *st.Storage)
	add := func(name string, f so, m func(m compModel)) {
		p.ops = append(p.ops, compOp{name, func(x any) (any, string) { f(x.(*st.Storage)); return x, "" }, silent(m)})
	}
	for i, k := range stateKeys {
		i, k := i, k
		for _, v := range []uint64{0, 7} {
			v := common.NewU256(v)
			add(fmt.Sprintf("SetCurrent(%d,%v)", i, v.Uint64()), func(s *st.Storage) { s.SetCurrent(k, v) }, func(m compModel) { m[fmt.Sprint("current", i)] = u256s(v) })
			add(fmt.Sprintf("SetOriginal(%d,%v)", i, v.Uint64()), func(s *st.Storage) { s.SetOriginal(k, v) }, func(m compModel) { m[fmt.Sprint("original", i)] = u256s(v) })
		}
		add(fmt.Sprintf("RemoveCurrent(%d)", i), func(s *st.Storage) { s.RemoveCurrent(k) }, func(m compModel) { m[fmt.Sprint("current", i)] = "" })
		add(fmt.Sprintf("RemoveOriginal(%d)", i), func(s *st.Storage) { s.RemoveOriginal(k) }, func(m compModel) { m[fmt.Sprint("original", i)] = "" })
		add(fmt.Sprintf("MarkWarm(%d)", i), func(s *st.Storage) { s.MarkWarm(k) }, func(m compModel) { m[fmt.Sprint("warm", i)] = "true" })
		add(fmt.Sprintf("MarkCold(%d)", i), func(s *st.Storage) { s.MarkCold(k) }, func(m compModel) { m[fmt.Sprint("warm", i)] = "" })
	}
	p.ops = append(p.ops, compOp{"built", func(any) (any, string) {
		b := st.NewStorageBuilder()
		b.SetCurrent(stateKeys[0], common.NewU256(7)).SetOriginal(stateKeys[1], common.NewU256(7)).SetWarm(stateKeys[0], true).SetWarm(stateKeys[1], false)
		got := fmt.Sprint(b.IsInOriginal(stateKeys[0]), b.IsInOriginal(stateKeys[1]))
		s := b.Build()
		b.SetCurrent(stateKeys[0], common.NewU256(8)).SetOriginal(stateKeys[1], common.NewU256(8)).SetWarm(stateKeys[1], true)
		got += fmt.Sprint(b.IsInOriginal(stateKeys[0]), b.IsInOriginal(stateKeys[1]))
		return s, got
	}, func(m compModel) string {
		clear(m)
		m["current0"], m["original1"], m["warm0"] = u256s(common.NewU256(7)), u256s(common.NewU256(7)), "true"
		return "false truefalse true"
	}})
	res = append(res, p)

	// transient storage
	p = component{name: "transient storage", depth: 5,
		fresh: func() any { return &st.TransientStorage{} },
		clone: func(x any) any { return x.(*st.TransientStorage).Clone() },
		observe: func(x any) string {
			s, m := x.(*st.TransientStorage), compModel{}
			all := true
			for i, k := range stateKeys {
				v := s.Get(k)
				m[fmt.Sprint(i)] = u256s(v)
				if s.IsZero(k) != v.IsZero() {
					return "IsZero wrong"
				}
				all = all && v.IsZero()
			}
			if s.IsAllZero() != all {
				return "IsAllZero wrong"
			}
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.TransientStorage).Eq(b.(*st.TransientStorage)) },
		diff:      func(a, b any) int { return len(a.(*st.TransientStorage).Diff(b.(*st.TransientStorage))) },
		canonical: exact,
	}
	for i, k := range stateKeys {
		i, k := i, k
		for _, v := range []uint64{0, 7, 8} {
			v := common.NewU256(v)
			p.ops = append(p.ops, compOp{fmt.Sprintf("Set(%d,%v)", i, v.Uint64()),
				func(x any) (any, string) { x.(*st.TransientStorage).Set(k, v); return x, "" },
				silent(func(m compModel) { m[fmt.Sprint(i)] = u256s(v) })})
		}
	}
	res = append(res, p)

	// accounts
	p = component{name: "accounts", depth: 4,
		fresh: func() any { return st.NewAccounts() },
		clone: func(x any) any { return x.(*st.Accounts).Clone() },
		observe: func(x any) string {
			s, m := x.(*st.Accounts), compModel{}
			for i, k := range stateAddrs {
				m[fmt.Sprint("exists", i)] = boolS(s.Exists(k))
				m[fmt.Sprint("balance", i)] = u256s(s.GetBalance(k))
				if c := s.GetCode(k); c.Length() > 0 {
					m[fmt.Sprint("code", i)] = c.String()
				}
				m[fmt.Sprint("warm", i)] = boolS(s.IsWarm(k))
				if a := s.GetAccount(k); a.Balance != s.GetBalance(k) || a.Code != s.GetCode(k) {
					return "GetAccount wrong"
				}
				if s.IsEmpty(k) != (s.GetBalance(k).IsZero() && s.GetCode(k).Length() == 0) {
					return "IsEmpty wrong"
				}
			}
			_ = s.String()
			return m.String()
		},
		extra: func(x any, what string) {
			for _, k := range stateAddrs {
				code := x.(*st.Accounts).GetCode(k).ToBytes()
				if got, want := x.(*st.Accounts).GetCodeHash(k), keccak(code); got == [32]byte{} {
					c.report("accounts", what, "code hash of an account is zero", fmt.Sprintf("%x", want), "0")
				} else if got != want {
					c.report("accounts", what, "code hash of an account", fmt.Sprintf("%x", want), fmt.Sprintf("%x", got))
				}
			}
		},
		eq:        func(a, b any) bool { return a.(*st.Accounts).Eq(b.(*st.Accounts)) },
		diff:      func(a, b any) int { return len(a.(*st.Accounts).Diff(b.(*st.Accounts))) },
		canonical: exact,
	}
	for i, k := range stateAddrs {
		i, k := i, k
		for _, v := range []uint64{0, 7} {
			v := common.NewU256(v)
			p.ops = append(p.ops, compOp{fmt.Sprintf("SetBalance(%d,%v)", i, v.Uint64()),
				func(x any) (any, string) { x.(*st.Accounts).SetBalance(k, v); return x, "" },
				silent(func(m compModel) { m[fmt.Sprint("exists", i)] = "true"; m[fmt.Sprint("balance", i)] = u256s(v) })})
		}
		p.ops = append(p.ops, compOp{fmt.Sprintf("MarkWarm(%d)", i),
			func(x any) (any, string) { x.(*st.Accounts).MarkWarm(k); return x, "" },
			silent(func(m compModel) { m[fmt.Sprint("warm", i)] = "true" })})
		p.ops = append(p.ops, compOp{fmt.Sprintf("built(%d)", i), func(any) (any, string) {
			b := st.NewAccountsBuilder()
			b.SetCode(k, common.NewBytes([]byte{1})).SetWarm(k)
			got := fmt.Sprint(b.Exists(stateAddrs[0]), b.Exists(stateAddrs[1]))
			s := b.Build()
			b.SetCode(k, common.NewBytes([]byte{2})).SetBalance(k, common.NewU256(9)).SetWarm(stateAddrs[1-i])
			return s, got
		}, func(m compModel) string {
			clear(m)
			m[fmt.Sprint("exists", i)], m[fmt.Sprint("code", i)], m[fmt.Sprint("warm", i)] = "true", "0x01", "true"
			return fmt.Sprint(i == 0, i == 1)
		}})
		p.ops = append(p.ops, compOp{fmt.Sprintf("built with balance(%d)", i), func(any) (any, string) {
			return st.NewAccountsBuilder().SetBalance(k, common.NewU256(3)).SetCode(k, common.NewBytes([]byte{5})).SetBalance(k, common.NewU256(7)).Build(), ""
		}, silent(func(m compModel) {
			clear(m)
			m[fmt.Sprint("exists", i)], m[fmt.Sprint("balance", i)], m[fmt.Sprint("code", i)] = "true", u256s(common.NewU256(7)), "0x05"
		})})
	}
	res = append(res, p)

	// stack: the model keeps the values from the bottom to the top
	vals := func(m compModel) []string {
		if m["stack"] == "" {
			return nil
		}
		return strings.Split(m["stack"], ",")
	}
	set := func(m compModel, v []string) { m["stack"] = strings.Join(v, ",") }
	p = component{name: "stack", depth: 4,
		fresh: func() any { return st.NewStack() },
		clone: func(x any) any { return x.(*st.Stack).Clone() },
		observe: func(x any) string {
			s, m := x.(*st.Stack), compModel{}
			var l []string
			for i := s.Size() - 1; i >= 0; i-- {
				v := s.Get(i)
				l = append(l, fmt.Sprint(v.Uint64()))
			}
			set(m, l)
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.Stack).Eq(b.(*st.Stack)) },
		diff:      func(a, b any) int { return len(a.(*st.Stack).Diff(b.(*st.Stack))) },
		canonical: exact,
		release:   func(x any) { x.(*st.Stack).Release() },
	}
	for _, v := range []uint64{1, 2} {
		v := v
		p.ops = append(p.ops, compOp{fmt.Sprintf("Push(%d)", v), func(x any) (any, string) { x.(*st.Stack).Push(common.NewU256(v)); return x, "" },
			silent(func(m compModel) { set(m, append(vals(m), fmt.Sprint(v))) })})
	}
	p.ops = append(p.ops,
		compOp{"Pop", func(x any) (any, string) {
			if x.(*st.Stack).Size() == 0 {
				return x, "empty"
			}
			v := x.(*st.Stack).Pop()
			return x, fmt.Sprint(v.Uint64())
		}, func(m compModel) string {
			v := vals(m)
			if len(v) == 0 {
				return "empty"
			}
			set(m, v[:len(v)-1])
			return v[len(v)-1]
		}},
		compOp{"Set(0,3)", func(x any) (any, string) {
			if x.(*st.Stack).Size() > 0 {
				x.(*st.Stack).Set(0, common.NewU256(3))
			}
			return x, ""
		}, silent(func(m compModel) {
			if v := vals(m); len(v) > 0 {
				v[len(v)-1] = "3"
				set(m, v)
			}
		})},
		compOp{"Set(1,4)", func(x any) (any, string) {
			if x.(*st.Stack).Size() > 1 {
				x.(*st.Stack).Set(1, common.NewU256(4))
			}
			return x, ""
		}, silent(func(m compModel) {
			if v := vals(m); len(v) > 1 {
				v[len(v)-2] = "4"
				set(m, v)
			}
		})},
		compOp{"Resize(1) to value 5 when grown", func(x any) (any, string) {
			s := x.(*st.Stack)
			old := s.Size()
			s.Resize(1)
			if old < 1 {
				s.Set(0, common.NewU256(5))
			}
			return x, ""
		}, silent(func(m compModel) {
			v := vals(m)
			if len(v) < 1 {
				v = []string{"5"}
			}
			set(m, v[:1])
		})},
		compOp{"Resize(600), filled, Resize(2)", func(x any) (any, string) {
			s := x.(*st.Stack)
			old := s.Size()
			s.Resize(600)
			for i := 0; i < 600-old; i++ {
				s.Set(i, common.NewU256(6))
			}
			s.Resize(2)
			return x, ""
		}, silent(func(m compModel) {
			v := vals(m)
			for len(v) < 2 {
				v = append(v, "6")
			}
			set(m, v[:2])
		})},
		compOp{"released, new from values", func(x any) (any, string) {
			x.(*st.Stack).Release()
			in := []common.U256{common.NewU256(7), common.NewU256(8)}
			s := st.NewStack(in...)
			in[0] = common.NewU256(9)
			return s, ""
		}, silent(func(m compModel) { set(m, []string{"7", "8"}) })},
		compOp{"new with 600 values, released", func(x any) (any, string) {
			s := st.NewStackWithSize(600)
			for i := 0; i < 600; i++ {
				s.Set(i, common.NewU256(11))
			}
			s.Release()
			return x, ""
		}, silent(func(compModel) {})},
		compOp{"stack without space released", func(x any) (any, string) {
			(&st.Stack{}).Release()
			return x, ""
		}, silent(func(compModel) {})},
	)
	res = append(res, p)

	// memory
	p = component{name: "memory", depth: 4,
		fresh: func() any { return st.NewMemory() },
		clone: func(x any) any { return x.(*st.Memory).Clone() },
		observe: func(x any) string {
			s, m := x.(*st.Memory), compModel{}
			if s.Size() > 0 {
				c := s.Clone()
				m["data"] = fmt.Sprintf("%x", c.Read(0, uint64(c.Size())))
				if c.Size() != s.Size() && s.Size()%32 == 0 {
					return "Read of the whole memory changes its size"
				}
				m["data"] = m["data"][:2*s.Size()]
			}
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.Memory).Eq(b.(*st.Memory)) },
		diff:      func(a, b any) int { return len(a.(*st.Memory).Diff(b.(*st.Memory))) },
		canonical: exact,
	}
	type rng struct{ off, size int }
	grow := func(m compModel, off, size int) []byte {
		d := unhex(m["data"])
		if size == 0 {
			return d
		}
		if off+size > len(d) {
			n := (off + size + 31) / 32 * 32
			d = append(d, make([]byte, n-len(d))...)
		}
		m["data"] = fmt.Sprintf("%x", d)
		return d
	}
	for _, r := range []rng{{0, 0}, {0, 1}, {0, 3}, {31, 1}, {31, 2}, {33, 0}, {40, 32}} {
		r := r
		p.ops = append(p.ops,
			compOp{fmt.Sprintf("Write(%d,%d)", r.off, r.size), func(x any) (any, string) {
				d := bytes.Repeat([]byte{0xab}, r.size)
				x.(*st.Memory).Write(d, uint64(r.off))
				for i := range d {
					d[i] = 0xff
				}
				return x, ""
			}, silent(func(m compModel) {
				d := grow(m, r.off, r.size)
				if r.size > 0 {
					copy(d[r.off:], bytes.Repeat([]byte{0xab}, r.size))
					m["data"] = fmt.Sprintf("%x", d)
				}
			})},
			compOp{fmt.Sprintf("Read(%d,%d)", r.off, r.size), func(x any) (any, string) {
				return x, fmt.Sprintf("%x", x.(*st.Memory).Read(uint64(r.off), uint64(r.size)))
			}, func(m compModel) string {
				d := grow(m, r.off, r.size)
				if r.size == 0 {
					return ""
				}
				return fmt.Sprintf("%x", d[r.off:r.off+r.size])
			}},
			compOp{fmt.Sprintf("Hash(%d,%d)", r.off, r.size), func(x any) (any, string) {
				return x, fmt.Sprintf("%x", x.(*st.Memory).Hash(uint64(r.off), uint64(r.size)))
			}, func(m compModel) string {
				d := grow(m, r.off, r.size)
				if r.size == 0 {
					return fmt.Sprintf("%x", keccak(nil))
				}
				return fmt.Sprintf("%x", keccak(d[r.off:r.off+r.size]))
			}})
	}
	p.ops = append(p.ops,
		compOp{"Append(2)", func(x any) (any, string) { x.(*st.Memory).Append([]byte{0xc1, 0xc2}); return x, "" }, silent(func(m compModel) { m["data"] += "c1c2" })},
		compOp{"Set(3)", func(x any) (any, string) {
			d := []byte{0xd1, 0xd2, 0xd3}
			x.(*st.Memory).Set(d)
			d[0] = 0xff
			return x, ""
		}, silent(func(m compModel) { m["data"] = "d1d2d3" })},
		compOp{"Grow(64,1)", func(x any) (any, string) { x.(*st.Memory).Grow(64, 1); return x, "" }, silent(func(m compModel) { grow(m, 64, 1) })},
		compOp{"Grow(64,0)", func(x any) (any, string) { x.(*st.Memory).Grow(64, 0); return x, "" }, silent(func(m compModel) {})},
	)
	p.depth = 3
	res = append(res, p)

	// logs
	p = component{name: "logs", depth: 5,
		fresh: func() any { return st.NewLogs() },
		clone: func(x any) any { return x.(*st.Logs).Clone() },
		observe: func(x any) string {
			m := compModel{}
			for _, e := range x.(*st.Logs).Entries {
				m["log"] += fmt.Sprintf("%x|", e.Data)
				for _, t := range e.Topics {
					m["log"] += fmt.Sprint(t.Uint64(), ",")
				}
				m["log"] += ";"
			}
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.Logs).Eq(b.(*st.Logs)) },
		diff:      func(a, b any) int { return len(a.(*st.Logs).Diff(b.(*st.Logs))) },
		canonical: exact,
	}
	for _, l := range []struct {
		d []byte
		t []uint64
	}{{nil, nil}, {[]byte{1}, nil}, {nil, []uint64{1}}, {[]byte{1}, []uint64{1, 2}}, {[]byte{2}, []uint64{2, 1}}} {
		l := l
		topics := func() (r []common.U256) {
			for _, t := range l.t {
				r = append(r, common.NewU256(t))
			}
			return
		}
		p.ops = append(p.ops, compOp{fmt.Sprintf("AddLog(%x,%d)", l.d, l.t), func(x any) (any, string) {
			d, t := bytes.Clone(l.d), topics()
			x.(*st.Logs).AddLog(d, t...)
			for i := range d {
				d[i]++
			}
			for i := range t {
				t[i] = common.NewU256(99)
			}
			return x, ""
		}, silent(func(m compModel) {
			m["log"] += fmt.Sprintf("%x|", l.d)
			for _, t := range l.t {
				m["log"] += fmt.Sprint(t, ",")
			}
			m["log"] += ";"
		})})
	}
	p.ops = append(p.ops, compOp{"last entry modified", func(x any) (any, string) {
		if e := x.(*st.Logs).Entries; len(e) > 0 {
			for i := range e[len(e)-1].Data {
				e[len(e)-1].Data[i] = 0xee
			}
			for i := range e[len(e)-1].Topics {
				e[len(e)-1].Topics[i] = common.NewU256(5)
			}
		}
		return x, ""
	}, silent(func(m compModel) {
		if m["log"] == "" {
			return
		}
		l := strings.Split(strings.TrimSuffix(m["log"], ";"), ";")
		e := strings.Split(l[len(l)-1], "|")
		e[0] = strings.Repeat("ee", len(e[0])/2)
		e[1] = strings.Repeat("5,", strings.Count(e[1], ","))
		l[len(l)-1] = e[0] + "|" + e[1]
		m["log"] = strings.Join(l, ";") + ";"
	})})
	res = append(res, p)

	// call journal
	kinds := []tosca.CallKind{tosca.Call, tosca.Create2}
	future := func(i int) st.FutureCall {
		return []st.FutureCall{
			{Success: true, Output: common.NewBytes([]byte{1, 2}), GasCosts: 10, GasRefund: 3, CreatedAccount: tosca.Address{7}},
			{Success: false, GasCosts: 200, GasRefund: -1},
		}[i]
	}
	p = component{name: "call journal", depth: 5,
		fresh: func() any { return st.NewCallJournal() },
		clone: func(x any) any { return x.(*st.CallJournal).Clone() },
		observe: func(x any) string {
			m := compModel{}
			for _, e := range x.(*st.CallJournal).Past {
				m["past"] += fmt.Sprintf("%+v;", e)
			}
			for _, e := range x.(*st.CallJournal).Future {
				m["future"] += fmt.Sprintf("%+v;", e)
			}
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.CallJournal).Equal(b.(*st.CallJournal)) },
		diff:      func(a, b any) int { return len(a.(*st.CallJournal).Diff(b.(*st.CallJournal))) },
		canonical: exact,
	}
	for i := 0; i < 2; i++ {
		i := i
		p.ops = append(p.ops, compOp{fmt.Sprint("future call ", i), func(x any) (any, string) {
			j := x.(*st.CallJournal)
			j.Future = append(j.Future, future(i))
			return x, ""
		}, silent(func(m compModel) { m["future"] += fmt.Sprintf("%+v;", future(i)) })})
		p.ops = append(p.ops, compOp{fmt.Sprint("Call ", kinds[i]), func(x any) (any, string) {
			in := []byte{byte(i), 5}
			r := x.(*st.CallJournal).Call(kinds[i], tosca.CallParameters{Sender: tosca.Address{1}, Recipient: tosca.Address{byte(2 + i)}, Value: tosca.NewValue(uint64(i)), Input: in, Gas: 100, CodeAddress: tosca.Address{4}})
			in[0] = 77
			res := fmt.Sprintf("%+v", r)
			for k := range r.Output {
				r.Output[k] = 88
			}
			return x, res
		}, func(m compModel) string {
			m["past"] += fmt.Sprintf("%+v;", st.PastCall{Kind: kinds[i], Sender: tosca.Address{1}, Recipient: tosca.Address{byte(2 + i)}, Value: tosca.NewValue(uint64(i)), Input: common.NewBytes([]byte{byte(i), 5}), Gas: 100, CodeAddress: tosca.Address{4}})
			r := tosca.CallResult{GasLeft: 100, Output: tosca.Data{}}
			for k := 0; k < 2; k++ {
				f := future(k)
				if t := fmt.Sprintf("%+v;", f); strings.HasPrefix(m["future"], t) {
					m["future"] = strings.TrimPrefix(m["future"], t)
					left := 100 - f.GasCosts
					if left < 0 {
						left = 0
					}
					r = tosca.CallResult{Success: f.Success, Output: f.Output.ToBytes(), GasLeft: left, GasRefund: f.GasRefund, CreatedAddress: f.CreatedAccount}
					break
				}
			}
			return fmt.Sprintf("%+v", r)
		}})
	}
	p.ops = append(p.ops, compOp{"first past call modified", func(x any) (any, string) {
		if l := x.(*st.CallJournal).Past; len(l) > 0 {
			l[0] = st.PastCall{Gas: 5}
		}
		return x, ""
	}, silent(func(m compModel) {
		if l := strings.SplitN(m["past"], ";", 2); len(l) == 2 {
			m["past"] = fmt.Sprintf("%+v;", st.PastCall{Gas: 5}) + l[1]
		}
	})}, compOp{"first future call modified", func(x any) (any, string) {
		if l := x.(*st.CallJournal).Future; len(l) > 0 {
			l[0] = future(1)
		}
		return x, ""
	}, silent(func(m compModel) {
		if l := strings.SplitN(m["future"], ";", 2); len(l) == 2 {
			m["future"] = fmt.Sprintf("%+v;", future(1)) + l[1]
		}
	})})
	res = append(res, p)

	// transaction context
	p = component{name: "transaction context", depth: 5,
		fresh: func() any { return st.NewTransactionContext() },
		clone: func(x any) any { return x.(*st.TransactionContext).Clone() },
		observe: func(x any) string {
			t, m := x.(*st.TransactionContext), compModel{}
			if t.OriginAddress != (tosca.Address{}) {
				m["origin"] = t.OriginAddress.String()
			}
			for _, h := range t.BlobHashes {
				m["blobs"] += fmt.Sprint(h[31]) + ","
			}
			_ = t.String()
			return m.String()
		},
		eq:        func(a, b any) bool { return a.(*st.TransactionContext).Eq(b.(*st.TransactionContext)) },
		diff:      func(a, b any) int { return len(a.(*st.TransactionContext).Diff(b.(*st.TransactionContext))) },
		canonical: exact,
		ops: []compOp{
			{"origin", func(x any) (any, string) { x.(*st.TransactionContext).OriginAddress = stateAddrs[1]; return x, "" }, silent(func(m compModel) { m["origin"] = stateAddrs[1].String() })},
			{"append blob 0", func(x any) (any, string) {
				t := x.(*st.TransactionContext)
				t.BlobHashes = append(t.BlobHashes, tosca.Hash{})
				return x, ""
			}, silent(func(m compModel) { m["blobs"] += "0," })},
			{"append blob 1", func(x any) (any, string) {
				t := x.(*st.TransactionContext)
				t.BlobHashes = append(t.BlobHashes, tosca.Hash{31: 1})
				return x, ""
			}, silent(func(m compModel) { m["blobs"] += "1," })},
			{"first blob to 2", func(x any) (any, string) {
				if t := x.(*st.TransactionContext); len(t.BlobHashes) > 0 {
					t.BlobHashes[0] = tosca.Hash{31: 2}
				}
				return x, ""
			}, silent(func(m compModel) {
				if m["blobs"] != "" {
					m["blobs"] = "2" + m["blobs"][1:]
				}
			})},
			{"drop last blob", func(x any) (any, string) {
				if t := x.(*st.TransactionContext); len(t.BlobHashes) > 0 {
					t.BlobHashes = t.BlobHashes[:len(t.BlobHashes)-1]
				}
				return x, ""
			}, silent(func(m compModel) {
				if n := len(m["blobs"]); n > 0 {
					m["blobs"] = m["blobs"][:n-2]
				}
			})},
		},
	}
	res = append(res, p)
	return res
}

func keccak(d []byte) (h [32]byte) {
	k := sha3.NewLegacyKeccak256()
	k.Write(d)
	k.Sum(h[:0])
	return
}

func unhex(s string) []byte {
	var d []byte
	fmt.Sscanf(s, "%x", &d)
	return d
}

// ---- memory expansion costs

func (c *stateCheck) memoryCosts() {
	big1 := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 0); return n }
	var pts []*big.Int
	for _, s := range []string{"0", "1", "31", "32", "33", "64", "992", "1024", "0x1fffffffe0", "0x1fffffffc0", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "0x100000000000000000000000000000000", "0x8000000000000000000000000000000000000000000000000000000000000000", "0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"} {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(big1(s), big.NewInt(d))
			if v.Sign() >= 0 && v.BitLen() <= 256 {
				pts = append(pts, v)
			}
		}
	}
	sizes := []int{0, 32, 64, 1024, 32 * 724}
	limit := big.NewInt(st.MaxMemoryExpansionSize)
	cost := func(size *big.Int) *big.Int {
		w := new(big.Int).Rsh(new(big.Int).Add(size, big.NewInt(31)), 5)
		q := new(big.Int).Rsh(new(big.Int).Mul(w, w), 9)
		return q.Add(q, new(big.Int).Mul(w, big.NewInt(3)))
	}
	c.x.Parallel("memory expansion costs", len(pts), func(w *engine.Worker, i int) {
		off := pts[i]
		w.BeginNote(func() string { return "offset " + off.String() })
		defer w.End()
		n := 0
		for _, size := range pts {
			for _, cur := range sizes {
				n++
				what := fmt.Sprintf("memory of %d bytes, offset %v, size %v", cur, off, size)
				m := st.NewMemory(make([]byte, cur)...)
				c.guard("memory expansion costs", what, func() {
					gas, o, s := m.ExpansionCosts(common.NewU256FromBigInt(off), common.NewU256FromBigInt(size))
					if m.Size() != cur {
						c.report("memory expansion costs", what, "memory size", fmt.Sprint(cur), fmt.Sprint(m.Size()))
					}
					want := big.NewInt(0)
					if end := new(big.Int).Add(off, size); size.Sign() != 0 && end.Cmp(big.NewInt(int64(cur))) > 0 {
						if end.Cmp(limit) > 0 {
							want = big.NewInt(math.MaxInt64)
						} else {
							want = new(big.Int).Sub(cost(end), cost(big.NewInt(int64(cur))))
						}
					}
					if want.Cmp(big.NewInt(int64(gas))) != 0 {
						c.report("memory expansion costs", what, "costs", want.String(), fmt.Sprint(gas))
					}
					if gas != math.MaxInt64 && size.Sign() != 0 && (off.Uint64() != o || size.Uint64() != s) {
						c.report("memory expansion costs", what, "offset and size", fmt.Sprint(off, " ", size), fmt.Sprint(o, " ", s))
					}
					if gas != math.MaxInt64 && size.Sign() == 0 && s != 0 {
						c.report("memory expansion costs", what, "size", "0", fmt.Sprint(s))
					}
				})
			}
		}
		w.Count(int64(n), int64(n), int64(n))
	})
}

// ---- code

func (c *stateCheck) codes() {
	alpha := []byte{0x00, 0x5b, 0x5f, 0x60, 0x61, 0x7f, 0x80, 0xfe}
	depth := 4
	if c.x.Thorough() {
		depth = 5
	}
	var all [][]byte
	var rec func(p []byte)
	rec = func(p []byte) {
		all = append(all, bytes.Clone(p))
		if len(p) < depth {
			for _, b := range alpha {
				rec(append(p[:len(p):len(p)], b))
			}
		}
	}
	rec(nil)
	// complete and truncated push data of all sizes, large codes
	for n := 1; n <= 32; n++ {
		for _, have := range []int{0, 1, n - 1, n, n + 1} {
			all = append(all, append([]byte{byte(0x5f + n)}, bytes.Repeat([]byte{0x5b}, have)...))
		}
	}
	all = append(all, bytes.Repeat([]byte{0x5b}, st.MaxCodeSize), append(make([]byte, st.MaxCodeSize-1), 0x7f))
	c.x.Parallel("code", len(all), func(w *engine.Worker, i int) {
		code := all[i]
		what := fmt.Sprintf("%x", code)
		if len(what) > 80 {
			what = what[:80] + "..."
		}
		w.BeginNote(func() string { return what })
		defer w.End()
		c.guard("code", what, func() { c.code(code, what) })
		w.Count(int64(len(code))+36, int64(len(code))+36, int64(len(code))+36)
	})
}

func (c *stateCheck) code(code []byte, what string) {
	bad := func(kind string, pos int, want, got any) {
		c.report("code", fmt.Sprint(what, " position ", pos), kind, fmt.Sprint(want), fmt.Sprint(got))
	}
	in := bytes.Clone(code)
	x := st.NewCode(in)
	for i := range in {
		in[i] ^= 0xff // the code has to be a copy
	}
	data := map[int]bool{}
	for i := 0; i < len(code); i++ {
		if code[i] >= 0x60 && code[i] <= 0x7f {
			n := int(code[i]) - 0x5f
			for k := 1; k <= n; k++ {
				data[i+k] = true
			}
			i += n
		}
	}
	if x.Length() != len(code) {
		bad("Length", 0, len(code), x.Length())
	}
	if !bytes.Equal(x.Copy(), code) {
		bad("Copy", 0, what, fmt.Sprintf("%x", x.Copy()))
	}
	if x.Hash() != keccak(code) || x.Hash() != keccak(code) {
		bad("Hash", 0, fmt.Sprintf("%x", keccak(code)), fmt.Sprintf("%x", x.Hash()))
	}
	if x.String() != fmt.Sprintf("%x", code) {
		bad("String", 0, what, x.String())
	}
	step := 1
	if len(code) > 100 {
		step = 997
	}
	for pos := -1; pos < len(code)+36; pos += step {
		if x.IsCode(pos) == data[pos] || x.IsData(pos) != data[pos] {
			bad("IsCode, IsData", pos, fmt.Sprint(!data[pos], data[pos]), fmt.Sprint(x.IsCode(pos), x.IsData(pos)))
		}
		op, err := x.GetOperation(pos)
		wantOp, wantErr := vm.OpCode(vm.STOP), error(nil)
		if data[pos] {
			wantOp, wantErr = vm.INVALID, st.ErrInvalidPosition
		} else if pos >= 0 && pos < len(code) {
			wantOp = vm.OpCode(code[pos])
		}
		if op != wantOp || err != wantErr {
			bad("GetOperation", pos, fmt.Sprint(wantOp, wantErr), fmt.Sprint(op, err))
		}
		b, err := x.GetData(pos)
		wantB, wantErr := byte(0), error(nil)
		if !data[pos] {
			wantErr = st.ErrInvalidPosition
		} else if pos < len(code) {
			wantB = code[pos]
		}
		if b != wantB || err != wantErr {
			bad("GetData", pos, fmt.Sprint(wantB, wantErr), fmt.Sprint(b, err))
		}
	}
	cp := x.Copy()
	for i := range cp {
		cp[i] ^= 0xff
	}
	for a := 0; a <= len(code) && a <= 5; a++ {
		for b := a; b <= len(code) && b <= 6; b++ {
			dst := make([]byte, 3)
			n := x.CopyCodeSlice(a, b, dst)
			want := make([]byte, 3)
			k := copy(want, code[a:b])
			if n != k || !bytes.Equal(dst, want) {
				bad(fmt.Sprint("CopyCodeSlice to ", b), a, want, dst)
			}
		}
		for l := 0; l < 8; l++ {
			want := fmt.Sprintf("len(%d)", len(code))
			for i := a; i < a+l && i < len(code); i++ {
				if data[i] {
					want += fmt.Sprintf(" %d", code[i])
				} else {
					want += " " + vm.OpCode(code[i]).String()
				}
			}
			if got := x.ToHumanReadableString(a, l); got != want {
				bad(fmt.Sprint("ToHumanReadableString of ", l), a, want, got)
			}
		}
	}
	// single changes
	y := st.NewCode(code)
	if !x.Eq(y) || !x.Eq(x.Clone()) || len(x.Diff(y)) != 0 {
		bad("Eq", 0, true, false)
	}
	for i := 0; i <= len(code); i += step {
		var mod []byte
		if i == len(code) {
			mod = append(bytes.Clone(code), 0)
		} else {
			mod = bytes.Clone(code)
			mod[i] ^= 1
		}
		z := st.NewCode(mod)
		if x.Eq(z) || z.Eq(x) || len(x.Diff(z)) == 0 || len(z.Diff(x)) == 0 {
			bad("Eq or Diff with one byte changed", i, "different", "equal")
		}
	}
	if !bytes.Equal(x.Copy(), code) {
		bad("code after use", 0, what, fmt.Sprintf("%x", x.Copy()))
	}
}

// ---- whole states

// variant changes one part of a state.
type variant struct {
	part, value string // equal values of a part are indistinguishable
	set         func(s *st.State)
}

func stateVariants() []variant {
	u := common.NewU256
	a := func(b byte) tosca.Address { return tosca.Address{0: b, 19: 1} }
	var res []variant
	add := func(part, value string, f func(s *st.State)) { res = append(res, variant{part, value, f}) }
	for _, r := range []tosca.Revision{tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun, common.R99_UnknownNextRevision} {
		r := r
		add("revision", r.String(), func(s *st.State) { s.Revision = r })
	}
	add("readonly", "true", func(s *st.State) { s.ReadOnly = true })
	add("pc", "1", func(s *st.State) { s.Pc = 1 })
	add("pc", "end", func(s *st.State) { s.Pc = uint16(s.Code.Length()) })
	add("pc", "end", func(s *st.State) { s.Pc = uint16(s.Code.Length()) + 7 })
	add("pc", "end", func(s *st.State) { s.Pc = math.MaxUint16 })
	for _, g := range []tosca.Gas{1, -1, math.MaxInt64, math.MinInt64} {
		g := g
		add("gas", fmt.Sprint(g), func(s *st.State) { s.Gas = g })
		add("refund", fmt.Sprint(g), func(s *st.State) { s.GasRefund = g })
	}
	for _, k := range [][]byte{{}, {0x60, 1, 2, 4}, {0x40, 1, 2, 3, 4}} {
		k := k
		add("code", fmt.Sprintf("%x", k), func(s *st.State) { s.Code = st.NewCode(k) })
	}
	add("stack", "1", func(s *st.State) { s.Stack = st.NewStack(u(1)) })
	add("stack", "2", func(s *st.State) { s.Stack = st.NewStack(u(1, 2, 3, 4)) })
	add("stack", "1,2", func(s *st.State) { s.Stack.Resize(0); s.Stack.Push(u(1)); s.Stack.Push(u(2)) })
	add("stack", "12", func(s *st.State) {
		s.Stack.Resize(0)
		for i := uint64(0); i < 12; i++ {
			s.Stack.Push(u(i))
		}
	})
	add("memory", "1", func(s *st.State) { s.Memory.Write([]byte{1}, 0) })
	add("memory", "0", func(s *st.State) { s.Memory.Grow(0, 1) })
	add("memory", "odd", func(s *st.State) { s.Memory.Set([]byte{1, 2, 3}) })
	add("storage", "c1=1", func(s *st.State) { s.Storage.SetCurrent(stateKeys[0], u(1)) })
	add("storage", "c2=1", func(s *st.State) { s.Storage.SetCurrent(stateKeys[1], u(1)) })
	add("storage", "", func(s *st.State) { s.Storage.SetCurrent(stateKeys[0], u(0)) })
	add("storage", "o1=1", func(s *st.State) { s.Storage.SetOriginal(stateKeys[0], u(1)) })
	add("storage", "", func(s *st.State) { s.Storage.SetOriginal(stateKeys[0], u(0)) })
	add("storage", "w1", func(s *st.State) { s.Storage.MarkWarm(stateKeys[0]) })
	add("storage", "", func(s *st.State) { s.Storage.MarkWarm(stateKeys[0]); s.Storage.MarkCold(stateKeys[0]) })
	add("transient", "1=1", func(s *st.State) { s.TransientStorage.Set(stateKeys[0], u(1)) })
	add("transient", "2=1", func(s *st.State) { s.TransientStorage.Set(stateKeys[1], u(1)) })
	add("transient", "", func(s *st.State) { s.TransientStorage.Set(stateKeys[0], u(0)) })
	add("accounts", "b", func(s *st.State) { s.Accounts.SetBalance(a(1), u(5)) })
	add("accounts", "e", func(s *st.State) { s.Accounts.SetBalance(a(1), u(0)) })
	add("accounts", "c", func(s *st.State) {
		s.Accounts = st.NewAccountsBuilder().SetCode(a(1), common.NewBytes([]byte{1, 0x60})).Build()
	})
	add("accounts", "w", func(s *st.State) { s.Accounts.MarkWarm(a(1)) })
	add("logs", "empty", func(s *st.State) { s.Logs.AddLog(nil) })
	add("logs", "data", func(s *st.State) { s.Logs.AddLog([]byte{0}) })
	add("logs", "topics", func(s *st.State) { s.Logs.AddLog([]byte{0, 1}, u(1), u(2)) })
	add("call", "account", func(s *st.State) { s.CallContext.AccountAddress = a(1) })
	add("call", "caller", func(s *st.State) { s.CallContext.CallerAddress = a(1) })
	add("call", "value", func(s *st.State) { s.CallContext.Value = u(1) })
	for k := tosca.Call; k <= tosca.Create2; k++ {
		k := k
		add("journal", fmt.Sprint("p", k), func(s *st.State) { s.CallJournal.Past = append(s.CallJournal.Past, st.PastCall{Kind: k}) })
	}
	for i, p := range []st.PastCall{{Recipient: a(1)}, {Sender: a(1)}, {Input: common.NewBytes([]byte{1})}, {Value: tosca.NewValue(1)}, {Gas: 1}, {CodeAddress: a(1)}} {
		p := p
		add("journal", fmt.Sprint("P", i), func(s *st.State) { s.CallJournal.Past = append(s.CallJournal.Past, p) })
	}
	for i, f := range []st.FutureCall{{}, {Success: true}, {Output: common.NewBytes([]byte{0})}, {GasCosts: 1}, {GasRefund: 1}, {CreatedAccount: a(2)}} {
		f := f
		add("journal", fmt.Sprint("F", i), func(s *st.State) { s.CallJournal.Future = append(s.CallJournal.Future, f) })
	}
	add("block", "basefee", func(s *st.State) { s.BlockContext.BaseFee = u(1) })
	add("block", "blobbasefee", func(s *st.State) { s.BlockContext.BlobBaseFee = u(1) })
	add("block", "number", func(s *st.State) { s.BlockContext.BlockNumber = math.MaxUint64 })
	add("block", "chain", func(s *st.State) { s.BlockContext.ChainID = common.MaxU256() })
	add("block", "coinbase", func(s *st.State) { s.BlockContext.CoinBase = a(1) })
	add("block", "limit", func(s *st.State) { s.BlockContext.GasLimit = math.MaxUint64 })
	add("block", "price", func(s *st.State) { s.BlockContext.GasPrice = u(1) })
	add("block", "randao", func(s *st.State) { s.BlockContext.PrevRandao = u(1) })
	add("block", "time", func(s *st.State) { s.BlockContext.TimeStamp = 1 })
	add("calldata", "1", func(s *st.State) { s.CallData = common.NewBytes([]byte{1}) })
	add("calldata", "long", func(s *st.State) { s.CallData = common.NewBytes(make([]byte, 30)) })
	add("lastreturn", "1", func(s *st.State) { s.LastCallReturnData = common.NewBytes([]byte{1}) })
	add("lastreturn", "long", func(s *st.State) { s.LastCallReturnData = common.NewBytes(make([]byte, 30)) })
	add("return", "1", func(s *st.State) { s.ReturnData = common.NewBytes([]byte{1}) })
	add("return", "long", func(s *st.State) { s.ReturnData = common.NewBytes(make([]byte, 30)) })
	add("selfdestructed", "true", func(s *st.State) { s.HasSelfDestructed = true })
	add("selfdestructs", "1", func(s *st.State) {
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(a(1), a(2)))
	})
	add("selfdestructs", "2", func(s *st.State) {
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(a(2), a(1)))
	})
	add("selfdestructs", "3", func(s *st.State) {
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(a(1), a(2)), st.NewSelfDestructEntry(a(1), a(1)))
	})
	add("hashes", "", func(s *st.State) { s.RecentBlockHashes = common.NewImmutableHashArray() })
	add("hashes", "0", func(s *st.State) { s.RecentBlockHashes = common.NewImmutableHashArray(tosca.Hash{1}) })
	add("hashes", "255", func(s *st.State) {
		var h [256]tosca.Hash
		h[255] = tosca.Hash{1}
		s.RecentBlockHashes = common.NewImmutableHashArray(h[:]...)
	})
	add("tx", "origin", func(s *st.State) { s.TransactionContext.OriginAddress = a(1) })
	add("tx", "blob", func(s *st.State) {
		s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, tosca.Hash{})
	})
	add("tx", "blobs", func(s *st.State) {
		s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, tosca.Hash{1}, tosca.Hash{2})
	})
	return res
}

func baseState(status st.StatusCode) *st.State {
	s := st.NewState(st.NewCode([]byte{0x60, 1, 2, 3}))
	s.Status = status
	return s
}

// view lists everything observable of a state, part by part.
func view(s *st.State) map[string]string {
	r := map[string]string{
		"status": s.Status.String(), "revision": fmt.Sprint(int(s.Revision)), "readonly": fmt.Sprint(s.ReadOnly), "pc": fmt.Sprint(s.Pc),
		"gas": fmt.Sprint(s.Gas), "refund": fmt.Sprint(s.GasRefund), "code": s.Code.String(),
		"call": fmt.Sprintf("%+v", s.CallContext), "block": fmt.Sprintf("%+v", s.BlockContext), "calldata": s.CallData.String(),
		"lastreturn": s.LastCallReturnData.String(), "return": s.ReturnData.String(), "selfdestructed": fmt.Sprint(s.HasSelfDestructed),
		"selfdestructs": fmt.Sprintf("%v", s.SelfDestructedJournal), "tx": fmt.Sprintf("%v %v", s.TransactionContext.OriginAddress, s.TransactionContext.BlobHashes),
		"journal": fmt.Sprintf("%+v %+v", s.CallJournal.Past, s.CallJournal.Future),
	}
	t := ""
	for i := 0; i < s.Stack.Size(); i++ {
		t += s.Stack.Get(i).String() + ","
	}
	r["stack"] = t
	r["memory"] = fmt.Sprint(s.Memory.Size()) + " "
	if s.Memory.Size() > 0 {
		m := s.Memory.Clone()
		r["memory"] += fmt.Sprintf("%x", m.Read(0, uint64(s.Memory.Size())))
	}
	for i, k := range stateKeys {
		r["storage"] += fmt.Sprint(i, " ", s.Storage.GetCurrent(k), " ", s.Storage.GetOriginal(k), " ", s.Storage.IsWarm(k), ";")
		r["transient"] += fmt.Sprint(i, " ", s.TransientStorage.Get(k), ";")
	}
	for b := byte(0); b < 4; b++ {
		a := tosca.Address{0: b, 19: 1}
		r["accounts"] += fmt.Sprint(b, s.Accounts.Exists(a), s.Accounts.GetBalance(a), s.Accounts.GetCode(a), s.Accounts.IsWarm(a), ";")
	}
	for _, l := range s.Logs.Entries {
		r["logs"] += fmt.Sprintf("%x %v;", l.Data, l.Topics)
	}
	for i := uint64(0); i < 256; i++ {
		if h := s.RecentBlockHashes.Get(i); h != (tosca.Hash{}) {
			r["hashes"] += fmt.Sprint(i, h)
		}
	}
	return r
}

func viewDiff(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if b[k] != v {
			l = append(l, fmt.Sprintf("%s: %s vs %s", k, v, b[k]))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// relevant tells whether a part of a state takes part in its comparison.
func relevant(part string, status st.StatusCode) bool {
	switch part {
	case "stack", "memory", "lastreturn", "pc":
		return status == st.Running
	case "return":
		return status != st.Running && status != st.Failed
	}
	return status != st.Failed
}

func (c *stateCheck) states() {
	vars := stateVariants()
	statuses := []st.StatusCode{st.Running, st.Stopped, st.Reverted, st.Failed}
	name := func(v []int) string {
		var l []string
		for _, i := range v {
			l = append(l, vars[i].part+"="+vars[i].value)
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	build := func(status st.StatusCode, v []int) (*st.State, map[string]string) {
		s, vals := baseState(status), map[string]string{}
		for _, i := range v {
			vars[i].set(s)
			vals[vars[i].part] = vars[i].value
		}
		return s, vals
	}
	// sets of at most two changes to different parts; code is not combined
	// with pc as the end of the code is part of its meaning
	sets := [][]int{nil}
	for i := range vars {
		sets = append(sets, []int{i})
		for j := i + 1; j < len(vars); j++ {
			if vars[i].part != vars[j].part && !(vars[i].part == "pc" && vars[j].part == "code") {
				sets = append(sets, []int{i, j})
			}
		}
	}
	family := "states"
	// clones are independent
	c.x.Parallel("clones of states", len(vars), func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return name([]int{i}) })
		defer w.End()
		n := 0
		for j := range vars {
			for dir := 0; dir < 2; dir++ {
				n++
				what := fmt.Sprint("clone of ", name([]int{i}), " direction ", dir, " then ", name([]int{j}))
				c.guard(family, what, func() {
					s, _ := build(st.Running, []int{i})
					o := s.Clone()
					want := view(s)
					if d := viewDiff(want, view(o)); d != "" {
						c.report(family, what, "clone", "same", d)
					}
					if !s.Eq(o) || !o.Eq(s) || len(s.Diff(o)) != 0 {
						c.report(family, what, "clone", "equal, no differences", strings.Join(s.Diff(o), ";"))
					}
					change, keep := o, s
					if dir == 1 {
						change, keep = s, o
					}
					vars[j].set(change)
					change.Status = st.Stopped
					if d := viewDiff(want, view(keep)); d != "" {
						c.report(family, what, "other instance", "unchanged", d)
					}
					change.Release()
					other := st.NewStack(common.NewU256(77), common.NewU256(78), common.NewU256(79))
					if d := viewDiff(want, view(keep)); d != "" {
						c.report(family, what, "other instance after release", "unchanged", d)
					}
					other.Release()
					if change.Stack != nil {
						c.report(family, what, "released state", "no stack", "stack")
					}
					keep.Release()
				})
			}
		}
		w.Count(int64(n), int64(n), int64(n))
	})
	// clones whose originals change, too
	c.x.Parallel("clones and originals changing", len(vars), func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return name([]int{i}) })
		defer w.End()
		n := 0
		for j := range vars {
			for k := range vars {
				if vars[j].part != vars[k].part || vars[j].value == vars[k].value || (vars[i].part != vars[j].part && i%7 != 0 && !c.x.Thorough()) {
					continue
				}
				n++
				what := fmt.Sprint("clone of ", name([]int{i}), " then ", name([]int{j}), " on the clone and ", name([]int{k}), " on the original")
				c.guard(family, what, func() {
					s, _ := build(st.Running, []int{i, i, i}) // slices with spare capacity
					o := s.Clone()
					vars[j].set(o)
					want := view(o)
					vars[k].set(s)
					if d := viewDiff(want, view(o)); d != "" {
						c.report(family, what, "clone", "unchanged", d)
					}
					s.Release()
					o.Release()
				})
			}
		}
		w.Count(int64(n), int64(n), int64(n))
	})
	// comparison
	c.x.Parallel("comparison of states", len(sets), func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return name(sets[i]) })
		defer w.End()
		n := 0
		for j := -1; j < len(vars); j++ {
			set2 := []int{}
			if j >= 0 {
				set2 = append(set2, j)
			}
			if len(sets[i]) == 2 && j >= 0 && vars[j].part == "code" && (vars[sets[i][0]].part == "pc" || vars[sets[i][1]].part == "pc") {
				continue
			}
			for _, x := range statuses {
				for _, y := range statuses {
					if x != y && len(sets[i]) > 1 {
						continue
					}
					n++
					what := fmt.Sprint(x, " ", name(sets[i]), " and ", y, " ", name(set2))
					c.guard(family, what, func() {
						a, va := build(x, sets[i])
						b, vb := build(y, set2)
						va["code"], vb["code"] = codeOf(va), codeOf(vb)
						va["pc"], vb["pc"] = pcOf(va), pcOf(vb)
						want := x == y
						for _, v := range vars {
							if relevant(v.part, x) && va[v.part] != vb[v.part] {
								want = false
							}
						}
						if a.Eq(b) != want || b.Eq(a) != want {
							c.report(family, what, "equality", fmt.Sprint(want), fmt.Sprint(a.Eq(b), b.Eq(a)))
						}
						if !want && (len(a.Diff(b)) == 0 || len(b.Diff(a)) == 0) {
							c.report(family, what, "differences of different states", "some", "none")
						}
						if a.String() == "" {
							c.report(family, what, "text", "not empty", "empty")
						}
						a.Release()
						b.Release()
					})
				}
			}
		}
		w.Count(int64(n), int64(n), int64(n))
	})
	// reading back what was written
	dir, err := os.MkdirTemp("", "verif-p27-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	c.x.Parallel("states written to files", len(sets), func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return name(sets[i]) })
		defer w.End()
		for _, x := range statuses {
			what := fmt.Sprint(x, " ", name(sets[i]))
			c.guard("files", what, func() {
				s, _ := build(x, sets[i])
				want := view(s)
				file := filepath.Join(dir, fmt.Sprint(i, "-", int(x)))
				if err := st.ExportStateJSON(s, file); err != nil {
					c.report("files", what, "export", "no error", err.Error())
					return
				}
				first, _ := os.ReadFile(file)
				if d := viewDiff(want, view(s)); d != "" {
					c.report("files", what, "exported state", "unchanged", d)
				}
				o, err := st.ImportStateJSON(file)
				if err != nil {
					c.report("files", what, "import", "no error", err.Error())
					return
				}
				if d := viewDiff(want, view(o)); d != "" {
					c.report("files", what, "imported state", "same", d)
				}
				if !s.Eq(o) {
					c.report("files", what, "imported state", "equal", strings.Join(s.Diff(o), ";"))
				}
				if err := st.ExportStateJSON(o, file); err != nil {
					c.report("files", what, "export of imported state", "no error", err.Error())
				}
				again, _ := os.ReadFile(file)
				if !bytes.Equal(first, again) && !equivalentJSON(first, again) {
					c.report("files", what, "export of imported state", "same file", "different file")
				}
				// the imported state is independent of everything else
				for _, v := range vars {
					v.set(o)
				}
				if d := viewDiff(want, view(s)); d != "" {
					c.report("files", what, "exported state after changes to the imported one", "unchanged", d)
				}
				os.Remove(file)
			})
		}
		w.Count(int64(len(statuses)), int64(len(statuses)), int64(4*len(statuses)))
	})
}

// equivalentJSON compares ignoring empty maps and lists.
func equivalentJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(prune(x), prune(y))
}

func prune(x any) any {
	switch v := x.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, e := range v {
			if p := prune(e); p != nil {
				r[k] = p
			}
		}
		if len(r) == 0 {
			return nil
		}
		return r
	case []any:
		if len(v) == 0 {
			return nil
		}
	}
	return x
}

func codeOf(v map[string]string) string {
	if c, ok := v["code"]; ok {
		return c
	}
	return "60010203"
}

func pcOf(v map[string]string) string {
	if p := v["pc"]; p != "" {
		return p
	}
	if codeOf(v) == "" {
		return "end" // position 0 of the empty code
	}
	return "0"
}

// ---- damaged files

func (c *stateCheck) files() {
	dir, err := os.MkdirTemp("", "verif-p27-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	s := baseState(st.Running)
	seen := map[string]bool{}
	for _, v := range stateVariants() {
		if !seen[v.part] && v.part != "hashes" {
			v.set(s)
			seen[v.part] = true
		}
	}
	file := filepath.Join(dir, "state")
	if err := st.ExportStateJSON(s, file); err != nil {
		c.report("damaged files", "", "export", "no error", err.Error())
		return
	}
	data, _ := os.ReadFile(file)
	if _, err := st.ImportStateJSON(filepath.Join(dir, "none")); err == nil {
		c.report("damaged files", "missing file", "import", "error", "none")
	}
	if err := st.ExportStateJSON(s, filepath.Join(dir, "none", "none")); err == nil {
		c.report("damaged files", "missing folder", "export", "error", "none")
	}
	// a longer file is overwritten completely
	os.WriteFile(file, bytes.Repeat(data, 2), 0644)
	st.ExportStateJSON(s, file)
	if again, _ := os.ReadFile(file); !bytes.Equal(data, again) {
		c.report("damaged files", "existing file", "export", "overwritten", "different")
	}
	bad := s.Clone()
	bad.Status = st.NumStatusCodes
	if err := st.ExportStateJSON(bad, file); err == nil {
		c.report("damaged files", "invalid status", "export", "error", "none")
	}
	subst := []byte(`0x"{}[],:-n`)
	c.x.Parallel("damaged files", len(data), func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return fmt.Sprint("byte ", i) })
		defer w.End()
		f := filepath.Join(dir, fmt.Sprint(i))
		n := int64(0)
		try := func(what string, d []byte, mustFail bool) {
			n++
			if err := os.WriteFile(f, d, 0644); err != nil {
				panic(err)
			}
			c.guard("damaged files", what, func() {
				o, err := st.ImportStateJSON(f)
				if err != nil {
					return
				}
				if mustFail {
					c.report("damaged files", what, "import", "error", "none")
				}
				before := view(o)
				if err := st.ExportStateJSON(o, f); err != nil {
					c.report("damaged files", what, "export of what was read", "no error", err.Error())
					return
				}
				p, err := st.ImportStateJSON(f)
				if err != nil {
					c.report("damaged files", what, "import of what was written", "no error", err.Error())
				} else if d := viewDiff(before, view(p)); d != "" || !o.Eq(p) {
					c.report("damaged files", what, "import of what was written", "same", d)
				}
			})
		}
		try(fmt.Sprint("cut at ", i), data[:i], true)
		for _, b := range subst {
			d := bytes.Clone(data)
			d[i] = b
			try(fmt.Sprintf("byte %d replaced by %q", i, b), d, false)
		}
		try(fmt.Sprint("byte removed at ", i), append(bytes.Clone(data[:i]), data[i+1:]...), false)
		// unknown fields are not ignored
		if data[i] == '{' && (i == 0 || !inMap(data, i)) {
			try(fmt.Sprint("unknown field at ", i), append(append(bytes.Clone(data[:i+1]), `"Unknown": 1,`...), data[i+1:]...), true)
		}
		os.Remove(f)
		w.Count(n, n, n)
	})
}

// inMap tells whether the brace opens a map with arbitrary keys.
func inMap(data []byte, pos int) bool {
	line := data[bytes.LastIndexByte(data[:pos], '\n')+1 : pos]
	for _, k := range []string{"Current", "Original", "Warm", "Storage\": {\n      ", "Balance", "Code"} {
		if bytes.Contains(line, []byte(`"`+k+`"`)) {
			return true
		}
	}
	// the map within the transient storage
	return bytes.Contains(line, []byte(`      "Storage"`)) || bytes.HasPrefix(line, []byte(`    "Storage"`))
}

// ---- states as seen by interpreters

// ctxOp is an operation of an interpreter on its context: run performs it and
// yields what it returned, model yields what it has to return and applies the
// effect to another state.
type ctxOp struct {
	name  string
	run   func(c tosca.RunContext) string
	model func(s *st.State) string
}

func contextOps() []ctxOp {
	var res []ctxOp
	add := func(name string, run func(c tosca.RunContext) string, model func(s *st.State) string) {
		res = append(res, ctxOp{name, run, model})
	}
	self := tosca.Address{0: 9, 19: 9}
	for i, k := range stateKeys {
		k, key := k, tosca.Key(k.Bytes32be())
		for _, v := range []uint64{0, 1, 2} {
			v := common.NewU256(v)
			word := tosca.Word(v.Bytes32be())
			add(fmt.Sprintf("SetStorage(%d,%v)", i, v.Uint64()), func(c tosca.RunContext) string {
				return c.SetStorage(self, key, word).String()
			}, func(s *st.State) string {
				o, cur := s.Storage.GetOriginal(k), s.Storage.GetCurrent(k)
				s.Storage.SetCurrent(k, v)
				return storageStatusName(o, cur, v)
			})
			add(fmt.Sprintf("SetTransientStorage(%d,%v)", i, v.Uint64()), func(c tosca.RunContext) string {
				c.SetTransientStorage(self, key, word)
				return ""
			}, func(s *st.State) string { s.TransientStorage.Set(k, v); return "" })
		}
		add(fmt.Sprintf("storage(%d)", i), func(c tosca.RunContext) string {
			a, b := c.IsSlotInAccessList(self, key)
			return fmt.Sprint(c.GetStorage(self, key), c.GetCommittedStorage(self, key), c.GetTransientStorage(self, key), a, b)
		}, func(s *st.State) string {
			return fmt.Sprint(tosca.Word(s.Storage.GetCurrent(k).Bytes32be()), tosca.Word(s.Storage.GetOriginal(k).Bytes32be()), tosca.Word(s.TransientStorage.Get(k).Bytes32be()), true, s.Storage.IsWarm(k))
		})
		add(fmt.Sprintf("AccessStorage(%d)", i), func(c tosca.RunContext) string {
			return fmt.Sprint(bool(c.AccessStorage(self, key)))
		}, func(s *st.State) string {
			w := s.Storage.IsWarm(k)
			s.Storage.MarkWarm(k)
			return fmt.Sprint(w == bool(tosca.WarmAccess))
		})
	}
	for i, a := range []tosca.Address{{0: 1, 19: 1}, {0: 2, 19: 1}} {
		a := a
		add(fmt.Sprintf("account(%d)", i), func(c tosca.RunContext) string {
			return fmt.Sprintf("%v %v %d %x %x %v %d", c.AccountExists(a), c.GetBalance(a), c.GetCodeSize(a), c.GetCode(a), c.GetCodeHash(a), c.IsAddressInAccessList(a), c.GetNonce(a))
		}, func(s *st.State) string {
			code := s.Accounts.GetCode(a).ToBytes()
			return fmt.Sprintf("%v %v %d %x %x %v %d", s.Accounts.Exists(a), tosca.Value(s.Accounts.GetBalance(a).Bytes32be()), len(code), code, s.Accounts.GetCodeHash(a), s.Accounts.IsWarm(a), 0)
		})
		add(fmt.Sprintf("AccessAccount(%d)", i), func(c tosca.RunContext) string {
			return fmt.Sprint(bool(c.AccessAccount(a)))
		}, func(s *st.State) string {
			w := s.Accounts.IsWarm(a)
			s.Accounts.MarkWarm(a)
			return fmt.Sprint(w == bool(tosca.WarmAccess))
		})
		add(fmt.Sprintf("SelfDestruct(%d)", i), func(c tosca.RunContext) string {
			return fmt.Sprint(c.SelfDestruct(self, a), c.HasSelfDestructed(self))
		}, func(s *st.State) string {
			first := !s.HasSelfDestructed
			s.HasSelfDestructed = true
			s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(self, a))
			return fmt.Sprint(first, true)
		})
		add(fmt.Sprintf("EmitLog(%d)", i), func(c tosca.RunContext) string {
			l := tosca.Log{Address: self, Data: bytes.Repeat([]byte{7}, i), Topics: make([]tosca.Hash, 2*i)}
			for k := range l.Topics {
				l.Topics[k] = tosca.Hash{byte(k), 31: 5}
			}
			c.EmitLog(l)
			for k := range l.Data {
				l.Data[k] = 0
			}
			return ""
		}, func(s *st.State) string {
			var t []common.U256
			for k := 0; k < 2*i; k++ {
				t = append(t, common.NewU256(uint64(k)<<56, 0, 0, 5))
			}
			s.Logs.AddLog(bytes.Repeat([]byte{7}, i), t...)
			return ""
		})
	}
	for _, k := range []tosca.CallKind{tosca.Call, tosca.Create} {
		k := k
		p := tosca.CallParameters{Sender: self, Recipient: tosca.Address{1}, Value: tosca.NewValue(3), Input: []byte{1, 2}, Gas: 1000, CodeAddress: tosca.Address{2}}
		add(fmt.Sprint("Call ", k), func(c tosca.RunContext) string {
			r, err := c.Call(k, p)
			return fmt.Sprintf("%+v %v", r, err)
		}, func(s *st.State) string {
			s.CallJournal.Past = append(s.CallJournal.Past, st.PastCall{Kind: k, Sender: self, Recipient: tosca.Address{1}, Value: tosca.NewValue(3), Input: common.NewBytes([]byte{1, 2}), Gas: 1000, CodeAddress: tosca.Address{2}})
			r := tosca.CallResult{GasLeft: 1000, Output: tosca.Data{}}
			if len(s.CallJournal.Future) > 0 {
				f := s.CallJournal.Future[0]
				s.CallJournal.Future = s.CallJournal.Future[1:]
				r = tosca.CallResult{Success: f.Success, Output: f.Output.ToBytes(), GasLeft: 1000 - f.GasCosts, GasRefund: f.GasRefund, CreatedAddress: f.CreatedAccount}
				if r.GasLeft < 0 {
					r.GasLeft = 0
				}
			}
			return fmt.Sprintf("%+v %v", r, nil)
		})
	}
	return res
}

func storageStatusName(o, c, n common.U256) string {
	z := common.NewU256(0)
	switch {
	case c == n:
		return "StorageAssigned"
	case o == c && o == z:
		return "StorageAdded"
	case o == c && n == z:
		return "StorageDeleted"
	case o == c:
		return "StorageModified"
	case o == z && n == z:
		return "StorageAddedDeleted"
	case o == z:
		return "StorageAssigned"
	case c == z && n == o:
		return "StorageDeletedRestored"
	case c == z:
		return "StorageDeletedAdded"
	case n == o:
		return "StorageModifiedRestored"
	case n == z:
		return "StorageModifiedDeleted"
	}
	return "StorageAssigned"
}

func (c *stateCheck) adapter() {
	vars := stateVariants()
	ops := contextOps()
	depth := 2
	if c.x.Thorough() {
		depth = 3
	}
	family := "states seen by interpreters"
	c.x.Parallel(family, len(vars), func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return vars[i].part + "=" + vars[i].value })
		defer w.End()
		build := func() *st.State {
			s := baseState(st.Running)
			vars[i].set(s)
			return s
		}
		name := fmt.Sprint(vars[i].part, "=", vars[i].value)
		c.guard(family, name, func() { c.parameters(name, build()) })
		n := 0
		var rec func(seq []int)
		rec = func(seq []int) {
			n++
			what := name
			for _, o := range seq {
				what += "; " + ops[o].name
			}
			c.guard(family, what, func() {
				s, m := build(), build()
				ctx := utils.ToVmParameters(s).Context
				for k, o := range seq {
					got, want := ops[o].run(ctx), ops[o].model(m)
					if got != want && k == len(seq)-1 {
						c.report(family, what, "result of the last operation", want, got)
					}
				}
				if d := viewDiff(view(m), view(s)); d != "" {
					c.report(family, what, "state", "same as expected", d)
				}
				s.Release()
				m.Release()
			})
			if len(seq) < depth {
				for o := range ops {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
		}
		rec(nil)
		w.Count(int64(n), int64(n), int64(n))
	})
	// hashes of recent blocks
	c.x.Parallel("block hashes", 1, func(w *engine.Worker, _ int) {
		w.BeginNote(func() string { return "block hashes" })
		defer w.End()
		var h [256]tosca.Hash
		for i := range h {
			h[i] = tosca.Hash{byte(i), 1}
		}
		n := int64(0)
		for _, cur := range []uint64{0, 1, 2, 100, 255, 256, 257, 258, 300, 1000, math.MaxInt64 - 1, math.MaxInt64} {
			s := baseState(st.Running)
			s.RecentBlockHashes = common.NewImmutableHashArray(h[:]...)
			s.BlockContext.BlockNumber = cur
			ctx := utils.ToVmParameters(s).Context
			for d := int64(-3); d < 262; d++ {
				n++
				num := int64(cur) - d
				want := tosca.Hash{}
				if d >= 1 && d <= 256 && num >= 0 {
					want = h[d-1]
				}
				what := fmt.Sprint("block ", cur, " asked for ", num)
				c.guard(family, what, func() {
					if got := ctx.GetBlockHash(num); got != want {
						c.report(family, what, "block hash", fmt.Sprintf("%x", want), fmt.Sprintf("%x", got))
					}
				})
			}
		}
		w.Count(n, n, n)
	})
}

func (c *stateCheck) parameters(what string, s *st.State) {
	before := view(s)
	p := utils.ToVmParameters(s)
	f := "states seen by interpreters"
	check := func(field string, want, got any) {
		if w, g := fmt.Sprintf("%x", want), fmt.Sprintf("%x", got); w != g {
			c.report(f, what, "parameter "+field, w, g)
		}
	}
	b := s.BlockContext
	check("ChainID", b.ChainID.Bytes32be(), [32]byte(p.ChainID))
	check("BlockNumber", b.BlockNumber, uint64(p.BlockNumber))
	check("Timestamp", b.TimeStamp, uint64(p.Timestamp))
	check("Coinbase", [20]byte(b.CoinBase), [20]byte(p.Coinbase))
	check("GasLimit", b.GasLimit, uint64(p.GasLimit))
	check("PrevRandao", b.PrevRandao.Bytes32be(), [32]byte(p.PrevRandao))
	check("BaseFee", b.BaseFee.Bytes32be(), [32]byte(p.BaseFee))
	check("BlobBaseFee", b.BlobBaseFee.Bytes32be(), [32]byte(p.BlobBaseFee))
	check("GasPrice", b.GasPrice.Bytes32be(), [32]byte(p.GasPrice))
	check("Revision", int(s.Revision), int(p.Revision))
	check("Origin", [20]byte(s.TransactionContext.OriginAddress), [20]byte(p.Origin))
	check("BlobHashes", len(s.TransactionContext.BlobHashes), len(p.BlobHashes))
	for i, h := range p.BlobHashes {
		check(fmt.Sprint("BlobHashes ", i), [32]byte(s.TransactionContext.BlobHashes[i]), [32]byte(h))
	}
	check("Kind", int(tosca.Call), int(p.Kind))
	check("Static", fmt.Sprint(s.ReadOnly), fmt.Sprint(p.Static))
	check("Depth", 0, p.Depth)
	check("Gas", int64(s.Gas), int64(p.Gas))
	check("Recipient", [20]byte(s.CallContext.AccountAddress), [20]byte(p.Recipient))
	check("Sender", [20]byte(s.CallContext.CallerAddress), [20]byte(p.Sender))
	check("Input", s.CallData.ToBytes(), []byte(p.Input))
	check("Value", s.CallContext.Value.Bytes32be(), [32]byte(p.Value))
	check("Code", s.Code.Copy(), []byte(p.Code))
	if p.CodeHash == nil {
		c.report(f, what, "parameter CodeHash", "hash", "none")
	} else {
		check("CodeHash", keccak(s.Code.Copy()), [32]byte(*p.CodeHash))
	}
	for i := range p.Code {
		p.Code[i] = 0xff
	}
	for i := range p.Input {
		p.Input[i] = 0xff
	}
	if d := viewDiff(before, view(s)); d != "" {
		c.report(f, what, "state after changes to the parameters", "unchanged", d)
	}
}
