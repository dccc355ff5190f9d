package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"pgregory.net/rand"
	"verif/ctgen"
	"verif/engine"
)

func init() {
	checks["P28"] = check{"", func(x *engine.Explorer) {
		g := &genCheck{x: x, v: append(ctgen.Vocabulary(), ctgen.Direct()...)}
		for _, c := range g.v {
			g.bad = append(g.bad, contradictory(c))
			g.parts = append(g.parts, parts(c))
		}
		g.fixedOperations()
		g.copies()
		g.combine(1, 2, 40)
		g.combine(2, 1, 40)
		g.combine(3, 0, 40)
		if x.Thorough() {
			g.combine(1, 2, 120)
			g.combine(1, 3, 14)
			g.combine(2, 1, 120)
			g.combine(2, 2, 12)
			g.combine(3, 1, 10)
		}
		g.finish()
	}}
}

type genCheck struct {
	x  *engine.Explorer
	v  []ctgen.Cond
	mu sync.Mutex
	// what each combination came to
	states, unsat, runs int64
	neverSat            []string
	bad                 []bool            // conditions no generated state satisfies
	parts               []map[string]bool // what a condition speaks about
	total               int64             // combinations that have to be satisfiable
}

func names(v []ctgen.Cond) string {
	var n []string
	for _, c := range v {
		n = append(n, c.Name)
	}
	return strings.Join(n, " ∧ ")
}

// combine explores all combinations of n conditions, with up to k deviations
// among the first choices of a window.
func (g *genCheck) combine(n, k, window int) {
	var sets [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == n {
			sets = append(sets, append([]int{}, cur...))
			return
		}
		for i := from; i < len(g.v); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	g.x.Parallel(fmt.Sprintf("combinations of %d, %d deviations of %d", n, k, window), len(sets), func(w *engine.Worker, i int) {
		var cs []ctgen.Cond
		var rc []rlz.Condition
		for _, j := range sets[i] {
			cs = append(cs, g.v[j])
			rc = append(rc, g.v[j].C)
		}
		w.BeginNote(func() string { return names(cs) })
		defer w.End()
		g.explore(w, sets[i], cs, rlz.And(rc...), k, window)
	})
}

func (g *genCheck) report(cs []ctgen.Cond, r *ctgen.Source, what, want, got string) {
	if dump := os.Getenv("VERIF_GENDUMP"); dump != "" { // development aid
		g.mu.Lock()
		f, _ := os.OpenFile(dump, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintf(f, "%s\t%s\t%v\t%.300q\n", what, names(cs), r.Devs(), got)
		f.Close()
		g.mu.Unlock()
		return
	}
	c, _ := json.Marshal(map[string]any{"conditions": names(cs), "deviations": r.Devs()})
	g.x.Report(engine.Finding{VM: "ct/gen", Family: "generated states", What: what, Want: want, Got: got, Case: c})
}

func (g *genCheck) explore(w *engine.Worker, set []int, cs []ctgen.Cond, all rlz.Condition, k, window int) {
	proto := gen.NewStateGenerator()
	all.Restrict(proto)
	var states, unsat int64
	must := g.mustBeSatisfiable(set)
	ctgen.Explore(k, window, func(r *ctgen.Source) bool {
		if (states+unsat)%4096 == 4095 {
			w.End()
			w.BeginNote(func() string { return fmt.Sprint(names(cs), r.Devs()) })
		}
		s, err := generate(proto.Clone(), r)
		if err != nil {
			if !errors.Is(err, gen.ErrUnsatisfiable) {
				g.report(cs, r, "generator fails", "a state or ErrUnsatisfiable", err.Error())
				return false
			}
			unsat++
			if must {
				g.report(cs, r, "satisfiable conditions are refused: "+names(cs), "a state", err.Error())
			}
			return !must
		}
		states++
		bad := ""
		if b := ctgen.WellFormed(s); b != "" {
			g.report(cs, r, "generated state is malformed", "a consistent state", b)
			bad = b
		}
		for _, c := range cs {
			holds, ok := c.Holds(s)
			chk, err := c.C.Check(s)
			if chk != (holds && ok) || (err == nil) != ok {
				g.report(cs, r, "Check of "+c.Name, fmt.Sprint(holds, ", defined ", ok), fmt.Sprint(chk, ", error ", err))
				bad = c.Name
			}
			if !holds || !ok {
				g.report(cs, r, "generated state violates "+c.Name, "holds", fmt.Sprint(holds, ", defined ", ok, "; ", brief(s)))
				bad = c.Name
			}
		}
		s.Release()
		return bad == ""
	})
	w.Count(states, unsat, states+unsat)
	g.mu.Lock()
	g.states += states
	g.unsat += unsat
	if states == 0 && len(cs) <= 2 {
		g.neverSat = append(g.neverSat, names(cs))
	}
	if must {
		g.total++
	}
	g.mu.Unlock()
}

// contradictory tells which conditions no state satisfies, and which ones the
// generator documents not to cover.
func contradictory(c ctgen.Cond) bool {
	switch c.Name {
	case "gas<0", "gas>500000000000", "stack<0", "stack>1024", "isData[0]", "balance(self)<0",
		"storage(StorageAssigned,param0,0)": // "there are more configurations [...]; but this should do for now"
		return true
	}
	if m := storageName.FindStringSubmatch(c.Name); m != nil {
		// the new value is a constant not fitting the configuration
		return strings.HasSuffix(m[1], "Deleted") != (m[2] == "0") && (m[2] == "0" || m[2] == "1")
	}
	return strings.HasPrefix(c.Name, "balance(self)>115792")
}

var (
	storageName = regexp.MustCompile(`^storage\(Storage(\w+),\w+,(\w+)\)$`)
	partNames   = regexp.MustCompile(`\b(status|readOnly|pc|gas|stack|revision|self|selfdestructed|blob|recent)\b`)
	codeNames   = regexp.MustCompile(`code\[|isCode|isData`)
	paramNames  = regexp.MustCompile(`(?:param|value)(\d)`)
	constNames  = regexp.MustCompile(`[\[(,](\d+)[\]),]`)
)

// parts lists what a condition depends on; conditions on different parts can
// not contradict each other.
func parts(c ctgen.Cond) map[string]bool {
	t := map[string]bool{}
	for _, m := range partNames.FindAllString(c.Name, -1) {
		if m == "recent" || m == "revision" {
			m = "block"
		}
		t[m] = true
	}
	if codeNames.MatchString(c.Name) {
		t["code"] = true
	}
	for _, m := range paramNames.FindAllStringSubmatch(c.Name, -1) {
		t["p"+m[1]] = true
		t["stack"] = true
	}
	if m := constNames.FindStringSubmatch(c.Name); m != nil {
		t["constant"+m[1]] = true
	}
	return t
}

// mustBeSatisfiable tells whether some state satisfies the conditions because
// each of them is satisfiable and they speak about different things.
func (g *genCheck) mustBeSatisfiable(set []int) bool {
	for n, i := range set {
		if g.bad[i] {
			return false
		}
		for _, j := range set[:n] {
			for p := range g.parts[i] {
				if g.parts[j][p] {
					return false
				}
			}
		}
	}
	return true
}

func brief(s *st.State) string {
	t := s.String()
	if len(t) > 1500 {
		t = t[:1500]
	}
	return t
}

func generate(g *gen.StateGenerator, r *ctgen.Source) (s *st.State, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return g.Generate(rand.NewFromSource(r))
}

func (g *genCheck) finish() {
	sort.Strings(g.neverSat)
	g.x.Extra("never_satisfied", g.neverSat)
	g.x.Extra("combinations_required_satisfiable", g.total)
	g.x.Extra("conditions", len(g.v))
	g.x.Extra("states_judged", g.states)
	g.x.Extra("unsatisfiable_answers", g.unsat)
}

// ---- codes with operations, code and data at fixed positions

// codeReq is a requirement on a position of the code.
type codeReq struct {
	pos  int
	op   int // -1: any instruction, -2: data
	bind bool
}

func (r codeReq) String() string {
	switch r.op {
	case -1:
		return fmt.Sprintf("isCode[%d]", r.pos)
	case -2:
		return fmt.Sprintf("isData[%d]", r.pos)
	}
	if r.bind {
		return fmt.Sprintf("op[v=%d]=%v", r.pos, vm.OpCode(r.op))
	}
	return fmt.Sprintf("op[%d]=%v", r.pos, vm.OpCode(r.op))
}

// codeExists tells whether some code meets all requirements.
func codeExists(l []codeReq) bool {
	end, ops, isCode, isData := 0, map[int]int{}, map[int]bool{}, map[int]bool{}
	for _, r := range l {
		end = max(end, r.pos+1)
		if r.pos >= st.MaxCodeSize {
			return false
		}
		switch r.op {
		case -1:
			isCode[r.pos] = true
		case -2:
			isData[r.pos] = true
		default:
			if o, ok := ops[r.pos]; ok && o != r.op {
				return false
			}
			ops[r.pos] = r.op
		}
	}
	reach := make([]bool, end+40)
	reach[0] = true
	for i := 0; i < end; i++ {
		if !reach[i] || isData[i] {
			continue
		}
		from, to := 0, 32
		if o, ok := ops[i]; ok {
			from = 0
			if o >= 0x60 && o <= 0x7f {
				from = o - 0x5f
			}
			to = from
		}
		for n := 0; n <= to; n++ {
			if p := i + n; n > 0 && p < end {
				if _, ok := ops[p]; ok || isCode[p] {
					break
				}
			}
			if n >= from {
				reach[i+n+1] = true
			}
		}
	}
	for i := end; i < len(reach); i++ {
		if reach[i] {
			return true
		}
	}
	return false
}

// fixedOperations explores all sets of requirements on fixed positions, in all
// orders, against an exact judgement of their satisfiability.
func (g *genCheck) fixedOperations() {
	var alphabet []codeReq
	pos := []int{0, 1, 2, 3, 33, 34, 35}
	if g.x.Thorough() {
		pos = []int{0, 1, 2, 3, 4, 31, 32, 33, 34, 35, 66}
	}
	for _, p := range pos {
		for _, op := range []vm.OpCode{vm.STOP, vm.PUSH1, vm.PUSH2, vm.PUSH32} {
			alphabet = append(alphabet, codeReq{p, int(op), false})
		}
		alphabet = append(alphabet, codeReq{p, int(vm.ADD), true}, codeReq{p, -1, false}, codeReq{p, -2, false})
	}
	for _, p := range []int{st.MaxCodeSize - 1, st.MaxCodeSize} {
		alphabet = append(alphabet, codeReq{p, int(vm.STOP), false}, codeReq{p, int(vm.ADD), true}, codeReq{p, -1, false}, codeReq{p, -2, false})
	}
	g.x.Parallel("operations at fixed positions", len(alphabet)*len(alphabet), func(w *engine.Worker, i int) {
		a, b := alphabet[i/len(alphabet)], alphabet[i%len(alphabet)]
		w.BeginNote(func() string { return fmt.Sprint(a, b) })
		defer w.End()
		g.codeSet(w, []codeReq{a, b}, 1)
		if i%len(alphabet) == 0 {
			g.codeSet(w, []codeReq{a}, 2)
		}
		for _, c := range alphabet {
			if a.pos < st.MaxCodeSize-1 && b.pos < st.MaxCodeSize-1 && c.pos < st.MaxCodeSize-1 {
				g.codeSet(w, []codeReq{a, b, c}, 0)
			}
		}
	})
}

func (g *genCheck) codeSet(w *engine.Worker, l []codeReq, k int) {
	proto, vars := gen.NewStateGenerator(), 0
	for i, r := range l {
		v := gen.Variable(fmt.Sprint("v", i))
		if r.bind || r.op < 0 {
			proto.BindValue(v, common.NewU256(uint64(r.pos)))
		}
		switch {
		case r.op == -1:
			proto.AddIsCode(v)
			vars++
		case r.op == -2:
			proto.AddIsData(v)
			vars++
		case r.bind:
			proto.AddCodeOperation(v, vm.OpCode(r.op))
		default:
			proto.SetCodeOperation(r.pos, vm.OpCode(r.op))
		}
	}
	exists, twice := codeExists(l), false
	for i, r := range l {
		for _, q := range l[:i] {
			twice = twice || r.op >= 0 && q.op >= 0 && r.pos == q.pos
		}
	}
	var n, unsat int64
	bad := func(r *ctgen.Source, what, want, got string) bool {
		c, _ := json.Marshal(map[string]any{"requirements": fmt.Sprint(l), "deviations": r.Devs()})
		g.x.Report(engine.Finding{VM: "ct/gen", Family: "generated codes", What: fmt.Sprint(what, ": ", l), Want: want, Got: got, Case: c})
		return false
	}
	ctgen.Explore(k, 12, func(r *ctgen.Source) bool {
		s, err := generate(proto.Clone(), r)
		if err != nil {
			unsat++
			if !errors.Is(err, gen.ErrUnsatisfiable) {
				return bad(r, "generator fails", "a state or ErrUnsatisfiable", err.Error())
			}
			// the solver for several variables is documented to be incomplete, and
			// requiring an operation twice is specified to be a conflict
			if exists && vars < 2 && !twice {
				return bad(r, "satisfiable requirements are refused", "a state", err.Error())
			}
			return true
		}
		n++
		defer s.Release()
		if !exists {
			return bad(r, "unsatisfiable requirements are met", "ErrUnsatisfiable", fmt.Sprintf("%x", s.Code.Copy()))
		}
		code := s.Code.Copy()
		data := make([]bool, len(code)+40)
		for i := 0; i < len(code); i++ {
			if c := code[i]; c >= 0x60 && c <= 0x7f {
				for j := 0; j < int(c-0x5f); j++ {
					i++
					data[i] = true
				}
			}
		}
		for _, q := range l {
			ok := q.pos < len(code)
			if ok {
				ok = data[q.pos] == (q.op == -2) && (q.op < 0 || code[q.pos] == byte(q.op))
			}
			if !ok {
				return bad(r, "generated code violates "+q.String(), "holds", fmt.Sprintf("%x", code))
			}
		}
		return true
	})
	w.Count(n+unsat, n+unsat, n)
	g.mu.Lock()
	g.states += n
	g.unsat += unsat
	if exists && vars < 2 && !twice {
		g.total++
	}
	g.mu.Unlock()
}

// copies explores clones and restored generators: they describe what the
// original does, are independent of it, and generate states of that kind.
func (g *genCheck) copies() {
	n := len(g.v)
	g.x.Parallel("copies of generators", n*n, func(w *engine.Worker, i int) {
		a, b, d := g.v[i/n], g.v[i%n], g.v[(i%n+1)%n]
		w.BeginNote(func() string { return a.Name + ", " + b.Name })
		defer w.End()
		failed, runs := false, int64(0)
		fresh := func(l ...ctgen.Cond) *gen.StateGenerator {
			p := gen.NewStateGenerator()
			for _, c := range l {
				c.C.Restrict(p)
			}
			return p
		}
		// expect checks that the generator y has the conditions l
		expect := func(name string, y *gen.StateGenerator, l ...ctgen.Cond) {
			if failed {
				return
			}
			want := fresh(l...).String()
			if got := y.String(); want != got {
				failed = true
				g.report(l, ctgen.NewSource(), "description of "+name, want, got)
				return
			}
			if i%7 != 0 && !g.x.Thorough() {
				return
			}
			k := 0
			if g.x.Thorough() {
				k = 1
			}
			ctgen.Explore(k, 6, func(r *ctgen.Source) bool {
				runs++
				s, err := generate(y.Clone(), r)
				if err == nil {
					for _, c := range l {
						if holds, ok := c.Holds(s); ok && !holds {
							failed = true
							g.report(l, r, name+" generates a state violating "+c.Name, "holds", brief(s))
						}
					}
					s.Release()
				} else if !errors.Is(err, gen.ErrUnsatisfiable) {
					failed = true
					g.report(l, r, name+" fails", "a state or ErrUnsatisfiable", err.Error())
				}
				return !failed
			})
		}
		for _, times := range []int{1, 3} {
			// three constraints leave room in the slices of the original for a fourth
			var base []ctgen.Cond
			for len(base) < times {
				base = append(base, a)
			}
			and := func(l ...ctgen.Cond) []ctgen.Cond { return append(base[:times:times], l...) }
			o := fresh(base...)
			c := o.Clone()
			b.C.Restrict(c)
			expect("the original of an extended clone", o, base...)
			expect("an extended clone", c, and(b)...)
			d.C.Restrict(o)
			expect("an extended clone of an extended original", c, and(b)...)
			expect("an extended original", o, and(d)...)
			o, c = fresh(b), fresh(base...)
			o.Restore(c)
			expect("a restored generator", o, base...)
			b.C.Restrict(o)
			d.C.Restrict(c)
			expect("an extended restored generator", o, and(b)...)
			expect("the extended source of a restored generator", c, and(d)...)
			o.Restore(o)
			expect("a generator restored from itself", o, and(b)...)
		}
		w.Count(runs+16, runs+16, runs)
	})
}
