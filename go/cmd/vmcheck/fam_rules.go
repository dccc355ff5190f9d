package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"pgregory.net/rand"
	"verif/ctgen"
	"verif/engine"
)

// P29: the enumeration of test cases for rules.

func init() {
	checks["P29"] = check{"", func(x *engine.Explorer) {
		r := &ruleCheck{x: x, g: &genCheck{x: x, v: ctgen.Vocabulary()}}
		for _, c := range r.g.v {
			r.g.bad = append(r.g.bad, contradictory(c))
			r.g.parts = append(r.g.parts, parts(c))
		}
		r.rules = spc.Spec.GetRules()
		sort.SliceStable(r.rules, func(i, j int) bool { return r.rules[i].Name < r.rules[j].Name })
		r.dimensions()
		r.parameters()
		r.forEachState()
		r.boundaries()
		r.pairs()
		r.specification()
		r.satisfying()
	}}
}

type ruleCheck struct {
	x       *engine.Explorer
	g       *genCheck
	rules   []rlz.Rule
	mu      sync.Mutex
	alone   []seenOutcomes
	several int64
	open    int
}

func (r *ruleCheck) report(family, subject, what, want, got string) {
	if dump := os.Getenv("VERIF_GENDUMP"); dump != "" { // development aid
		r.mu.Lock()
		f, _ := os.OpenFile(dump, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintf(f, "%s\t%s\t%s\t%s\t%.300q\n", family, subject, what, want, got)
		f.Close()
		r.mu.Unlock()
		return
	}
	c, _ := json.Marshal(map[string]any{"subject": subject})
	r.x.Report(engine.Finding{VM: "ct/rlz", Family: family, What: what + ": " + subject, Want: want, Got: got, Case: c})
}

// guard turns a panic of the code under test into a finding.
func (r *ruleCheck) guard(family, subject string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			r.report(family, subject, "panic", "no panic", fmt.Sprint(p))
		}
	}()
	f()
}

// product enumerates the test cases of a condition independently: all
// combinations of one value per property.
type caseProduct struct {
	dims  [][]rlz.TestValue
	props []string
	total int
}

func newProduct(c rlz.Condition) caseProduct {
	m := map[string][]rlz.TestValue{}
	for _, v := range c.GetTestValues() {
		k, dup := string(v.Property()), false
		for _, o := range m[k] {
			dup = dup || v.Compare(o) == 0
		}
		if !dup {
			m[k] = append(m[k], v)
		}
	}
	p := caseProduct{total: 1}
	for k := range m {
		p.props = append(p.props, k)
	}
	sort.Strings(p.props)
	for _, k := range p.props {
		p.dims = append(p.dims, m[k])
		p.total *= len(m[k])
	}
	return p
}

// satisfiable counts the combinations for which a state exists.
func (p caseProduct) satisfiable(w *engine.Worker, note string, rnd *rand.Rand) (n int, err error) {
	k := 0
	var rec func(i int, g *gen.StateGenerator)
	rec = func(i int, g *gen.StateGenerator) {
		if err != nil {
			return
		}
		if i == len(p.dims) {
			if k++; k%4096 == 0 {
				w.End()
				w.BeginNote(func() string { return note })
			}
			s, e := g.Generate(rnd)
			switch {
			case e == nil:
				n++
				s.Release()
			case !errors.Is(e, gen.ErrUnsatisfiable):
				err = e
			}
			return
		}
		for _, v := range p.dims[i] {
			c := g.Clone()
			v.Restrict(c)
			rec(i+1, c)
		}
	}
	rec(0, gen.NewStateGenerator())
	return
}

// agrees tells whether n states are what the combinations yield. The solver of
// the generator is sound but documented to be incomplete: where it finds a
// state or not depending on random choices, the number is not determined.
func (p caseProduct) agrees(w *engine.Worker, note string, n, want int) bool {
	tries := uint64(6)
	if p.total < 1000 {
		tries = 100
	}
	for seed := uint64(1); n != want && seed <= tries; seed++ {
		if other, _ := p.satisfiable(w, note, rand.New(seed)); other != want {
			return true
		}
	}
	return n == want
}

// ---- synthetic conditions

type intDomain struct{}

func (intDomain) Equal(a, b int) bool         { return a == b }
func (intDomain) Less(a, b int) bool          { return a < b }
func (intDomain) Predecessor(a int) int       { return a - 1 }
func (intDomain) Successor(a int) int         { return a + 1 }
func (intDomain) SomethingNotEqual(a int) int { return a + 1 }
func (intDomain) Samples(a int) []int         { return []int{a} }
func (intDomain) SamplesForAll(a []int) []int { return a }

// synthetic is a condition with freely chosen test values.
type synthetic struct {
	name  string
	vals  []rlz.TestValue
	check func(s *st.State) (bool, error)
	limit func(g *gen.StateGenerator)
}

func (c *synthetic) Check(s *st.State) (bool, error) {
	if c.check == nil {
		return true, nil
	}
	return c.check(s)
}
func (c *synthetic) Restrict(g *gen.StateGenerator) {
	if c.limit != nil {
		c.limit(g)
	}
}
func (c *synthetic) GetTestValues() []rlz.TestValue { return append([]rlz.TestValue{}, c.vals...) }
func (c *synthetic) String() string                 { return c.name }

// Three properties a test value can set; a negative one is unsatisfiable.
func synthValue(dim, v int) rlz.TestValue {
	restrict := func(g *gen.StateGenerator, v int) {
		if v < 0 {
			g.SetGas(1)
			g.SetGas(2)
			return
		}
		switch dim {
		case 0:
			g.SetGas(tosca.Gas(1000 + v))
		case 1:
			g.SetStackSize(10 + v)
		case 2:
			g.SetGasRefund(tosca.Gas(100 + v))
		case 3:
			g.SetPc(uint16(v))
		}
	}
	return rlz.NewTestValue(rlz.Property("xaby"[dim:dim+1]), intDomain{}, v, restrict)
}

func synthTuple(s *st.State, used [4]bool) (t [4]int) {
	for i, v := range [4]int{int(s.Gas) - 1000, s.Stack.Size() - 10, int(s.GasRefund) - 100, int(s.Pc)} {
		if used[i] {
			t[i] = v
		}
	}
	return
}

// dimensions: every combination of test values is enumerated exactly once,
// for all small sets of values, ways to distribute them, and abortions.
func (r *ruleCheck) dimensions() {
	lists := [][]int{{}, {1}, {1, 2}, {2, 1, 1}, {1, -1}, {-1, 3, 2, 3}}
	n := 1
	for i := 0; i < 4; i++ {
		n *= len(lists)
	}
	r.x.Parallel("test value combinations", n, func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return fmt.Sprint("combination ", i) })
		defer w.End()
		var vals []rlz.TestValue
		var used [4]bool
		want := map[[4]int]bool{{}: true}
		name := ""
		for d, k := 0, i; d < 4; d, k = d+1, k/len(lists) {
			l := lists[k%len(lists)]
			name += fmt.Sprint(l)
			next := map[[4]int]bool{}
			for _, v := range l {
				vals = append(vals, synthValue(d, v))
				for t := range want {
					if v >= 0 {
						t[d] = v
						next[t] = true
					}
				}
			}
			if len(l) > 0 {
				used[d], want = true, next
			}
		}
		rnd := rand.NewFromSource(ctgen.NewSource())
		runs := int64(0)
		for split := 0; split <= len(vals); split++ {
			// distributed over conjunctions in different ways
			a, b := &synthetic{name: "a", vals: vals[:split]}, &synthetic{name: "b", vals: vals[split:]}
			for form, c := range []rlz.Condition{rlz.And(a, b), rlz.And(b, rlz.And(rlz.And(), a)), rlz.And(rlz.And(b, a), rlz.And(a))} {
				if split > 0 && form > 0 {
					continue
				}
				sub := fmt.Sprint(name, " split at ", split, " form ", form)
				r.guard("dimensions", sub, func() {
					rule := rlz.Rule{Name: "x", Condition: c}
					got := map[[4]int]int{}
					var kept []*st.State
					err := rule.EnumerateTestCases(rnd, func(s *st.State) rlz.ConsumerResult {
						runs++
						got[synthTuple(s, used)]++
						kept = append(kept, s.Clone())
						return rlz.ConsumeContinue
					})
					if err != nil {
						r.report("dimensions", sub, "enumeration fails", "no error", err.Error())
					}
					for t := range want {
						if got[t] != 1 {
							r.report("dimensions", sub, fmt.Sprint("combination ", t), "exactly once", fmt.Sprint(got[t], " times"))
						}
					}
					if len(got) != len(want) {
						r.report("dimensions", sub, "number of combinations", fmt.Sprint(len(want)), fmt.Sprint(len(got)))
					}
					for _, s := range kept {
						if !want[synthTuple(s, used)] {
							r.report("dimensions", sub, "copies made by a consumer", "remain intact", fmt.Sprint(synthTuple(s, used)))
						}
						s.Release()
					}
					info := rule.GetTestCaseEnumerationInfo()
					if p := newProduct(c).total; info.TotalNumberOfCases() != p {
						r.report("dimensions", sub, "total number of cases", fmt.Sprint(p), fmt.Sprint(info.TotalNumberOfCases()))
					}
					if form == 0 && split == 0 {
						for stop := 1; stop <= len(want); stop++ {
							n := 0
							err := rule.EnumerateTestCases(rnd, func(s *st.State) rlz.ConsumerResult {
								if n++; n >= stop {
									return rlz.ConsumeAbort
								}
								return rlz.ConsumeContinue
							})
							runs += int64(n)
							if n != stop || err != nil {
								r.report("dimensions", sub, fmt.Sprint("abort at ", stop), fmt.Sprint(stop, " calls, no error"), fmt.Sprint(n, " calls, ", err))
							}
						}
					}
				})
			}
		}
		w.Count(int64(len(want)), runs, runs)
	})
}

type samples []common.U256

func (s samples) Samples() []common.U256 { return s }

// parameters: all tuples of parameter values, nothing else changes.
func (r *ruleCheck) parameters() {
	u := func(v ...uint64) common.U256 { return common.NewU256(v...) }
	lists := []samples{{}, {u(0)}, {u(1), common.MaxU256()}, {u(7), u(7, 0), u(8)}, {u(5), u(5)}}
	type job struct {
		params []rlz.Parameter
		lists  []samples
		size   int
		outer  int
	}
	var jobs []job
	var rec func(p []rlz.Parameter, l []samples)
	rec = func(p []rlz.Parameter, l []samples) {
		for size := 0; size <= 5; size++ {
			for outer := 1; outer <= 2; outer++ {
				jobs = append(jobs, job{append([]rlz.Parameter{}, p...), append([]samples{}, l...), size, outer})
			}
		}
		if len(p) == 4 {
			return
		}
		for _, s := range lists {
			rec(append(p, s), append(l, s))
		}
	}
	rec(nil, nil)
	r.x.Parallel("parameters", len(jobs), func(w *engine.Worker, i int) {
		j := jobs[i]
		w.BeginNote(func() string { return fmt.Sprint(j) })
		defer w.End()
		sub := fmt.Sprint(j.lists, " stack size ", j.size)
		r.guard("parameters", sub, func() {
			var vals []rlz.TestValue
			for o := 0; o < j.outer; o++ {
				vals = append(vals, synthValue(0, o))
			}
			vals = append(vals, synthValue(1, j.size-10))
			cond := &synthetic{name: "c", vals: vals, limit: func(g *gen.StateGenerator) {}}
			c := rlz.And(cond, &synthetic{vals: []rlz.TestValue{rlz.NewTestValue("size", intDomain{}, j.size, func(g *gen.StateGenerator, v int) { g.SetStackSize(v) })}})
			cond.vals = vals[:j.outer]
			rule := rlz.Rule{Name: "x", Condition: c, Parameter: j.params}
			k := min(len(j.params), j.size)
			perOuter := 1
			for _, l := range j.lists[:k] {
				perOuter *= len(l) + 1
			}
			// Each group of calls belongs to one generated state.
			var all []*st.State
			rnd := rand.NewFromSource(ctgen.NewSource())
			err := rule.EnumerateTestCases(rnd, func(s *st.State) rlz.ConsumerResult {
				all = append(all, s.Clone())
				return rlz.ConsumeContinue
			})
			if err != nil {
				r.report("parameters", sub, "enumeration fails", "no error", err.Error())
			}
			groups := map[tosca.Gas][]*st.State{}
			for _, s := range all {
				groups[s.Gas] = append(groups[s.Gas], s)
			}
			if len(groups) != j.outer {
				r.report("parameters", sub, "generated states", fmt.Sprint(j.outer), fmt.Sprint(len(groups)))
			}
			for gas, g := range groups {
				// The value set by the generator is the one in a tuple not
				// made of samples only; it is found in the original.
				orig := original(g, j.lists[:k])
				if orig == nil {
					r.report("parameters", sub, "combination with the generated values", "present", fmt.Sprint("missing for gas ", gas))
					continue
				}
				want := map[string]bool{"": true}
				for p := 0; p < k; p++ {
					next := map[string]bool{}
					for t := range want {
						for _, v := range append(samples{orig.Stack.Get(p)}, j.lists[p]...) {
							next[t+v.String()+","] = true
						}
					}
					want = next
				}
				got := map[string]bool{}
				for _, s := range g {
					t := ""
					for p := 0; p < k; p++ {
						t += s.Stack.Get(p).String() + ","
					}
					got[t] = true
					if !want[t] {
						r.report("parameters", sub, "combination "+t, "only samples and the generated value", "enumerated")
					}
					// everything else is unchanged
					o := s.Clone()
					for p := 0; p < k; p++ {
						o.Stack.Set(p, orig.Stack.Get(p))
					}
					if same(o, orig) != "" {
						r.report("parameters", sub, "rest of the state", "unchanged", same(o, orig))
					}
					o.Release()
				}
				if len(got) != len(want) {
					r.report("parameters", sub, "number of different combinations", fmt.Sprint(len(want)), fmt.Sprint(len(got)))
				}
				if len(g) > perOuter {
					r.report("parameters", sub, "number of combinations", fmt.Sprint("at most ", perOuter), fmt.Sprint(len(g)))
				}
			}
			for _, s := range all {
				s.Release()
			}
			stops := []int{1, 2, len(all) / 2, len(all)}
			for _, stop := range stops {
				if stop < 1 || stop > len(all) {
					continue
				}
				n := 0
				err := rule.EnumerateTestCases(rand.NewFromSource(ctgen.NewSource()), func(s *st.State) rlz.ConsumerResult {
					if n++; n >= stop {
						return rlz.ConsumeAbort
					}
					return rlz.ConsumeContinue
				})
				if n != stop || err != nil {
					r.report("parameters", sub, fmt.Sprint("abort at ", stop), fmt.Sprint(stop, " calls, no error"), fmt.Sprint(n, " calls, ", err))
				}
			}
			total := (&rule).GetTestCaseEnumerationInfo()
			want := j.outer
			for _, l := range j.lists {
				want *= len(l) + 1
			}
			if total.TotalNumberOfCases() != want {
				r.report("parameters", sub, "total number of cases", fmt.Sprint(want), fmt.Sprint(total.TotalNumberOfCases()))
			}
			w.Count(int64(len(all)), int64(len(all)), int64(len(all))*2)
		})
	})
}

// original finds the state whose parameters are the generated ones: those are
// random words, different from all samples.
func original(g []*st.State, lists []samples) *st.State {
next:
	for _, s := range g {
		for p, l := range lists {
			for _, v := range l {
				if s.Stack.Get(p) == v {
					continue next
				}
			}
		}
		return s
	}
	return nil
}

// same compares everything observable of two states.
func same(a, b *st.State) string {
	x, y := a.Clone(), b.Clone()
	defer x.Release()
	defer y.Release()
	var d []string
	if x.Status != y.Status || x.Pc != y.Pc || x.ReturnData != y.ReturnData {
		d = append(d, fmt.Sprintf("status, pc or return data differ: %v/%v, %d/%d", x.Status, y.Status, x.Pc, y.Pc))
	}
	x.Status, y.Status = st.Running, st.Running
	if !x.Eq(y) {
		d = append(d, x.Diff(y)...)
		if len(d) == 0 {
			d = append(d, "different")
		}
	}
	t := strings.Join(d, "; ")
	if len(t) > 1000 {
		t = t[:1000]
	}
	return t
}

// ---- distributing test cases

func (r *ruleCheck) forEachState() {
	type key struct {
		name string
		t    [4]int
	}
	// Rules telling by their states' refund which of them they belong to.
	mk := func(id int, lists [4][]int, params []rlz.Parameter, check func(s *st.State) (bool, error)) rlz.Rule {
		c := &synthetic{name: fmt.Sprint("c", id), check: check}
		for d, l := range lists {
			for _, v := range l {
				c.vals = append(c.vals, synthValue(d, v))
			}
		}
		c.vals = append(c.vals, rlz.NewTestValue("id", intDomain{}, id, func(g *gen.StateGenerator, v int) { g.SetGasRefund(tosca.Gas(100 + v)) }))
		return rlz.Rule{Name: fmt.Sprint("rule", id), Condition: c, Parameter: params}
	}
	two := []rlz.Parameter{samples{common.NewU256(3)}, samples{common.NewU256(4), common.NewU256(5)}}
	var odd = func(s *st.State) (bool, error) { return s.Gas%2 == 1, nil }
	var none = func(s *st.State) (bool, error) { return false, nil }
	var fails = func(s *st.State) (bool, error) { return true, errors.New("not decidable") }
	pool := []rlz.Rule{
		mk(0, [4][]int{{1, 2}, {1, 2, 3}}, nil, nil),
		mk(1, [4][]int{{1, 2, 3, 4}, {1}}, two, odd),
		mk(2, [4][]int{{5}, {-1}}, nil, nil),
		mk(3, [4][]int{{1, 2}}, nil, none),
		mk(4, [4][]int{{1, 2, 3}}, nil, fails),
		mk(5, [4][]int{{1, 2, 3}, {1, 2, 3}, nil, {0, 1}}, two[:1], odd),
	}
	type job struct {
		set  int
		full bool
		jobs int
		seed uint64
	}
	var todo []job
	for set := 0; set < 1<<len(pool); set++ {
		for _, full := range []bool{false, true} {
			for _, n := range []int{1, 2, 5} {
				for _, seed := range []uint64{0, 42} {
					todo = append(todo, job{set, full, n, seed})
				}
			}
		}
	}
	r.x.Parallel("for each state", len(todo), func(w *engine.Worker, i int) {
		j := todo[i]
		w.BeginNote(func() string { return fmt.Sprint(j) })
		defer w.End()
		sub := fmt.Sprintf("rules %b, full %t, %d jobs, seed %d", j.set, j.full, j.jobs, j.seed)
		var rules []rlz.Rule
		want := []*st.State{}
		for k := range pool {
			if j.set>>k&1 == 0 {
				continue
			}
			rule := pool[k]
			rules = append(rules, rule)
			rule.EnumerateTestCases(rand.New(j.seed), func(s *st.State) rlz.ConsumerResult {
				ok, err := rule.Condition.Check(s)
				if j.full || ok && err == nil {
					want = append(want, s.Clone())
				}
				return rlz.ConsumeContinue
			})
		}
		run := func(stop int) (got []*st.State, printed int64, err error) {
			var mu sync.Mutex
			n := 0
			printed = -1
			err = spc.ForEachState(rules, func(s *st.State) rlz.ConsumerResult {
				mu.Lock()
				defer mu.Unlock()
				n++
				got = append(got, s.Clone())
				if stop > 0 && n >= stop {
					return rlz.ConsumeAbort
				}
				return rlz.ConsumeContinue
			}, func(_ time.Duration, _ float64, cur int64) { mu.Lock(); printed = cur; mu.Unlock() }, j.jobs, j.seed, j.full)
			return
		}
		got, printed, err := run(0)
		if err != nil {
			r.report("for each state", sub, "error", "none", err.Error())
		}
		if printed != int64(len(got)) {
			r.report("for each state", sub, "number of cases reported", fmt.Sprint(len(got)), fmt.Sprint(printed))
		}
		// the same states, in any order
		if len(got) != len(want) {
			r.report("for each state", sub, "number of states", fmt.Sprint(len(want)), fmt.Sprint(len(got)))
		}
		used := make([]bool, len(got))
	search:
		for _, s := range want {
			for k, t := range got {
				if !used[k] && s.Gas == t.Gas && s.GasRefund == t.GasRefund && same(s, t) == "" {
					used[k] = true
					continue search
				}
			}
			r.report("for each state", sub, "state with gas "+fmt.Sprint(s.Gas, " refund ", s.GasRefund), "visited as when enumerating the rule with the same seed", "not visited")
			break
		}
		runs := len(got)
		for _, s := range append(got, want...) {
			s.Release()
		}
		for _, stop := range []int{1, 3, len(want)} {
			if stop == 0 || stop > len(want) || j.seed != 0 {
				continue
			}
			got, printed, err := run(stop)
			if printed != int64(len(got)) {
				r.report("for each state", sub, fmt.Sprint("number of cases reported on abort at ", stop), fmt.Sprint(len(got)), fmt.Sprint(printed))
			}
			if err != nil || len(got) < stop || len(got) > len(want) {
				r.report("for each state", sub, fmt.Sprint("abort at ", stop), fmt.Sprint("no error, ", stop, " to ", len(want), " calls"), fmt.Sprint(err, ", ", len(got), " calls"))
			}
			runs += len(got)
			for _, s := range got {
				s.Release()
			}
		}
		w.Count(int64(len(want)), int64(runs), int64(runs))
	})
	// rules whose states can not be generated
	failing := func(id, n, at int) rlz.Rule {
		rule := mk(id, [4][]int{}, nil, nil)
		c := rule.Condition.(*synthetic)
		for v := 0; v < n; v++ {
			c.vals = append(c.vals, rlz.NewTestValue("x", intDomain{}, v, func(g *gen.StateGenerator, v int) {
				if v == at {
					g.BindPc("nowhere bound")
				}
				g.SetGas(tosca.Gas(1000 + v))
			}))
		}
		return rule
	}
	type broken struct{ pos, n, at, jobs int }
	var bad []broken
	for pos := 0; pos <= 3; pos++ {
		for n := 1; n <= 4; n++ {
			for at := 0; at < n; at++ {
				for _, jobs := range []int{1, 2, 5} {
					bad = append(bad, broken{pos, n, at, jobs})
				}
			}
		}
	}
	r.x.Parallel("rules failing", len(bad), func(w *engine.Worker, i int) {
		j := bad[i]
		w.BeginNote(func() string { return fmt.Sprint(j) })
		defer w.End()
		sub := fmt.Sprintf("position %d, failure at %d of %d values, %d jobs", j.pos, j.at, j.n, j.jobs)
		rule := failing(7, j.n, j.at)
		seen := 0
		r.guard("rules failing", sub, func() {
			err := rule.EnumerateTestCases(rand.New(1), func(*st.State) rlz.ConsumerResult { seen++; return rlz.ConsumeContinue })
			if !errors.Is(err, gen.ErrUnboundVariable) || seen >= j.n {
				r.report("rules failing", sub, "enumeration of the rule", "error: unbound variable", fmt.Sprint(err, ", ", seen, " states"))
			}
		})
		rules := []rlz.Rule{pool[0], pool[1], pool[5]}
		rules = append(rules[:j.pos:j.pos], append([]rlz.Rule{rule}, rules[j.pos:]...)...)
		calls := int64(0)
		err := spc.ForEachState(rules, func(s *st.State) rlz.ConsumerResult {
			atomic.AddInt64(&calls, 1)
			return rlz.ConsumeContinue
		}, func(time.Duration, float64, int64) {}, j.jobs, 1, true)
		if !errors.Is(err, gen.ErrUnboundVariable) {
			r.report("rules failing", sub, "enumeration of all rules", "error: unbound variable", fmt.Sprint(err))
		}
		w.Count(int64(j.n), calls, calls+int64(seen))
	})
	// aborting long enumerations
	long := func(id int) rlz.Rule {
		var l [4][]int
		for v := 0; v < 40; v++ {
			l[0], l[1] = append(l[0], v), append(l[1], v)
		}
		return mk(id, l, nil, nil)
	}
	type halt struct{ rules, at, jobs int }
	var halts []halt
	for _, n := range []int{1, 2} {
		for _, at := range []int{1, 2, 7, 100} {
			for _, jobs := range []int{1, 2, 5} {
				halts = append(halts, halt{n, at, jobs})
			}
		}
	}
	r.x.Parallel("long enumerations", len(halts), func(w *engine.Worker, i int) {
		j := halts[i]
		w.BeginNote(func() string { return fmt.Sprint(j) })
		defer w.End()
		calls := int64(0)
		var rules []rlz.Rule
		for k := 0; k < j.rules; k++ {
			rules = append(rules, long(8+k))
		}
		err := spc.ForEachState(rules, func(s *st.State) rlz.ConsumerResult {
			if atomic.AddInt64(&calls, 1) >= int64(j.at) {
				return rlz.ConsumeAbort
			}
			return rlz.ConsumeContinue
		}, func(time.Duration, float64, int64) {}, j.jobs, 1, true)
		if err != nil || calls < int64(j.at) || calls >= 1600 {
			r.report("long enumerations", fmt.Sprint(j.rules, " rules of 1600 states, ", j.jobs, " jobs"), fmt.Sprint("abort at state ", j.at), "no error, ended early", fmt.Sprint(err, ", ", calls, " states"))
		}
		w.Count(calls, calls, calls)
	})
	// filters
	for _, p := range []string{"", "^rule", "1|5", "x", "[03]$"} {
		var re *regexp.Regexp
		if p != "" {
			re = regexp.MustCompile(p)
		}
		var want, got []string
		for _, x := range pool {
			if re == nil || re.MatchString(x.Name) {
				want = append(want, x.Name)
			}
		}
		for _, x := range spc.FilterRules(pool, re) {
			got = append(got, x.Name)
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			r.report("for each state", p, "filtered rules", fmt.Sprint(want), fmt.Sprint(got))
		}
	}
	_ = key{}
}

// ---- boundaries of conditions

// outcomes says whether a condition was seen to hold (1) and not to hold (2).
type seenOutcomes struct {
	seen  int
	sides int // below (1), at (2), above (4) the bound of a comparison
}

var oneSided = regexp.MustCompile(`^readOnly|^revision\(cancun\)$|^storage\(|^(warm|cold)\(`)
var comparison = regexp.MustCompile(`^(gas|stack|balance\([a-z0-9]+\)|pc|param\d)(=|≠|<|≤|>|≥)(\d+)$`)

// boundaries: the test values of a condition are on both sides of its bounds.
func (r *ruleCheck) boundaries() {
	r.alone = make([]seenOutcomes, len(r.g.v))
	r.x.Parallel("boundaries of conditions", len(r.g.v), func(w *engine.Worker, i int) {
		c := r.g.v[i]
		if unordered(c.Name) {
			return
		}
		w.BeginNote(func() string { return c.Name })
		defer w.End()
		var o seenOutcomes
		sides := map[string]bool{}
		n := int64(0)
		r.guard("boundaries", c.Name, func() {
			rule := rlz.Rule{Name: "x", Condition: c.C}
			err := rule.EnumerateTestCases(rand.NewFromSource(ctgen.NewSource()), func(s *st.State) rlz.ConsumerResult {
				n++
				h, ok := c.Holds(s)
				if h && ok {
					o.seen |= 1
				} else {
					o.seen |= 2
				}
				for _, side := range side(c.Name, s) {
					sides[side] = true
				}
				return rlz.ConsumeContinue
			})
			if err != nil {
				r.report("boundaries", c.Name, "enumeration fails", "no error", err.Error())
			}
			for _, want := range wantedSides(c.Name) {
				if !sides[want] {
					r.report("boundaries", c.Name, "test value "+want, "covered", "missing")
				}
			}
			want := 3
			if oneSided.MatchString(c.Name) {
				want = 1
			}
			switch {
			case contradictory(c):
				if want &= 2; strings.HasPrefix(c.Name, "storage") {
					want = 0
				}
			case alwaysHolds(c.Name):
				want = 1
			}
			if o.seen&want != want {
				r.report("boundaries", c.Name, "test values", "the condition holds for some and fails for others", fmt.Sprint("outcomes ", o.seen, " of ", want))
			}
		})
		r.alone[i] = o
		w.Count(n, n, n)
	})
}

// unordered: test values for addresses are declared as not implemented.
func unordered(name string) bool { return strings.HasPrefix(name, "self=") }

func alwaysHolds(name string) bool { return name == "isCode[0]" }

// pairs: conditions on different parts of the state are varied independently.
func (r *ruleCheck) pairs() {
	var sets [][2]int
	for i := range r.g.v {
		for j := i + 1; j < len(r.g.v); j++ {
			if unordered(r.g.v[i].Name) || unordered(r.g.v[j].Name) {
				continue
			}
			sets = append(sets, [2]int{i, j})
		}
	}
	r.x.Parallel("pairs of conditions", len(sets), func(w *engine.Worker, i int) {
		a, b := r.g.v[sets[i][0]], r.g.v[sets[i][1]]
		name := a.Name + " ∧ " + b.Name
		w.BeginNote(func() string { return name })
		defer w.End()
		r.guard("pairs", name, func() {
			cond := rlz.And(a.C, b.C)
			p := newProduct(cond)
			want, err := p.satisfiable(w, name, rand.NewFromSource(ctgen.NewSource()))
			if err != nil {
				r.report("pairs", name, "generator fails", "no error", err.Error())
			}
			seen, n := map[[2]bool]bool{}, 0
			rule := rlz.Rule{Name: "x", Condition: cond}
			err = rule.EnumerateTestCases(rand.NewFromSource(ctgen.NewSource()), func(s *st.State) rlz.ConsumerResult {
				n++
				ha, oka := a.Holds(s)
				hb, okb := b.Holds(s)
				seen[[2]bool{ha && oka, hb && okb}] = true
				return rlz.ConsumeContinue
			})
			if err != nil {
				r.report("pairs", name, "enumeration fails", "no error", err.Error())
			}
			if !p.agrees(w, name, n, want) {
				r.report("pairs", name, "number of test cases", fmt.Sprint(want), fmt.Sprint(n))
			}
			if r.independent(sets[i][0], sets[i][1]) {
				for _, x := range []bool{true, false} {
					for _, y := range []bool{true, false} {
						if r.sees(sets[i][0], x) && r.sees(sets[i][1], y) && !seen[[2]bool{x, y}] {
							r.report("pairs", name, fmt.Sprint("outcomes ", x, " and ", y), "covered", "missing")
						}
					}
				}
			}
			w.Count(int64(want), int64(n), int64(n+want))
		})
	})
}

func (r *ruleCheck) sees(i int, holds bool) bool {
	if holds {
		return r.alone[i].seen&1 != 0
	}
	return r.alone[i].seen&2 != 0
}

func (r *ruleCheck) independent(i, j int) bool {
	for p := range r.g.parts[i] {
		if r.g.parts[j][p] {
			return false
		}
	}
	return true
}

// ---- the rules of the specification

func (r *ruleCheck) specification() {
	order := make([]int, len(r.rules))
	size := make([]int, len(r.rules))
	for i := range order {
		order[i] = i
		info := r.rules[i].GetTestCaseEnumerationInfo()
		size[i] = info.TotalNumberOfCases()
	}
	sort.SliceStable(order, func(i, j int) bool { return size[order[i]] > size[order[j]] })
	brute := 4
	lock := 24
	if r.x.Thorough() {
		brute, lock = 600, 1<<30
	}
	r.x.Parallel("rules of the specification", len(order), func(w *engine.Worker, i int) {
		orig := r.rules[order[i]]
		w.BeginNote(func() string { return orig.Name })
		defer w.End()
		r.guard("rules", orig.Name, func() { r.rule(w, orig, brute, lock) })
	})
}

func (r *ruleCheck) rule(w *engine.Worker, orig rlz.Rule, brute, lock int) {
	rule := rlz.Rule{Name: orig.Name, Condition: orig.Condition}
	p := newProduct(rule.Condition)
	want, err := p.satisfiable(w, orig.Name, rand.NewFromSource(ctgen.NewSource()))
	if err != nil {
		r.report("rules", orig.Name, "generator fails", "no error", err.Error())
	}
	total := p.total
	for _, p := range orig.Parameter {
		total *= len(p.Samples()) + 1
	}
	info := orig.GetTestCaseEnumerationInfo()
	if info.TotalNumberOfCases() != total {
		r.report("rules", orig.Name, "total number of cases", fmt.Sprint(total), fmt.Sprint(info.TotalNumberOfCases()))
	}
	// a second enumeration running in lockstep must yield the same states
	again := make(chan *st.State)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer close(again)
		second := rule
		second.EnumerateTestCases(rand.NewFromSource(ctgen.NewSource()), func(s *st.State) rlz.ConsumerResult {
			select {
			case again <- s.Clone():
				return rlz.ConsumeContinue
			case <-stop:
				return rlz.ConsumeAbort
			}
		})
	}()
	n, hit, stable, open := 0, 0, true, 0
	err = rule.EnumerateTestCases(rand.NewFromSource(ctgen.NewSource()), func(s *st.State) rlz.ConsumerResult {
		if n++; n%4096 == 0 {
			w.End()
			w.BeginNote(func() string { return orig.Name })
		}
		if n <= lock && stable {
			o := <-again
			if o == nil {
				stable = false
				r.report("rules", orig.Name, "second enumeration", "as many states", fmt.Sprint(n-1))
			} else {
				if d := same(s, o); d != "" {
					stable = false
					r.report("rules", orig.Name, "second enumeration with the same choices", "same states", fmt.Sprint("state ", n, ": ", d))
				}
				o.Release()
			}
		}
		ok, err := rule.Condition.Check(s)
		ok = ok && err == nil
		if ok {
			hit++
		}
		var before *st.State
		if n <= brute {
			before = s.Clone()
		}
		found := spc.Spec.GetRulesFor(s)
		if n <= brute {
			if d := same(before, s); d != "" {
				r.report("rules", orig.Name, "searching applicable rules", "does not modify the state", d)
			}
			before.Release()
		}
		self := false
		names := map[string]bool{}
		for _, f := range found {
			self = self || ruleKey(f) == ruleKey(orig)
			names[ruleKey(f)] = true
		}
		if self != ok {
			r.report("rules", orig.Name, "rules found for a state", fmt.Sprint("includes the rule: ", ok), fmt.Sprint(self, " ", brief(s)))
		}
		if n <= brute {
			want := map[string]bool{}
			for _, o := range r.rules {
				if ok, err := o.Condition.Check(s); ok && err == nil {
					want[ruleKey(o)] = true
				}
			}
			for name := range want {
				if !names[name] {
					r.report("rules", orig.Name, "applicable rules", "include "+name, fmt.Sprint(len(names), " others, ", brief(s)))
				}
			}
			for name := range names {
				if !want[name] {
					r.report("rules", orig.Name, "applicable rules", "do not include "+name, brief(s))
				}
			}
		}
		switch len(found) {
		case 1:
		case 0:
			open++ // the specification is documented to be incomplete; P26 judges gaps
		default:
			first := s.Clone()
			found[0].Effect.Apply(first)
			for _, f := range found[1:] {
				o := s.Clone()
				f.Effect.Apply(o)
				if !first.Eq(o) {
					r.report("rules", orig.Name, "rules applicable to the same state", "agree on the effect", found[0].Name+" and "+f.Name+" disagree")
				}
				o.Release()
			}
			first.Release()
		}
		if len(found) > 1 {
			r.mu.Lock()
			r.several++
			r.mu.Unlock()
		}
		return rlz.ConsumeContinue
	})
	if err != nil {
		r.report("rules", orig.Name, "enumeration fails", "no error", err.Error())
	}
	close(stop)
	for s := range again {
		s.Release()
	}
	wg.Wait()
	if !p.agrees(w, orig.Name, n, want) {
		r.report("rules", orig.Name, "number of test cases", fmt.Sprint(want), fmt.Sprint(n))
	}
	if hit == 0 {
		r.report("rules", orig.Name, "test cases", "at least one satisfies the condition of the rule", fmt.Sprint("none of ", n))
	}
	r.mu.Lock()
	r.open += open
	r.mu.Unlock()
	w.Count(int64(n), int64(n), int64(n+want))
}

func ruleKey(r rlz.Rule) string { return r.Name + ": " + r.Condition.String() }

// satisfying: states generated for the condition of a rule satisfy it.
func (r *ruleCheck) satisfying() {
	k, window := 1, 12
	if r.x.Thorough() {
		k, window = 1, 120
	}
	r.x.Parallel("states satisfying rules", len(r.rules), func(w *engine.Worker, i int) {
		rule := r.rules[i]
		w.BeginNote(func() string { return rule.Name })
		defer w.End()
		n, sat := int64(0), int64(0)
		r.guard("satisfying", rule.Name, func() {
			ctgen.Explore(k, window, func(src *ctgen.Source) bool {
				if n++; n%4096 == 0 {
					w.End()
					w.BeginNote(func() string { return rule.Name })
				}
				s, err := rule.GenerateSatisfyingState(rand.NewFromSource(src))
				if errors.Is(err, gen.ErrUnsatisfiable) && len(src.Devs()) > 0 && multiVar(rule) {
					return true
				}
				if err != nil {
					r.report("satisfying", rule.Name, "state for the rule", "generated", fmt.Sprint(err, " for choices ", src.Devs()))
					return false
				}
				sat++
				ok, err := rule.Condition.Check(s)
				if !ok || err != nil {
					r.report("satisfying", rule.Name, "state for the rule", "satisfies its condition", fmt.Sprint(ok, err, " for choices ", src.Devs()))
				}
				if b := ctgen.WellFormed(s); b != "" {
					r.report("satisfying", rule.Name, "state for the rule", "well-formed", b)
				}
				s.Release()
				return ok && err == nil
			})
		})
		w.Count(sat, n, n)
	})
	r.x.Extra("states_with_several_rules", r.several)
	r.x.Extra("states_without_rule", r.open)
}

// multiVar: the solver for positions in codes is documented to be incomplete
// for several variables.
func multiVar(rule rlz.Rule) bool { return strings.Contains(rule.Condition.String(), "isData[") }

// wantedSides lists the values of a comparison that have to be tested: one
// below, at, and above the bound, as far as the value exists.
func wantedSides(name string) []string {
	m := comparison.FindStringSubmatch(name)
	if m == nil {
		return nil
	}
	const maxU256 = "115792089237316195423570985008687907853269984665640564039457584007913129639935"
	lo, hi := m[3] == "0", false
	switch {
	case m[1] == "gas":
		hi = m[3] == "500000000000"
	case m[1] == "stack":
		hi = m[3] == "1024"
	case m[1] == "pc":
		hi = m[3] == "65535"
	default:
		hi = m[3] == maxU256
	}
	res := []string{"at"}
	if !lo {
		res = append(res, "below")
	}
	if !hi {
		res = append(res, "above")
	}
	return res
}

// side tells where the operand of a comparison lies in a state.
func side(name string, s *st.State) []string {
	m := comparison.FindStringSubmatch(name)
	if m == nil {
		return nil
	}
	bound := common.NewU256FromBytes(bytesOf(m[3])...)
	var v common.U256
	switch {
	case m[1] == "gas":
		v = common.NewU256(uint64(s.Gas))
	case m[1] == "stack":
		v = common.NewU256(uint64(s.Stack.Size()))
	case m[1] == "pc":
		v = common.NewU256(uint64(s.Pc))
	case m[1] == "balance(self)":
		v = s.Accounts.GetBalance(s.CallContext.AccountAddress)
	case strings.HasPrefix(m[1], "balance"):
		if s.Stack.Size() == 0 {
			return nil
		}
		v = s.Accounts.GetBalance(common.NewAddress(s.Stack.Get(0)))
	default:
		i := int(m[1][len(m[1])-1] - '0')
		if i >= s.Stack.Size() {
			return nil
		}
		v = s.Stack.Get(i)
	}
	one := common.NewU256(1)
	switch {
	case v == bound:
		return []string{"at"}
	case v == bound.Sub(one):
		return []string{"below"}
	case v == bound.Add(one):
		return []string{"above"}
	}
	return nil
}

func bytesOf(dec string) []byte {
	b, _ := new(big.Int).SetString(dec, 10)
	return b.FillBytes(make([]byte, 32))
}
