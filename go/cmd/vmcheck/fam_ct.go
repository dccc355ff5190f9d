package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/Fantom-foundation/Tosca/go/ct"
	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/ct/utils"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmc"
	evmrsct "github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"
	evmzeroct "github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P12"] = check{"", runSteps}
	checks["P26"] = check{"", runSpec}
}

type stepper struct {
	name string
	evm  ct.Evm
}

// rawStepper drives a specific library through the adapter's conversion.
type rawStepper struct {
	i *evmc.SteppableEvmcInterpreter
}

func (r rawStepper) StepN(s *st.State, n int) (*st.State, error) {
	if s.Status != st.Running {
		return s, nil
	}
	return r.i.StepN(utils.ToVmParameters(s), s, n)
}

func steppers() (res []stepper) {
	res = append(res, stepper{"lfvm", lfvm.NewConformanceTestingTarget()},
		stepper{"evmzero", evmzeroct.NewConformanceTestingTarget()},
		stepper{"evmrs", evmrsct.NewConformanceTestingTarget()})
	libs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_LIBS"), "evmrs", "*", "libevmrs.so"))
	sort.Strings(libs)
	for _, l := range libs {
		if strings.Contains(l, "/default/") {
			continue
		}
		i, err := evmc.LoadSteppableEvmcInterpreter(l)
		if err != nil {
			fatal("cannot load implementation %s: %v", l, err)
		}
		res = append(res, stepper{"evmrs+" + filepath.Base(filepath.Dir(l)), rawStepper{i}})
	}
	return
}

func stepOne(sp stepper, s *st.State, n int) (res *st.State, what string) {
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v", r)
		}
	}()
	c := s.Clone()
	g, err := sp.evm.StepN(c, n)
	if err != nil {
		return nil, "error: " + err.Error()
	}
	return g, ""
}

// checkStep compares n steps from s with the expected state. Up to n
// instructions are to be executed: an implementation that pads its code in front
// of jump destinations may spend one of the steps on the padding, which makes the states in
// alt acceptable for it.
func checkStep(w *engine.Worker, sps []stepper, s, want *st.State, n int, alt ...*st.State) {
	for _, sp := range sps {
		got, what := stepOne(sp, s, n)
		w.Count(0, 0, 1)
		ok := what == "" && ctEqual(got, want)
		for _, a := range alt {
			ok = ok || what == "" && ctEqual(got, a)
		}
		if what == "" && !ok {
			what = fmt.Sprintf("state after %d steps differs: %v", n, want.Diff(got))
		}
		if what != "" {
			ctReport(w.X, sp.name, w.Family, what, s, want, got, n)
		}
		if got != nil {
			got.Release()
		}
	}
}

// ctEqual is a comparison of its own: the equality of the states under test is
// itself subject of another property.
func ctEqual(a, b *st.State) bool {
	if a.Status != b.Status {
		return false
	}
	if a.Status == st.Failed {
		return true
	}
	if a.Gas != b.Gas || a.GasRefund != b.GasRefund || a.HasSelfDestructed != b.HasSelfDestructed || a.Revision != b.Revision || a.ReadOnly != b.ReadOnly ||
		a.CallContext != b.CallContext || a.BlockContext != b.BlockContext || a.CallData != b.CallData {
		return false
	}
	if fmt.Sprint(a.SelfDestructedJournal) != fmt.Sprint(b.SelfDestructedJournal) || len(a.Storage.Diff(b.Storage)) > 0 || !a.TransientStorage.Eq(b.TransientStorage) ||
		len(a.Accounts.Diff(b.Accounts)) > 0 || len(a.Logs.Diff(b.Logs)) > 0 || len(a.CallJournal.Diff(b.CallJournal)) > 0 {
		return false
	}
	if a.Status != st.Running {
		return a.ReturnData.String() == b.ReturnData.String()
	}
	if n := a.Code.Length(); !(a.Pc == b.Pc || int(a.Pc) >= n && int(b.Pc) >= n) {
		return false
	}
	if a.Stack.Size() != b.Stack.Size() || a.Memory.Size() != b.Memory.Size() || a.LastCallReturnData != b.LastCallReturnData {
		return false
	}
	for i := 0; i < a.Stack.Size(); i++ {
		if a.Stack.Get(i) != b.Stack.Get(i) {
			return false
		}
	}
	return string(a.Memory.Read(0, uint64(a.Memory.Size()))) == string(b.Memory.Read(0, uint64(b.Memory.Size())))
}

func runSteps(x *engine.Explorer) {
	sps := steppers()
	for _, s := range sps {
		x.VMs = append(x.VMs, engine.VM{Name: s.name})
	}
	defer func() {
		var names []string
		for _, s := range sps {
			names = append(names, s.name)
		}
		x.Extra("implementations_stepped", names)
	}()
	// 1. every single step from every enumerated state
	x.Parallel("single-steps", 256, func(w *engine.Worker, i int) {
		k := 0
		ctEnumerate(byte(i), x.Thorough(), func(s *st.State) {
			if k++; !x.Thorough() && s.Stack.Size() < 1000 && k%3 != i%3 {
				return
			}
			w.Begin(s.Code.Copy())
			want := s.Clone()
			refStep(want, 1, nil)
			w.Count(1, 1, 0)
			checkStep(w, sps, s, want, 1)
			if (i == 0xf3 || i == 0xfd) && s.Status == st.Running { // data left over from an earlier end is replaced
				s.ReturnData = common.NewBytes([]byte{0xee, 0x1f, 0x00})
				checkStep(w, sps, s, want, 1)
			}
			want.Release()
			w.End()
		})
	})
	// 2. programs: every split of the execution at every position
	toks := stepTokens()
	depth := 2
	chain := func(w *engine.Worker, code []byte, rev tosca.Revision, warm, deep bool) {
		w.Begin(code)
		defer w.End()
		s := ctState(0, nil, 3, ctVariant{rev: rev, warm: warm, success: true, out: 40, cost: 100})
		s.Code = st.NewCode(code)
		s.Pc = 0
		s.CallJournal.Future = append(s.CallJournal.Future, s.CallJournal.Future...)
		states := []*st.State{s}
		for cur := s; cur.Status == st.Running && len(states) < 60; {
			next := cur.Clone()
			refStep(next, 1, nil)
			w.Count(1, 1, 0)
			states = append(states, next)
			cur = next
		}
		n := len(states) - 1
		dests := func(i int) int { // number of jump destinations in the first i steps
			c := 0
			for _, s := range states[:i] {
				if pc := int(s.Pc); pc < len(code) && code[pc] == 0x5b {
					c++
				}
			}
			return c
		}
		span := func(i, j int) {
			low := max(i+1, j-(dests(j)-dests(i)))
			if j-i < 2 {
				low = j
			}
			checkStep(w, sps, states[i], states[j], j-i, states[min(low, j):j]...)
		}
		for k := 0; k <= n; k++ {
			span(0, k) // from the start to everywhere
			if k > 0 && k < n {
				span(k, n) // from everywhere to the end
				span(k, k+1)
			}
		}
		if states[n].Status != st.Running {
			checkStep(w, sps, s, states[n], 2*n+5)
			checkStep(w, sps, states[n], states[n], 3)
			if n > 2 {
				checkStep(w, sps, states[n/2], states[n], 1000)
			}
		}
		if deep {
			for i := 1; i < n; i++ {
				for j := i + 2; j < n; j++ {
					span(i, j)
				}
			}
		}
		for _, s := range states {
			s.Release()
		}
	}
	seqs(x, "program-splits", toks, depth, func(w *engine.Worker, body []byte) {
		for _, rev := range []tosca.Revision{tosca.R07_Istanbul, tosca.R13_Cancun} {
			chain(w, body, rev, false, x.Thorough())
			chain(w, append(body, engine.RetTop(2)...), rev, true, x.Thorough())
		}
	})
	if x.Thorough() {
		seqs(x, "program-splits-3", toks[:24], 3, func(w *engine.Worker, body []byte) {
			chain(w, append(body, engine.RetTop(1)...), tosca.R13_Cancun, false, true)
		})
	}
	// 3. loops and control flow, with jumps in the middle of a step sequence
	progs := [][]byte{
		engine.Asm(0x60, 3, 0x5b, 0x60, 1, 0x90, 0x03, 0x80, 0x60, 2, 0x57, 0x00),
		engine.Asm(0x60, 6, 0x56, 0x61, 0x5b, 0x5b, 0x5b, 0x58, 0x60, 5, 0x52, 0x59, 0x5a, 0x00),
		engine.Asm(0x60, 0x0a, 0x80, 0x56, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x58, 0x50, 0x62, 1),
		engine.Asm(0x61, 0, 8, 0x56, 0x7f, 0x5b, 0x5b, 0x5b, 0x5b, 0x60, 1),
		engine.Asm(0x60, 1, 0x60, 12, 0x57, 0x60, 0x42, 0x60, 0, 0x52, 0x00, 0x5b, 0x5b, 0x60, 0, 0x80, 0xfd),
		engine.Asm(0x5f, 0x5b, 0x60, 4, 0x01, 0x80, 0x80, 0x52, 0x80, 0x60, 0x20, 0x11, 0x60, 1, 0x57),
		engine.Asm(0x60, 0x05, 0x58, 0x01, 0x56, 0x5b, 0x5b, 0x5b, 0x58, 0x58, 0x01),
	}
	x.Parallel("control-flow", len(progs)*nRevs, func(w *engine.Worker, i int) {
		for pad := 0; pad < 6; pad++ {
			chain(w, append(make([]byte, 0), append(progs[i/nRevs], make([]byte, pad)...)...), tosca.Revision(i%nRevs), false, true)
		}
	})
	x.Sample("PUSH1 1 PUSH1 0 SSTORE CALL ... : StepN(s,k) for all k; StepN(s_k,n-k); StepN(s_k,1)")
}

// stepTokens is one representative piece of code for every kind of instruction.
func stepTokens() (toks [][]byte) {
	for _, o := range []byte{0x01, 0x0a, 0x15, 0x08, 0x50, 0x80, 0x91, 0x58, 0x59, 0x5a, 0x5b, 0x3d, 0x60} {
		if o == 0x60 {
			toks = append(toks, []byte{0x60, 0x5b}, []byte{0x64, 1, 2, 3, 4, 5}, append([]byte{0x7f}, make([]byte, 32)...))
			continue
		}
		toks = append(toks, []byte{o})
	}
	for _, o := range []byte{0x20, 0x31, 0x35, 0x37, 0x3c, 0x3e, 0x3f, 0x40, 0x49, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5c, 0x5d, 0x5e, 0xa2, 0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa, 0xf3, 0xfd, 0xff} {
		all := sampleOps(o, 4)
		toks = append(toks, all[0], all[len(all)-1])
	}
	for _, o := range []byte{0x00, 0x0c, 0xfe, 0x56, 0x57, 0x5f, 0x30, 0x33, 0x36, 0x38, 0x47, 0x48} {
		toks = append(toks, []byte{o})
	}
	return
}

func runSpec(x *engine.Explorer) {
	rules := spc.Spec.GetRules()
	x.Extra("rules", len(rules))
	var used [256]map[string]int64
	var unspecified atomic.Int64
	// every enumerated state: some rule applies and all rules that apply agree
	// with the reference
	x.Parallel("rules-vs-reference", 256, func(w *engine.Worker, i int) {
		u, open := map[string]int64{}, int64(0)
		ctEnumerate(byte(i), x.Thorough(), func(s *st.State) {
			want := s.Clone()
			refStep(want, 1, nil)
			w.Count(1, 1, 0)
			apply := spc.Spec.GetRulesFor(s)
			if len(apply) == 0 && want.Status == st.Failed {
				// a shortage of gas alone has to be covered, other failing
				// states may be left open
				rich := s.Clone()
				rich.Gas = bigGas
				refStep(rich, 1, nil)
				jump := i == 0x57 // the rules only cover a shortage for valid targets
				if rich.Status == st.Failed || jump {
					open++
					rich.Release()
					want.Release()
					return
				}
				rich.Release()
			}
			if len(apply) == 0 {
				ctReport(x, "specification", w.Family, "no rule applies", s, want, nil, 1)
			}
			for _, r := range apply {
				u[r.Name]++
				got := s.Clone()
				before := s.Clone()
				what := ""
				func() {
					defer func() {
						if e := recover(); e != nil {
							what = fmt.Sprintf("rule %s panics: %v", r.Name, e)
						}
					}()
					r.Effect.Apply(got)
				}()
				w.Count(0, 0, 1)
				if what == "" && !ctEqual(got, want) {
					what = fmt.Sprintf("rule %s: %v", r.Name, want.Diff(got))
				}
				if what == "" && !ctEqual(before, s) {
					what = fmt.Sprintf("rule %s: applying the effect to a copy changed the original", r.Name)
				}
				if what != "" {
					ctReport(x, "specification", w.Family, what, s, want, got, 1)
				}
				got.Release()
				before.Release()
			}
			want.Release()
		})
		used[i] = u
		unspecified.Add(open)
	})
	// every rule is reached, and the lookup by opcode finds every rule whose
	// condition holds
	x.Parallel("rule-lookup", 256, func(w *engine.Worker, i int) {
		n := 0
		ctEnumerate(byte(i), false, func(s *st.State) {
			if n++; n%engine.Pick(x, 61, 7) != 0 {
				return
			}
			found := map[string]bool{}
			for _, r := range spc.Spec.GetRulesFor(s) {
				found[r.Name] = true
			}
			w.Count(1, 0, 1)
			for _, r := range rules {
				ok, err := r.Condition.Check(s)
				if err == nil && ok && !found[r.Name] {
					ctReport(x, "specification", w.Family, "rule "+r.Name+" applies but is not found", s, nil, nil, 1)
				}
			}
		})
	})
	all := map[string]int64{}
	for _, u := range used {
		for k, v := range u {
			all[k] += v
		}
	}
	var missed []string
	for _, r := range rules {
		if all[r.Name] == 0 {
			missed = append(missed, r.Name)
		}
	}
	sort.Strings(missed)
	x.Extra("failing_states_left_open_by_the_rules", unspecified.Load())
	x.Extra("rules_reached", len(all))
	x.Extra("rules_not_reached", missed)
	_ = rlz.ConsumeContinue
	_ = ref.Running
}
