package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/vsync"
)

// A made up implementation, identified by its number.
type impl struct {
	tosca.Interpreter
	id int
}

type procImpl struct {
	tosca.Processor
	id int
}

type ops struct {
	kind     string
	register func(name string, id int) bool // id < 0: nil
	variants int                            // ways of registering
	get      func(way int, name string) int // -1: unknown, -2: constructor error
	ways     int
	all      func() map[string]int // and damages the result
}

var errConfig = errors.New("bad configuration")

// guarded reports whether f completed without a panic.
func guarded(f func()) (ok bool) {
	defer func() { ok = recover() == nil }()
	f()
	return
}

type config struct{ tag int }

func interpreterFactory(id int) tosca.InterpreterFactory {
	if id < 0 {
		return nil
	}
	return func(c any) (tosca.Interpreter, error) {
		if c, ok := c.(*config); ok {
			if c.tag == 7 {
				return nil, errConfig
			}
			c.tag += id
		} else if c != nil {
			return nil, fmt.Errorf("unexpected configuration %v", c)
		}
		return &impl{id: id}, nil
	}
}

func idOf(x any) int {
	if x == nil {
		return -1
	}
	return x.(*impl).id
}

var interpreterOps = ops{
	kind: "interpreter registry", variants: 3, ways: 6,
	register: nil,
	get: func(way int, name string) int {
		switch way {
		case 0:
			return idOf(tosca.GetInterpreter(name))
		case 1:
			f := tosca.GetInterpreterFactory(name)
			if f == nil {
				return -1
			}
			v, err := f(nil)
			if err != nil {
				return -3
			}
			return idOf(v)
		case 2:
			v, err := tosca.NewInterpreter(name)
			if err != nil {
				return -1
			}
			return idOf(v)
		case 3: // the configuration is handed over
			c := &config{tag: 100}
			v, err := tosca.NewInterpreter(name, c)
			if err != nil {
				return -1
			}
			if c.tag != 100+v.(*impl).id && v.(*impl).id < 50 {
				return -4
			}
			return idOf(v)
		case 4: // too many arguments
			v, err := tosca.NewInterpreter(name, nil, nil)
			if err != nil && v == nil {
				return -5
			}
			return -6
		default: // errors of the factory are passed on
			v, err := tosca.NewInterpreter(name, &config{tag: 7})
			if err == errConfig && v == nil {
				return -7
			}
			if err != nil && v == nil {
				return -1
			}
			return idOf(v)
		}
	},
	all: func() map[string]int {
		m := tosca.GetAllRegisteredInterpreters()
		r := map[string]int{}
		for k, f := range m {
			if strings.HasPrefix(k, "x") {
				r[k] = -2
				if v, err := f(nil); err == nil {
					r[k] = idOf(v)
				}
			}
		}
		for k := range m {
			m[k] = interpreterFactory(99)
		}
		m["xforeign"] = interpreterFactory(98)
		return r
	},
}

// register in different ways; those by instance have ids from 50 on.
func registerInterpreter(way int, name string, id int) (bool, int) {
	switch way {
	case 0:
		return tosca.RegisterInterpreterFactory(name, interpreterFactory(id)) == nil, id
	case 1:
		return guarded(func() { tosca.MustRegisterInterpreterFactory(name, interpreterFactory(id)) }), id
	default:
		if id < 0 {
			return false, id
		}
		return guarded(func() { tosca.RegisterInterpreter(name, &impl{id: id + 50}) }), id + 50
	}
}

var processorOps = ops{
	kind: "processor registry", variants: 1, ways: 2,
	get: func(way int, name string) int {
		in := &impl{id: 5}
		if way == 0 {
			if p := tosca.GetProcessor(name, in); p != nil {
				return p.(*procImpl).id
			}
			return -1
		}
		f := tosca.GetProcessorFactory(name)
		if f == nil {
			return -1
		}
		return f(in).(*procImpl).id
	},
	all: func() map[string]int {
		m := tosca.GetAllRegisteredProcessorFactories()
		r := map[string]int{}
		for k, f := range m {
			if strings.HasPrefix(k, "x") {
				r[k] = f(&impl{id: 5}).(*procImpl).id
			}
		}
		for k := range m {
			m[k] = nil
		}
		m["xforeign"] = nil
		return r
	},
}

func registerProcessor(_ int, name string, id int) (bool, int) {
	var f tosca.ProcessorFactory
	if id >= 0 {
		f = func(i tosca.Interpreter) tosca.Processor {
			if i == nil || i.(*impl).id != 5 {
				return &procImpl{id: 97}
			}
			return &procImpl{id: id}
		}
	}
	return guarded(func() { tosca.RegisterProcessorFactory(name, f) }), id
}

// An operation on a registry; names are completed by the history's own prefix.
type regOp struct {
	what byte // 'r'egister, 'g'et, 'a'll
	way  int
	name string
	id   int
}

func (o regOp) String() string {
	switch o.what {
	case 'r':
		return fmt.Sprintf("register(%d) %q=%d", o.way, o.name, o.id)
	case 'g':
		return fmt.Sprintf("get(%d) %q", o.way, o.name)
	}
	return "all"
}

func show(m map[string]int) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprint(k, "=", v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

type regModel map[string]int

func (m regModel) do(o regOp) string {
	key := strings.ToLower(o.name)
	switch o.what {
	case 'r':
		if _, found := m[key]; found || o.id < 0 {
			return "false"
		}
		id := o.id
		if o.way == 2 {
			id += 50
		}
		m[key] = id
		return "true"
	case 'g':
		if o.way == 4 {
			return "-5"
		}
		id, found := m[key]
		if !found {
			return "-1"
		}
		if o.way == 5 && id < 50 {
			return "-7"
		}
		return fmt.Sprint(id)
	}
	return show(m)
}

type realReg struct {
	o      ops
	reg    func(way int, name string, id int) (bool, int)
	prefix string
}

func (r realReg) do(o regOp) string {
	switch o.what {
	case 'r':
		ok, _ := r.reg(o.way, r.prefix+o.name, o.id)
		return fmt.Sprint(ok)
	case 'g':
		return fmt.Sprint(r.o.get(o.way, r.prefix+o.name))
	}
	res := map[string]int{}
	for k, v := range r.o.all() {
		if n, ok := strings.CutPrefix(k, r.prefix); ok {
			res[n] = v
		} else if !strings.HasPrefix(k, "x0") { // of other histories
			res["foreign "+k] = v
		}
	}
	return show(res)
}

func registryScenarios(e *explorer) {
	prefixes := 0
	next := func() string { prefixes++; return fmt.Sprintf("x0%d-%d-", e.share, prefixes) }
	for _, k := range []struct {
		o   ops
		reg func(int, string, int) (bool, int)
	}{{interpreterOps, registerInterpreter}, {processorOps, registerProcessor}} {
		// all histories
		var al []regOp
		for _, n := range []string{"ab", "Ab", "aB-c", ""} {
			for w := 0; w < k.o.variants; w++ {
				al = append(al, regOp{'r', w, n, 1 + w})
			}
			for w := 0; w < k.o.ways; w++ {
				al = append(al, regOp{'g', w, n, 0})
			}
		}
		al = append(al, regOp{'r', 0, "ab", -1}, regOp{'r', 0, "AB-C", -1}, regOp{'r', 0, "AB", 4}, regOp{'r', 0, "AB-C", 3}, regOp{'g', 0, "AB", 0}, regOp{'a', 0, "", 0})
		depth := 3
		var hist []regOp
		var rec func()
		family := k.o.kind + " histories"
		e.schedules[family] += 0
		e.order = append(e.order, family)
		rec = func() {
			if len(hist) == depth {
				e.n++
				if (e.n-1)%e.shares != e.share || e.failed[family] > 3 {
					return
				}
				m, r := regModel{}, realReg{k.o, k.reg, next()}
				e.schedules[family]++
				var full []regOp
				full = append(full, hist...)
				if e.schedules[family]%16 == 0 { // the registry only grows
					full = append(full, regOp{'a', 0, "", 0})
				}
				for _, n := range []string{"ab", "AB-c", ""} {
					full = append(full, regOp{'g', 0, n, 0})
				}
				for i, o := range full {
					if want, got := m.do(o), r.do(o); want != got {
						e.failed[family]++
						fmt.Fprintf(vsync.Out, "FINDING %s|after %v, %v yields %s, want %s\n", family, full[:i], o, got, want)
						return
					}
				}
				return
			}
			for _, o := range al {
				hist = append(hist, o)
				rec()
				hist = hist[:len(hist)-1]
			}
		}
		rec()
		// interleavings: two or three threads of up to two operations
		small := []regOp{{'r', 0, "a", 1}, {'r', 0, "A", 2}, {'r', 0, "b", 3}, {'g', 0, "a", 0}, {'g', 1, "B", 0}, {'a', 0, "", 0}, {'r', 0, "a", -1}}
		if k.o.variants > 1 {
			small = append(small, regOp{'r', 1, "a", 4}, regOp{'r', 2, "A", 5}, regOp{'g', 2, "a", 0}, regOp{'g', 3, "a", 0})
		}
		bound := 3
		if e.thorough {
			bound = 5
		}
		run := func(progs [][]regOp) {
			var got [][]string
			var prefix string
			e.explore(k.o.kind+" interleavings", fmt.Sprint(progs), bound, func() []func() {
				prefix = next()
				r := realReg{k.o, k.reg, prefix}
				got = nil
				var bodies []func()
				for _, p := range progs {
					res := make([]string, len(p))
					got = append(got, res)
					bodies = append(bodies, func() {
						for i, o := range p {
							res[i] = r.do(o)
						}
					})
				}
				return bodies
			}, func() string {
				final := []regOp{{'g', 0, "a", 0}, {'g', 0, "b", 0}}
				var end []string
				for _, o := range final {
					end = append(end, realReg{k.o, k.reg, prefix}.do(o))
				}
				if !serial(progs, got, final, end) {
					return fmt.Sprintf("%v yields %v and finally %v, which no order of the operations does", progs, got, end)
				}
				return ""
			})
		}
		plain := small[:5] // lookups of everything get slower with each history
		if e.thorough {
			plain = append(append([]regOp{}, plain...), small[6:]...)
		}
		for i, a := range small {
			for j, b := range small[i:] {
				run([][]regOp{{a}, {b}})
				for _, c := range small[i+j:] {
					if a.what != 'a' && b.what != 'a' && c.what != 'a' || e.thorough {
						run([][]regOp{{a}, {b}, {c}})
					}
				}
			}
		}
		for i, a := range plain {
			for j, b := range plain {
				for k, c := range plain {
					for l, d := range plain {
						if i*len(plain)+j <= k*len(plain)+l {
							run([][]regOp{{a, b}, {c, d}})
						}
					}
				}
			}
		}
	}
	// the experimental configurations become available together, under distinct names
	e.explore("built-in registrations", "lfvm configurations registered while others are looked up", 2, func() []func() {
		return []func(){func() { registered = append(registered, lfvm.RegisterExperimentalInterpreterConfigurations()) }, func() {
			for _, n := range []string{"lfvm", "LFVM", "floria"} {
				if n == "floria" && tosca.GetProcessor(n, tosca.GetInterpreter("lfvm")) == nil || n != "floria" && tosca.GetInterpreter(n) == nil {
					panic(n + " is not available")
				}
			}
		}}
	}, func() string {
		for i, err := range registered {
			if (err == nil) != (i == 0) {
				return fmt.Sprintf("registration %d ended with %v", i, err)
			}
		}
		for _, si := range []string{"", "-si"} {
			for _, sha := range []string{"", "-no-sha-cache"} {
				for _, mode := range []string{"", "-stats", "-logging"} {
					if tosca.GetInterpreter("Lfvm"+strings.ToUpper(si)+sha+mode) == nil {
						return "lfvm" + si + sha + mode + " is not available"
					}
				}
			}
		}
		if tosca.GetInterpreter("lfvm-no-code-cache") == nil || tosca.GetInterpreter("lfvm-") != nil {
			return "wrong set of configurations"
		}
		return ""
	})
}

var registered []error

// serial reports whether some order of the operations explains the results.
func serial(progs [][]regOp, got [][]string, final []regOp, end []string) bool {
	pos := make([]int, len(progs))
	var rec func(m regModel) bool
	rec = func(m regModel) bool {
		rest := false
		for t, p := range progs {
			if pos[t] == len(p) {
				continue
			}
			rest = true
			c := regModel{}
			for k, v := range m {
				c[k] = v
			}
			if c.do(p[pos[t]]) == got[t][pos[t]] {
				pos[t]++
				ok := rec(c)
				pos[t]--
				if ok {
					return true
				}
			}
		}
		if rest {
			return false
		}
		for i, o := range final {
			if m.do(o) != end[i] {
				return false
			}
		}
		return true
	}
	return rec(regModel{})
}
