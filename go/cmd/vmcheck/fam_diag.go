package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
	"verif/ref"
)

func init() {
	checks["P14"] = check{"", runDiag}
}

// runDiag explores the diagnostic configurations in processes of their own, as
// they write to the standard output of the process.
func runDiag(x *engine.Explorer) {
	x.ExternalShards("diagnostics", engine.Pick(x, 300*time.Second, 800*time.Second), 8, os.Args[0], "-diag", x.Tier)
}

// names of the instructions
var opNames = func() (n [256]string) {
	set := func(from int, names string) {
		for i, s := range strings.Fields(names) {
			n[from+i] = s
		}
	}
	set(0x00, "STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND")
	set(0x10, "LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR")
	set(0x20, "SHA3")
	set(0x30, "ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH")
	set(0x40, "BLOCKHASH COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE BASEFEE BLOBHASH BLOBBASEFEE")
	set(0x50, "POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0")
	for i := 1; i <= 32; i++ {
		n[0x5f+i] = "PUSH" + strconv.Itoa(i)
	}
	for i := 1; i <= 16; i++ {
		n[0x7f+i] = "DUP" + strconv.Itoa(i)
		n[0x8f+i] = "SWAP" + strconv.Itoa(i)
	}
	set(0xa0, "LOG0 LOG1 LOG2 LOG3 LOG4")
	set(0xf0, "CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2")
	n[0xfa], n[0xfd], n[0xfe], n[0xff] = "STATICCALL", "REVERT", "INVALID", "SELFDESTRUCT"
	return
}()

// canonical unifies the different names of an instruction.
func canonical(s string) string {
	s = strings.ToUpper(s)
	switch s {
	case "KECCAK256":
		return "SHA3"
	case "DIFFICULTY":
		return "PREVRANDAO"
	}
	return s
}

// A diagStep is a step of the model.
type diagStep struct {
	name     string
	gas      int64
	top      string
	frame    int
	optional bool // may be absent from logs: implicit stops and undefined instructions
	target   bool // a jump destination reached by a jump
	fails    bool // the frame fails here
}

// A diagLine is a step of the implementation, as logged, with its frame.
type diagLine struct {
	name  string
	frame int
}

// capture is a file standing in for the standard output.
type capture struct {
	f   *os.File
	buf []byte
}

func newCapture() *capture {
	f, err := os.CreateTemp(os.Getenv("VERIF_LIBS"), "diag")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	w, err := os.OpenFile(fmt.Sprintf("/proc/self/fd/%d", f.Fd()), os.O_WRONLY|os.O_APPEND, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup2(int(w.Fd()), 1); err != nil {
		panic(err)
	}
	return &capture{f: f, buf: make([]byte, 1<<20)}
}

// take returns everything written since the last call.
func (c *capture) take() string {
	var res []byte
	for {
		n, _ := c.f.ReadAt(c.buf, int64(len(res)))
		if n == 0 {
			break
		}
		res = append(res, c.buf[:n]...)
	}
	if len(res) > 0 {
		c.f.Truncate(0)
	}
	return string(res)
}

type diagVM struct {
	engine.VM
	log, stats, prof, ext bool
	si                    bool
	logs                  string // name of the configuration logging what this one counts
	// expectations for profiles
	counts map[string][2]int64 // [min, max] of executions
	runs   int64
	hist   [4]map[string]int64
	steps  int64
}

type diag struct {
	out      *os.File
	cap      *capture
	vms      []*diagVM
	cases    int64
	steps    int64
	runs     int64
	reported map[string]int
	world    engine.World
}

func (d *diag) finding(vm, what string) {
	if d.reported[vm]++; d.reported[vm] > 3 {
		return
	}
	fmt.Fprintf(d.out, "FINDING diagnostics|%s: %s\n", vm, strings.ReplaceAll(what, "\n", "\\n"))
}

// nestedWorld runs the callee (code of the input's choice) on the same instance.
type diagWorld struct {
	*engine.World
	p   tosca.Parameters
	run func(tosca.Parameters) (tosca.Result, error)
}

func (n *diagWorld) Call(kind tosca.CallKind, c tosca.CallParameters) (tosca.CallResult, error) {
	if n.p.Depth >= 2 {
		return tosca.CallResult{GasLeft: c.Gas}, nil
	}
	d := *n
	d.p.Depth++
	d.p.Gas, d.p.Input, d.p.Context = c.Gas, c.Input, &d
	d.p.Static = d.p.Static || kind == tosca.StaticCall
	r, err := n.run(d.p)
	return tosca.CallResult{Output: bytes.Clone(r.Output), GasLeft: r.GasLeft, GasRefund: r.GasRefund, Success: r.Success}, err
}

func (d *diag) exec(c *engine.Case, run func(tosca.Parameters) (tosca.Result, error)) (o engine.Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = engine.Outcome{Err: fmt.Sprintf("panic: %v", r)}
		}
	}()
	d.world.Reset(c.World)
	p := c.Params(&d.world)
	n := &diagWorld{World: &d.world, p: p, run: run}
	p.Context, n.p.Context = n, n
	r, err := run(p)
	if err != nil {
		return engine.Outcome{Err: err.Error()}
	}
	return engine.Outcome{Success: r.Success, Out: bytes.Clone(r.Output), Gas: int64(r.GasLeft), Refund: int64(r.GasRefund),
		Journal: bytes.Clone(d.world.J), Access: bytes.Clone(d.world.A), Mut: d.world.Mut}
}

// model computes the steps of a case.
func (d *diag) model(c *engine.Case) (steps []diagStep, o engine.Outcome, failed bool) {
	frames := 0
	o = d.exec(c, func(p tosca.Parameters) (tosca.Result, error) {
		s := ref.New(&p)
		frame, last, jumped := frames, 0, false
		frames++
		s.OnStep = func(s *ref.State, op byte) {
			st := diagStep{name: opNames[op], gas: s.Gas, top: "-empty-", frame: frame}
			st.optional = s.PC >= uint64(len(p.Code)) || !ref.Defined(op, p.Revision)
			st.target = op == 0x5b && jumped
			jumped = op == 0x56 || op == 0x57 && len(s.Stack) > 1 && s.Stack[len(s.Stack)-2].Big().Sign() != 0
			if n := len(s.Stack); n > 0 {
				st.top = s.Stack[n-1].Big().String()
			}
			last = len(steps)
			steps = append(steps, st)
		}
		r := s.Run(1 << 20)
		failed = s.Status == ref.Failed
		steps[last].fails = failed
		return r, nil
	})
	return
}

// align compares a log with the steps of the model; fused jumps include the
// jump destination.
func align(log string, steps []diagStep, fused bool) (lines []diagLine, what string) {
	all := strings.Split(log, "\n")
	if all[len(all)-1] != "" {
		return nil, fmt.Sprintf("incomplete line %q", all[len(all)-1])
	}
	all = all[:len(all)-1]
	skip := func(i int) bool { return steps[i].optional || fused && steps[i].target }
	i := 0
	pads := 0
	for n, l := range all {
		f := strings.Split(l, ", ")
		if len(f) != 3 {
			return nil, fmt.Sprintf("line %d: unexpected %q", n, l)
		}
		name := canonical(f[0])
		if name == "NOOP" || name == "JUMP_TO" || name == "SKIPNOOPS" {
			// padding introduced by code conversions, which has no effect
			j := i
			for j < len(steps) && skip(j) && !(fmt.Sprint(steps[j].gas) == f[1] && steps[j].top == f[2]) {
				j++
			}
			if j < len(steps) && (fmt.Sprint(steps[j].gas) != f[1] || steps[j].top != f[2]) {
				return nil, fmt.Sprintf("line %d: got %q, but next is %s with gas %d and %s on the stack", n, l, steps[j].name, steps[j].gas, steps[j].top)
			}
			lines = append(lines, diagLine{f[0], -1})
			pads++
			continue
		}
		for i < len(steps) && skip(i) && !(fmt.Sprint(steps[i].gas) == f[1] && steps[i].top == f[2]) {
			i++
		}
		if i == len(steps) {
			return nil, fmt.Sprintf("line %d: got %q after the end of the execution", n, l)
		}
		frame := steps[i].frame
		if fmt.Sprint(steps[i].gas) != f[1] || steps[i].top != f[2] {
			return nil, fmt.Sprintf("line %d: got %q, want %s with gas %d and %s on the stack", n, l, steps[i].name, steps[i].gas, steps[i].top)
		}
		if steps[i].optional {
			i++
		} else {
			for k, part := range strings.Split(name, "_") {
				if k > 0 && steps[i-1].fails {
					break // a fused instruction fails as a whole
				}
				if i == len(steps) || steps[i].frame != frame || steps[i].name != part {
					return nil, fmt.Sprintf("line %d: got %q, but the model does not execute %s there", n, l, part)
				}
				i++
			}
		}
		for pads > 0 {
			lines[len(lines)-pads].frame = frame
			pads--
		}
		lines = append(lines, diagLine{f[0], frame})
	}
	for pads > 0 {
		lines[len(lines)-pads].frame = steps[len(steps)-1].frame
		pads--
	}
	for ; i < len(steps); i++ {
		if !skip(i) {
			return nil, fmt.Sprintf("nothing logged for step %d, %s with gas %d and %s on the stack", i, steps[i].name, steps[i].gas, steps[i].top)
		}
	}
	return
}

// one executes a case on all configurations; dump asks for the profiles
// accumulated since the last time.
func (d *diag) one(c *engine.Case, dump bool) {
	steps, want, failed := d.model(c)
	d.cases++
	d.steps += int64(len(steps))
	lines := map[string][]diagLine{}
	for _, vm := range d.vms {
		if vm.stats && lines[vm.logs] == nil {
			continue // nothing to compare with
		}
		d.cap.take()
		got := d.exec(c, vm.I.Run)
		d.runs++
		log := d.cap.take()
		describe := func() string {
			return fmt.Sprintf("code %x, revision %v, gas %d: ", c.Code, c.Rev, c.Gas)
		}
		if what := engine.Diff(&want, &got, failed); what != "" {
			d.finding(vm.Name, describe()+what+" in "+log)
			continue
		}
		if !vm.log && log != "" {
			d.finding(vm.Name, describe()+fmt.Sprintf("unexpected output %q", log))
		}
		if vm.log && strings.Contains(log, "does not support") {
			continue
		}
		if vm.log {
			l, what := align(log, steps, !strings.HasPrefix(vm.Name, "lfvm"))
			if what != "" {
				d.finding(vm.Name, describe()+what+" in "+log)
				continue
			}
			lines[vm.Name] = l
		}
		if vm.stats {
			vm.addStats(lines[vm.logs])
			if dump {
				vm.I.(tosca.ProfilingInterpreter).DumpProfile()
				out := d.cap.take()
				if what := vm.checkStats(out); what != "" {
					d.finding(vm.Name, describe()+what+" in "+out)
				}
				vm.I.(tosca.ProfilingInterpreter).ResetProfile()
				vm.reset()
			}
		}
		if vm.prof {
			vm.runs++
			for _, s := range steps {
				e := vm.counts[s.name]
				if !s.optional && !s.target {
					e[0]++
				}
				e[1]++
				vm.counts[s.name] = e
				if s.optional && s.name != "INVALID" && s.name != "STOP" {
					// undefined instructions may count as invalid
					e = vm.counts["INVALID"]
					e[1]++
					vm.counts["INVALID"] = e
				}
			}
			if dump {
				vm.I.(tosca.ProfilingInterpreter).DumpProfile()
				out := d.cap.take()
				if what := vm.checkProfile(out); what != "" {
					d.finding(vm.Name, describe()+what+" in "+out)
				}
				vm.I.(tosca.ProfilingInterpreter).ResetProfile()
				vm.reset()
			}
		}
	}
}

func (v *diagVM) reset() {
	v.counts = map[string][2]int64{}
	v.runs, v.steps = 0, 0
	for i := range v.hist {
		v.hist[i] = map[string]int64{}
	}
}

func (v *diagVM) addStats(lines []diagLine) {
	last := map[int][]string{}
	for _, l := range lines {
		v.steps++
		h := append(last[l.frame], l.name)
		if len(h) > 4 {
			h = h[1:]
		}
		last[l.frame] = h
		for n := 1; n <= len(h); n++ {
			v.hist[n-1][strings.Join(h[len(h)-n:], " ")]++
		}
	}
}

func (v *diagVM) checkStats(out string) string {
	section, listed, steps := -1, [4][]int64{}, int64(-1)
	seen := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Steps: "):
			steps, _ = strconv.ParseInt(t[7:], 10, 64)
			continue
		case t == "Singles:":
			section = 0
			continue
		case t == "Pairs:":
			section = 1
			continue
		case t == "Triples:":
			section = 2
			continue
		case t == "Quads:":
			section = 3
			continue
		case t == "" || strings.HasPrefix(t, "-----"):
			continue
		}
		f := strings.Split(t, ":")
		if section < 0 || len(f) != 2 {
			return fmt.Sprintf("unexpected line %q", l)
		}
		names := strings.Fields(f[0])
		key := strings.Join(names, " ")
		var n int64
		var percent float64
		if _, err := fmt.Sscanf(strings.TrimSpace(f[1]), "%d (%f%%)", &n, &percent); err != nil || len(names) != section+1 {
			return fmt.Sprintf("unexpected line %q", l)
		}
		if seen[key] {
			return fmt.Sprintf("%q repeated", key)
		}
		seen[key] = true
		if n != v.hist[section][key] {
			return fmt.Sprintf("%d times %q, want %d", n, key, v.hist[section][key])
		}
		if e := float64(n) * 100 / float64(v.steps); percent > e+0.0101 || percent < e-0.0101 {
			return fmt.Sprintf("%v percent %q, want %v", percent, key, e)
		}
		listed[section] = append(listed[section], n)
	}
	if steps != v.steps {
		return fmt.Sprintf("%d steps, want %d", steps, v.steps)
	}
	for s := range listed {
		var all []int64
		for _, n := range v.hist[s] {
			all = append(all, n)
		}
		sort.Slice(all, func(i, j int) bool { return all[i] > all[j] })
		all = all[:min(len(all), 5)]
		if fmt.Sprint(all) != fmt.Sprint(listed[s]) {
			return fmt.Sprintf("listed counts %v of sequences of length %d, want %v", listed[s], s+1, all)
		}
	}
	return ""
}

// instructions interacting with the host which external profiles have to list
var externalOps = "BALANCE EXTCODESIZE EXTCODECOPY EXTCODEHASH BLOCKHASH SELFBALANCE SLOAD SSTORE LOG0 LOG1 LOG2 LOG3 LOG4 CREATE CALL CALLCODE DELEGATECALL CREATE2 STATICCALL SELFDESTRUCT"

func (v *diagVM) checkProfile(out string) string {
	seen := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		f := strings.Split(l, ",")
		if len(f) != 4 || f[1] == "calls" {
			continue
		}
		calls, err := strconv.ParseInt(strings.TrimSpace(f[1]), 10, 64)
		if err != nil || calls < 0 {
			return fmt.Sprintf("unexpected line %q", l)
		}
		name := canonical(f[0])
		if seen[name] {
			return fmt.Sprintf("%s repeated", name)
		}
		seen[name] = true
		if calls == 0 && (strings.TrimSpace(f[2]) != "0" || strings.TrimSpace(f[3]) != "0") {
			return fmt.Sprintf("time spent in %s which was not executed", name)
		}
		if name == "INTERPRETER" {
			if calls != v.runs {
				return fmt.Sprintf("%d runs, want %d", calls, v.runs)
			}
			continue
		}
		if e := v.counts[name]; calls < e[0] || calls > e[1] {
			return fmt.Sprintf("%d times %s, want %d", calls, name, e[0])
		}
	}
	if !seen["INTERPRETER"] {
		return "no line for the interpreter"
	}
	for op := 0; op < 256; op++ {
		name := opNames[op]
		if name != "" && ref.Defined(byte(op), tosca.R13_Cancun) && !seen[name] && (!v.ext || strings.Contains(" "+externalOps+" ", " "+name+" ")) {
			return "no line for " + name
		}
		if v.ext && seen[name] && op < 0x20 {
			return "unexpected line for " + name
		}
	}
	return ""
}

// diagVariants are further logging variants.
var diagVariants = func() []engine.VM { return nil }

func diagVMs() (res []*diagVM) {
	all := append(loadVMs("lfvm-all,evmzero-all,evmrs-logging"), diagVariants()...)
	// what logs comes first
	for _, pass := range []bool{true, false} {
		for _, vm := range all {
			v := &diagVM{VM: vm, log: strings.Contains(vm.Name, "logging"), si: strings.Contains(vm.Name, "-si")}
			v.stats = strings.Contains(vm.Name, "stats")
			v.prof = strings.Contains(vm.Name, "profiling")
			v.ext = strings.Contains(vm.Name, "external")
			v.logs = strings.Replace(vm.Name, "-stats", "-logging", 1)
			if v.log == pass {
				v.reset()
				res = append(res, v)
			}
		}
	}
	return
}

// pin keeps all threads on one processor, as profiles compare its time stamps.
func pin(share int) {
	var mask [128]byte
	n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(mask)), uintptr(unsafe.Pointer(&mask)))
	if e != 0 {
		return
	}
	var cpus []int
	for i := 0; i < int(n)*8; i++ {
		if mask[i/8]&(1<<(i%8)) != 0 {
			cpus = append(cpus, i)
		}
	}
	if len(cpus) == 0 {
		return
	}
	cpu := cpus[share%len(cpus)]
	mask = [128]byte{}
	mask[cpu/8] = 1 << (cpu % 8)
	tasks, _ := os.ReadDir("/proc/self/task")
	for _, t := range tasks {
		if id, err := strconv.Atoi(t.Name()); err == nil {
			syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, uintptr(id), uintptr(len(mask)), uintptr(unsafe.Pointer(&mask)))
		}
	}
}

func diagMain(args []string) {
	tier := args[0]
	share, _ := strconv.Atoi(args[1])
	shares, _ := strconv.Atoi(args[2])
	pin(share)
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	d := &diag{out: os.NewFile(uintptr(fd), "out"), reported: map[string]int{}}
	d.cap = newCapture()
	d.vms = diagVMs()
	jump := []byte{0x60, 0, 0x56}
	tokens := [][]byte{
		{0x60, 7}, {0x61, 1, 2}, {0x63, 1, 2, 3, 4}, engine.Asm(0x7f, bytes.Repeat([]byte{0xab}, 32)), {0x5f},
		{0x01}, {0x10}, {0x15}, {0x16}, {0x1b}, {0x03}, {0x50}, {0x80}, {0x81}, {0x82}, {0x90}, {0x91},
		{0x52}, {0x51}, {0x20}, {0x54}, {0x55}, {0x5a}, {0x58}, {0x5b}, {0x00}, {0xf3}, {0xfd}, {0xfe}, {0x0c}, {0xa0}, {0xff}, {0x44}, {0x5d}, {0x31}, {0x40}, {0x3e},
		{0x90, 0x50}, {0x91, 0x90}, {0x91, 0x90, 0x50, 0x56}, {0x60, 1, 0x60, 1, 0x60, 4, 0x1b, 0x03},
		jump, {0x61, 0, 0, 0x56}, {0x60, 0, 0x57}, {0x15, 0x61, 0, 0, 0x57}, {0x50, 0x50}, {0x5b, 0x5b},
		{0x60, 32, 0x60, 0, 0x60, 4, 0x60, 0, 0x60, 0, 0x30, 0x60, 200, 0x5a, 0x03, 0xf1},
		{0x60, 1, 0x60, 0, 0x60, 4, 0x60, 0, 0x30, 0x61, 3, 0xe8, 0xfa}, {0x60, 0, 0x60, 0, 0x60, 0, 0xf0},
	}
	// the targets of the jumps are the last jump destination before the end
	build := func(prefix []byte, seq []int) []byte {
		code := bytes.Clone(prefix)
		var fix []int
		for _, t := range seq {
			tk := tokens[t]
			for i := 0; i+1 < len(tk); i++ {
				if tk[0] == 0x5b {
					break
				}
				if (tk[i+1] == 0x56 || tk[i+1] == 0x57) && tk[i] == 0 {
					fix = append(fix, len(code)+i)
				}
			}
			code = append(code, tk...)
		}
		dest := len(code)
		for _, f := range fix {
			code[f] = byte(dest)
		}
		return append(code, 0x5b, 0x5a)
	}
	prefixes := [][]byte{{}, engine.Asm(0x60, 3, 0x60, 1, 0x60, 0, 0x60, 2)}
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	end := time.Now().Add(280 * time.Second)
	if tier == "thorough" {
		end = time.Now().Add(750 * time.Second)
	}
	n := 0
	flip := false
	var rec func(seq []int, left int)
	rec = func(seq []int, left int) {
		if left > 0 {
			for t := range tokens {
				rec(append(seq[:len(seq):len(seq)], t), left-1)
			}
			return
		}
		if n++; n%shares != share || time.Now().After(end) {
			return
		}
		for _, p := range prefixes {
			code := build(p, seq)
			for _, rev := range []tosca.Revision{tosca.R09_Berlin, tosca.R13_Cancun} {
				c := &engine.Case{Rev: rev, Gas: 100_000, Code: code, World: &engine.StdWorld}
				flip = !flip
				d.one(c, flip)
				if len(seq) > 2 {
					continue
				}
				// every amount of gas making a difference
				steps, _, _ := d.model(c)
				seen := map[int64]bool{}
				for _, s := range steps {
					if s.frame == 0 {
						seen[100_000-s.gas-1], seen[100_000-s.gas] = true, true
					}
				}
				var gas []int64
				for g := range seen {
					if g >= 0 && g < 100_000 {
						gas = append(gas, g)
					}
				}
				sort.Slice(gas, func(i, j int) bool { return gas[i] < gas[j] })
				for _, g := range gas {
					c.Gas = g
					flip = !flip
					d.one(c, flip)
				}
			}
		}
	}
	for k := 1; k <= depth; k++ {
		rec(nil, k)
	}
	// every instruction, with stacks of different heights
	for op := 0; op < 256; op++ {
		if op%shares != share {
			continue
		}
		for h := 0; h <= 17; h++ {
			code := bytes.Repeat([]byte{0x60, 2}, h)
			code = append(code, byte(op), 0x5b, 0x5a)
			for _, rev := range []tosca.Revision{tosca.R09_Berlin, tosca.R13_Cancun} {
				flip = !flip
				d.one(&engine.Case{Rev: rev, Gas: 200_000, Code: code, World: &engine.StdWorld}, flip)
			}
		}
	}
	fmt.Fprintf(d.out, "COUNT programs on diagnostic configurations|%d|%d\n", d.cases, d.steps)
	fmt.Fprintf(d.out, "DONE\n")
}
