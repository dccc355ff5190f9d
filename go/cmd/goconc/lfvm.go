package main

import (
	"encoding/binary"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	_ "github.com/Fantom-foundation/Tosca/go/processor/floria"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/proc"
)

// env is the private environment of an execution: nested calls execute callee.
type env struct {
	tosca.RunContext
	vm     tosca.Interpreter
	callee []byte
	hash   tosca.Hash
}

func (e *env) AccessAccount(tosca.Address) tosca.AccessStatus { return tosca.WarmAccess }
func (e *env) AccountExists(tosca.Address) bool               { return true }
func (e *env) GetBalance(tosca.Address) tosca.Value           { return tosca.Value{31: 9} }
func (e *env) Call(_ tosca.CallKind, c tosca.CallParameters) (tosca.CallResult, error) {
	r, err := e.vm.Run(tosca.Parameters{
		BlockParameters: tosca.BlockParameters{Revision: tosca.R10_London},
		Context:         e, Gas: c.Gas, Input: c.Input, Code: e.callee, CodeHash: &e.hash, Depth: 1,
	})
	return tosca.CallResult{Output: r.Output, GasLeft: r.GasLeft, GasRefund: r.GasRefund, Success: r.Success}, err
}

const kinds = 8

var kindNames = [kinds]string{"hash of a shared word", "hash of 64 shared bytes", "hash of a private word", "deep stack", "loop", "nested call of a hash", "jump into nowhere", "stack overflow"}

func push32(b []byte, v uint64) []byte {
	b = append(b, 0x7f)
	for i := 0; i < 24; i++ {
		b = append(b, byte(0xa0+i))
	}
	return binary.BigEndian.AppendUint64(b, v)
}

func program(kind int, nonce uint64) []byte {
	b := push32(nil, nonce)
	switch kind {
	case 0:
		b = append(b, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0x20)
	case 1:
		b = append(b, 0x60, 0, 0x52, 0x60, 5, 0x60, 32, 0x52, 0x60, 64, 0x60, 0, 0x20)
	case 2:
		b = append(b, 0x60, 0, 0x35, 0x18, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0x20)
	case 3:
		b = append(b, 0x60, 0, 0x35)
		for i := 0; i < 60; i++ {
			b = append(b, 0x80, 0x60, 1, 0x01)
		}
		for i := 0; i < 61; i++ {
			b = append(b, []byte{0x18, 0x01}[i%2])
		}
	case 4:
		b = append(b, 0x60, 0, 0x35, 0x60, 4)
		top := byte(len(b))
		b = append(b, 0x5b, 0x90, 0x60, 3, 0x02, 0x90, 0x60, 1, 0x90, 0x03, 0x80, 0x60, top, 0x57, 0x50, 0x01)
	case 5:
		b = append(b, 0x60, 0, 0x35, 0x60, 0, 0x52,
			0x60, 32, 0x60, 32, 0x60, 32, 0x60, 0, 0x60, 0, 0x60, 9, 0x61, 0x40, 0, 0xf1,
			0x60, 32, 0x51, 0x01, 0x60, 0, 0x51, 0x01, 0x01)
	case 6:
		b = append(b, 0x60, 0, 0x35, 0x56)
	default:
		top := byte(len(b))
		b = append(b, 0x5b, 0x60, 7, 0x60, top, 0x56)
	}
	return append(b, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3)
}

func hashFor(kind int, nonce uint64) (h tosca.Hash) {
	h[0] = byte(kind + 1)
	binary.BigEndian.PutUint64(h[8:], nonce)
	return
}

type job struct {
	kind   int
	nonce  uint64
	input  byte
	hashed bool
}

func (j job) run(vm tosca.Interpreter) string {
	h := hashFor(j.kind, j.nonce)
	p := tosca.Parameters{
		BlockParameters: tosca.BlockParameters{Revision: tosca.R10_London},
		Context:         &env{vm: vm, callee: program(2, j.nonce), hash: hashFor(2, j.nonce)},
		Gas:             100_000,
		Input:           tosca.Data{3: j.input, 31: j.input*17 + 3},
		Code:            program(j.kind, j.nonce),
	}
	if j.hashed {
		p.CodeHash = &h
	}
	r, err := vm.Run(p)
	return fmt.Sprintf("success=%v output=%x gas=%d refund=%d err=%v", r.Success, r.Output, r.GasLeft, r.GasRefund, err)
}

func lfvmScenarios(e *explorer) {
	must := func(name string) tosca.Interpreter {
		vm, err := tosca.NewInterpreter(name)
		if err != nil {
			panic(err)
		}
		return vm
	}
	if err := lfvm.RegisterExperimentalInterpreterConfigurations(); err != nil {
		panic(err)
	}
	plain := must("lfvm-no-code-cache")
	nonce := uint64(0)
	run := func(name string, vm tosca.Interpreter, progs [][]int, warm, same, hashed bool, bound int) {
		var jobs [][]job
		var got [][]string
		title := map[bool]string{true: "warm caches", false: "cold caches"}[warm] + map[bool]string{true: ", same codes", false: ", different codes"}[same]
		for t, p := range progs {
			if t > 0 {
				title += " ||"
			} else {
				title += ","
			}
			for _, k := range p {
				title += " " + kindNames[k] + ";"
			}
		}
		e.explore(name, title, bound, func() []func() {
			nonce += 16
			jobs, got = nil, nil
			var bodies []func()
			input := byte(0)
			for t, p := range progs {
				var js []job
				for _, k := range p {
					j := job{k, nonce, input, hashed}
					if !same {
						j.nonce += uint64(t)
					}
					input++
					js = append(js, j)
				}
				jobs = append(jobs, js)
				got = append(got, make([]string, len(js)))
			}
			if warm {
				for _, js := range jobs {
					for _, j := range js {
						j.run(vm)
					}
				}
			}
			for t := range jobs {
				js, res := jobs[t], got[t]
				bodies = append(bodies, func() {
					for i, j := range js {
						res[i] = j.run(vm)
					}
				})
			}
			return bodies
		}, func() string {
			for t := range jobs {
				for i, j := range jobs[t] {
					want := j.run(plain)
					if got[t][i] != want {
						return fmt.Sprintf("execution %d of thread %d ended with %s, alone it ends with %s", i, t, got[t][i], want)
					}
					if again := j.run(vm); again != want {
						return fmt.Sprintf("execution %d of thread %d repeated afterwards ends with %s, alone it ends with %s", i, t, again, want)
					}
				}
			}
			return ""
		})
	}
	vms := []string{"lfvm", "lfvm-si", "lfvm-stats", "lfvm-si-no-sha-cache", "lfvm-no-code-cache"}
	for i, name := range vms {
		vm := must(name)
		bound := 2
		if e.thorough {
			bound = 3
		}
		for _, warm := range []bool{false, true} {
			for _, same := range []bool{true, false} {
				if i > 2 && (warm || !same) {
					continue
				}
				for a := 0; a < kinds; a++ {
					for b := a; b < kinds; b++ {
						run(name+" 2 executions", vm, [][]int{{a}, {b}}, warm, same, true, bound)
					}
				}
			}
		}
		for a := 0; a < kinds; a++ {
			run(name+" 2 executions", vm, [][]int{{a}, {a}}, false, true, false, bound)
		}
		if i > 2 {
			continue
		}
		for a := 0; a < kinds; a++ {
			for b := 0; b < kinds; b++ {
				run(name+" 2 x 2 executions", vm, [][]int{{a, b}, {b, a}}, false, true, true, bound-1)
			}
		}
		for a := 0; a < kinds; a++ {
			for b := a; b < kinds; b++ {
				for c := b; c < kinds; c++ {
					if !e.thorough && a != b && b != c {
						continue
					}
					run(name+" 3 executions", vm, [][]int{{a}, {b}, {c}}, false, true, true, bound-1)
				}
			}
		}
	}
	floriaScenarios(e, must("lfvm"))
}

// floriaScenarios runs transactions on independent worlds concurrently.
func floriaScenarios(e *explorer, vm tosca.Interpreter) {
	p := tosca.GetProcessorFactory("floria")(vm)
	sender, target := tosca.Address{19: 0xa1}, tosca.Address{19: 0xa2}
	codes := [][]byte{
		append(push32(nil, 77), 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0x20, 0x60, 1, 0x55, 0x60, 1, 0x54, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3), // hash and store
		{0x60, 32, 0x60, 0, 0x60, 4, 0x60, 0, 0x60, 0, 0x60, 2, 0x61, 0xff, 0xff, 0xf1, 0x60, 32, 0x60, 0, 0xf3},                              // sha256 precompiled
		{0x60, 5, 0x60, 0, 0x60, 0, 0xf0, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3},                                                             // create
		{0x60, 0, 0x60, 0, 0xfd},
		{0x60, 1, 0x60, 2, 0x60, 0, 0x60, 0, 0xa1, 0x30, 0xff}, // log and self destruct
	}
	var got [8]string
	exec := func(code []byte, limit tosca.Gas) string {
		w := &proc.World{}
		w.SetBalance(sender, tosca.NewValue(1_000_000_000))
		w.SetCode(target, code)
		w.SetNonce(target, 1)
		r, err := p.Run(proc.StdBlock(tosca.R13_Cancun), tosca.Transaction{Sender: sender, Recipient: &target, GasLimit: limit, GasPrice: tosca.NewValue(2), Value: tosca.NewValue(5)}, w)
		return fmt.Sprintf("%+v %v %v", r, err, w.Digest(true, nil))
	}
	for a := range codes {
		for b := a; b < len(codes); b++ {
			for _, limit := range []tosca.Gas{200_000, 22_000} {
				e.explore("floria transactions", fmt.Sprintf("codes %d and %d, gas limit %d", a, b, limit), 2, func() []func() {
					return []func(){
						func() { got[0] = exec(codes[a], limit) },
						func() { got[1] = exec(codes[b], limit) },
					}
				}, func() string {
					for i, c := range [][]byte{codes[a], codes[b]} {
						if want := exec(c, limit); got[i] != want {
							return fmt.Sprintf("transaction %d: got %s, alone %s", i, got[i], want)
						}
					}
					return ""
				})
			}
		}
	}
}
