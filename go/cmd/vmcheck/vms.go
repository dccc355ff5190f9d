package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/engine"
)

var groups = map[string]func() []engine.VM{}

func registered(prefix string, skip ...string) (res []engine.VM) {
	var names []string
	for name := range tosca.GetAllRegisteredInterpreters() {
		names = append(names, name)
	}
	sort.Strings(names)
next:
	for _, n := range names {
		if n != prefix && !strings.HasPrefix(n, prefix+"-") {
			continue
		}
		for _, s := range skip {
			if strings.Contains(n, s) {
				continue next
			}
		}
		i, err := tosca.NewInterpreter(n)
		if err != nil {
			fatal("cannot load implementation %s: %v", n, err)
		}
		res = append(res, engine.VM{Name: n, I: i})
	}
	return
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func init() {
	// lfvm: the production configuration and the super-instruction one
	groups["lfvm"] = func() []engine.VM {
		return registered("lfvm", "logging", "stats", "no-")
	}
	groups["lfvm-all"] = func() []engine.VM { return registered("lfvm") }
}

func loadVMs(sel string) (res []engine.VM) {
	if err := lfvm.RegisterExperimentalInterpreterConfigurations(); err != nil {
		fatal("cannot load implementation: %v", err)
	}
	if sel == "" {
		return nil
	}
	if sel == "all" {
		sel = "lfvm-all,evmzero-all,evmrs-all"
	}
	for _, s := range strings.Split(sel, ",") {
		if g, ok := groups[s]; ok {
			res = append(res, g()...)
		}
	}
	return
}
