//go:build evmrs

package main

import (
	"os"
	"path/filepath"
	"sort"

	"github.com/Fantom-foundation/Tosca/go/interpreter/evmc"
	_ "github.com/Fantom-foundation/Tosca/go/interpreter/evmrs"
	"verif/engine"
)

// evmrsVariants loads the libraries built with the different feature sets.
func evmrsVariants() (res []engine.VM) {
	libs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_LIBS"), "evmrs", "*", "libevmrs.so"))
	sort.Strings(libs)
	for _, l := range libs {
		i, err := evmc.LoadEvmcInterpreter(l)
		if err != nil {
			fatal("cannot load implementation %s: %v", l, err)
		}
		res = append(res, engine.VM{Name: "evmrs+" + filepath.Base(filepath.Dir(l)), I: i})
	}
	if len(res) == 0 {
		fatal("cannot load implementation evmrs: no variants found")
	}
	return
}

func init() {
	groups["evmrs"] = func() []engine.VM {
		for _, v := range evmrsVariants() {
			if v.Name == "evmrs+performance" {
				return append(registered("evmrs", "-"), v)
			}
		}
		return nil
	}
	groups["evmrs-all"] = func() []engine.VM { return evmrsVariants() }
	groups["evmrs-logging"] = func() []engine.VM { return registered("evmrs") }
}
