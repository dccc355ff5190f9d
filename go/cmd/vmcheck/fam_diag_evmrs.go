//go:build evmrs

package main

import (
	"strings"

	"github.com/Fantom-foundation/Tosca/go/interpreter/evmc"
	"verif/engine"
)

// evmrsLogging are the logging variants of evmrs.
func init() { diagVariants = evmrsLogging }

func evmrsLogging() (res []engine.VM) {
	for _, v := range evmrsVariants() {
		i := v.I.(*evmc.EvmcInterpreter)
		if err := i.SetOption("logging", "true"); err != nil {
			fatal("cannot configure %s: %v", v.Name, err)
		}
		res = append(res, engine.VM{Name: v.Name + "-logging", I: i})
	}
	for _, v := range evmrsVariants()[:1] { // and one with logging turned off again
		i := v.I.(*evmc.EvmcInterpreter)
		i.SetOption("logging", "true")
		i.SetOption("logging", "false")
		res = append(res, engine.VM{Name: strings.Replace(v.Name, "default", "silent", 1), I: i})
	}
	return
}
