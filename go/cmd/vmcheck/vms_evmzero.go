//go:build evmzero

package main

import (
	_ "github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
	"verif/engine"
)

func init() {
	groups["evmzero"] = func() []engine.VM { return registered("evmzero", "-") }
	groups["evmzero-all"] = func() []engine.VM { return registered("evmzero") }
}
