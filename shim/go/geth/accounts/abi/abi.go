// Package abi is a minimal offline stand-in for go-ethereum/accounts/abi: it
// parses the ABI JSON far enough to compute method selectors.
package abi

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
)

type Argument struct {
	Name string `json:"name"`
	Type string `json:"type"`
}

type Method struct {
	Name   string
	Sig    string
	ID     []byte
	Inputs []Argument
}

type ABI struct {
	Methods map[string]Method
}

func JSON(reader io.Reader) (ABI, error) {
	var fields []struct {
		Type   string     `json:"type"`
		Name   string     `json:"name"`
		Inputs []Argument `json:"inputs"`
	}
	if err := json.NewDecoder(reader).Decode(&fields); err != nil {
		return ABI{}, err
	}
	res := ABI{Methods: map[string]Method{}}
	for _, f := range fields {
		if f.Type != "function" {
			continue
		}
		types := make([]string, 0, len(f.Inputs))
		for _, in := range f.Inputs {
			types = append(types, in.Type)
		}
		sig := f.Name + "(" + strings.Join(types, ",") + ")"
		res.Methods[f.Name] = Method{Name: f.Name, Sig: sig, ID: crypto.Keccak256([]byte(sig))[:4], Inputs: f.Inputs}
	}
	return res, nil
}
