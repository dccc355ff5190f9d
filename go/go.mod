module verif

go 1.22.0

require (
	github.com/Fantom-foundation/Tosca v0.0.0
	github.com/ethereum/evmc/v11 v11.0.0
	github.com/ethereum/go-ethereum v1.14.8
	github.com/hashicorp/golang-lru/v2 v2.0.7
	github.com/holiman/uint256 v1.3.1
	go.uber.org/mock v0.4.0
	golang.org/x/crypto v0.22.0
	golang.org/x/exp v0.0.0-20231110203233-9a3e6036ecaa
	pgregory.net/rand v1.0.2
)

replace (
	github.com/Fantom-foundation/Tosca => /repo
	github.com/ethereum/evmc/v11 => ../shim/go/evmc
	github.com/ethereum/go-ethereum => ../shim/go/geth
	github.com/hashicorp/golang-lru/v2 => ../shim/go/lru
	github.com/holiman/uint256 => ../shim/go/uint256
	go.uber.org/mock => ../shim/go/gomock
	golang.org/x/crypto => ../shim/go/crypto
	golang.org/x/exp => ../shim/go/exp
	pgregory.net/rand => ../shim/go/rand
)
