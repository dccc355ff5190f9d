module github.com/ethereum/go-ethereum

go 1.22

require (
	github.com/holiman/uint256 v1.3.1
	golang.org/x/crypto v0.22.0
)
