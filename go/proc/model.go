package proc

import (
	"errors"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	geth "github.com/ethereum/go-ethereum/core/vm"
	"verif/ref"
)

// The model processor. It is written against the yellow paper, the EIPs and
// the rules of the Fantom network, on a World, and serves as the oracle for
// the processor under test.

const (
	maxCode   = 24576
	maxDepth  = 1024
	depositPB = 200
)

var (
	StateContract = hexAddr("d100ec0000000000000000000000000000000000")
	Driver        = hexAddr("d100a01e00000000000000000000000000000000")
)

func hexAddr(s string) (a tosca.Address) {
	for i := range a {
		a[i] = nib(s[2*i])<<4 | nib(s[2*i+1])
	}
	return
}
func nib(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - '0'
}

// mul64 multiplies a 256 bit value, reporting an overflow.
func mul64(v tosca.Value, m uint64) (z tosca.Value, over bool) {
	var acc [48]byte
	// schoolbook on bytes, little endian in acc
	var mb [8]byte
	for i := range mb {
		mb[i] = byte(m >> (8 * i))
	}
	var t [48]uint64
	for i := 0; i < 32; i++ {
		for j := 0; j < 8; j++ {
			t[i+j] += uint64(v[31-i]) * uint64(mb[j])
		}
	}
	c := uint64(0)
	for i := range t {
		x := t[i] + c
		acc[i] = byte(x)
		c = x >> 8
	}
	for i := 0; i < 32; i++ {
		z[31-i] = acc[i]
	}
	for i := 32; i < 48; i++ {
		if acc[i] != 0 {
			over = true
		}
	}
	return
}

type model struct {
	w      *World
	block  tosca.BlockParameters
	tx     *tosca.Transaction
	interp tosca.Interpreter
	cov    *Coverage
}

// Coverage counts what the model did; it shows that the enumeration reaches
// the branches of the specification.
type Coverage map[string]int64

func (c *Coverage) hit(s string) {
	if *c == nil {
		*c = Coverage{}
	}
	(*c)[s]++
}

// ModelRun executes a transaction on w according to the specification.
func ModelRun(block tosca.BlockParameters, tx *tosca.Transaction, w *World, interp tosca.Interpreter, cov *Coverage) (tosca.Receipt, error) {
	m := &model{w, block, tx, interp, cov}
	create := tx.Recipient == nil

	// A transaction is rejected without any effect if it can not be executed.
	switch have := w.GetNonce(tx.Sender); {
	case have != tx.Nonce:
		cov.hit("tx-nonce-mismatch")
		return tosca.Receipt{}, nil
	case have == ^uint64(0):
		cov.hit("tx-nonce-overflow")
		return tosca.Receipt{}, nil
	}
	if len(w.GetCode(tx.Sender)) > 0 {
		cov.hit("tx-contract-sender")
		return tosca.Receipt{}, nil
	}
	if create && block.Revision >= tosca.R12_Shanghai && len(tx.Input) > 2*maxCode {
		cov.hit("tx-initcode-size")
		return tosca.Receipt{}, nil
	}
	cost, over := mul64(tx.GasPrice, uint64(tx.GasLimit))
	if over || less(w.GetBalance(tx.Sender), cost) {
		cov.hit("tx-cannot-pay")
		return tosca.Receipt{}, nil
	}
	w.SetBalance(tx.Sender, tosca.Value(sub(w.GetBalance(tx.Sender), cost)))
	outOfGas := tosca.Receipt{GasUsed: tx.GasLimit}

	// Intrinsic costs.
	need := tosca.Gas(21000)
	if create {
		need = 53000
	}
	for _, b := range tx.Input {
		if b == 0 {
			need += 4
		} else {
			need += 16
		}
	}
	for _, t := range tx.AccessList {
		need += 2400 + 1900*tosca.Gas(len(t.Keys))
	}
	if tx.GasLimit < need {
		cov.hit("tx-intrinsic")
		return outOfGas, nil
	}

	// Access list.
	if block.Revision >= tosca.R09_Berlin && tx.AccessList != nil {
		w.AccessAccount(tx.Sender)
		if !create {
			w.AccessAccount(*tx.Recipient)
		}
		for i := 1; i <= precompiles(block.Revision); i++ {
			w.AccessAccount(small(byte(i)))
		}
		for _, t := range tx.AccessList {
			w.AccessAccount(t.Address)
			for _, k := range t.Keys {
				w.AccessStorage(t.Address, k)
			}
		}
	}

	p := tosca.CallParameters{Sender: tx.Sender, Input: tx.Input, Value: tx.Value, Gas: tx.GasLimit - need}
	kind := tosca.Create
	if !create {
		kind = tosca.Call
		p.Recipient = *tx.Recipient
		w.SetNonce(tx.Sender, w.GetNonce(tx.Sender)+1)
	}
	res, err := m.call(kind, p, 0, false)
	if err != nil {
		cov.hit("tx-error")
		return outOfGas, err
	}
	if !res.Success && res.GasLeft == 0 {
		cov.hit("tx-failed")
		return outOfGas, nil
	}
	left := res.GasLeft
	if tx.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if res.Success {
		cov.hit("tx-success")
		used := tx.GasLimit - left
		cap := used / 5
		if block.Revision < tosca.R10_London {
			cap = used / 2
		}
		if res.GasRefund < cap {
			cap = res.GasRefund
		} else if cap > 0 {
			cov.hit("tx-refund-capped")
		}
		left += cap
	} else {
		cov.hit("tx-reverted")
	}
	back, _ := mul64(tx.GasPrice, uint64(left))
	w.SetBalance(tx.Sender, tosca.Value(add(w.GetBalance(tx.Sender), back)))
	r := tosca.Receipt{Success: res.Success, Output: res.Output, GasUsed: tx.GasLimit - left, Logs: w.GetLogs()}
	if create {
		a := res.CreatedAddress
		r.ContractAddress = &a
	}
	return r, nil
}

func small(b byte) (a tosca.Address) { a[19] = b; return }

// precompiles is the number of precompiled contracts, at addresses 1 to n.
func precompiles(r tosca.Revision) int {
	if r >= tosca.R13_Cancun {
		return 10
	}
	return 9
}

// precompile runs the precompiled contract at the address, if there is one.
func (m *model) precompile(a tosca.Address, in []byte, gas tosca.Gas) (res tosca.CallResult, is bool) {
	n := a[19]
	if n == 0 || int(n) > precompiles(m.block.Revision) || a != small(n) {
		return
	}
	words := tosca.Gas((len(in) + 31) / 32)
	pairing := tosca.Gas(45001)
	if m.block.Revision < tosca.R09_Berlin {
		pairing = 45000
	}
	cost := [...]tosca.Gas{0, 3000, 60 + 12*words, 600 + 120*words, 15 + 3*words, 200, 150, 6000, pairing, 1, 50000}[n]
	if gas < cost {
		m.cov.hit("precompile-out-of-gas")
		return res, true
	}
	// the cryptography is a stand-in of the sandbox, shared with the processor
	out, err := geth.PrecompiledContractsCancun[[20]byte(small(n))].Run(in)
	if err != nil {
		m.cov.hit("precompile-bad-input")
		return res, true
	}
	m.cov.hit("precompile-ok")
	return tosca.CallResult{Success: true, Output: out, GasLeft: gas - cost}, true
}

// frame is the run context of a code execution of the model.
type frame struct {
	*World
	m      *model
	depth  int
	static bool
}

func (f frame) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	return f.m.call(kind, p, f.depth+1, f.static)
}

func rlpCreate(sender tosca.Address, nonce uint64) (a tosca.Address) {
	n := []byte{}
	for s := 56; s >= 0; s -= 8 {
		if b := byte(nonce >> s); b != 0 || len(n) > 0 {
			n = append(n, b)
		}
	}
	if len(n) != 1 || n[0] >= 0x80 {
		n = append([]byte{0x80 + byte(len(n))}, n...)
	}
	msg := append([]byte{0xc0 + byte(21+len(n)), 0x94}, sender[:]...)
	h := ref.Keccak(append(msg, n...))
	copy(a[:], h[12:])
	return
}

// CreateAddress is the address of a contract created by the parameters.
func CreateAddress(kind tosca.CallKind, p *tosca.CallParameters, nonce uint64) (a tosca.Address) {
	if kind == tosca.Create {
		return rlpCreate(p.Sender, nonce)
	}
	h := ref.Keccak(p.Input)
	b := append([]byte{0xff}, p.Sender[:]...)
	b = append(append(b, p.Salt[:]...), h[:]...)
	h = ref.Keccak(b)
	copy(a[:], h[12:])
	return
}

var errModel = errors.New("interpreter error")

// call executes a call or creation at the given depth.
func (m *model) call(kind tosca.CallKind, p tosca.CallParameters, depth int, static bool) (res tosca.CallResult, err error) {
	w := m.w
	unused := tosca.CallResult{GasLeft: p.Gas}
	create := kind == tosca.Create || kind == tosca.Create2
	if depth > maxDepth {
		m.cov.hit("depth")
		return unused, nil
	}
	static = static || kind == tosca.StaticCall
	to, codeAt := p.Recipient, p.Recipient
	var code tosca.Code
	if create {
		n := w.GetNonce(p.Sender)
		if n == ^uint64(0) {
			m.cov.hit("create-nonce-overflow")
			return unused, nil
		}
		to = CreateAddress(kind, &p, n)
		code = tosca.Code(p.Input)
		w.SetNonce(p.Sender, n+1)
		if m.block.Revision >= tosca.R09_Berlin {
			w.AccessAccount(to)
		}
		if w.GetNonce(to) != 0 || len(w.GetCode(to)) != 0 {
			m.cov.hit("create-collision")
			return tosca.CallResult{}, nil
		}
	} else {
		if kind == tosca.DelegateCall || kind == tosca.CallCode {
			codeAt = p.CodeAddress
		}
		code = w.GetCode(codeAt)
	}
	undo := w.CreateSnapshot()
	if create {
		w.SetNonce(to, 1)
	}
	if (p.Value != tosca.Value{}) && kind != tosca.StaticCall && kind != tosca.DelegateCall {
		if less(w.GetBalance(p.Sender), p.Value) {
			m.cov.hit("call-no-balance")
			w.RestoreSnapshot(undo)
			return unused, nil
		}
		if p.Sender != to {
			z := add(w.GetBalance(to), p.Value)
			if less(z, p.Value) {
				m.cov.hit("call-balance-overflow")
				w.RestoreSnapshot(undo)
				return unused, nil
			}
			w.SetBalance(p.Sender, tosca.Value(sub(w.GetBalance(p.Sender), p.Value)))
			w.SetBalance(to, z)
			m.cov.hit("call-transfer")
		}
	}
	if !create {
		is := false
		if kind == tosca.Call && !static && to == StateContract {
			res, is = m.stateContract(p, p.Sender), true
		} else {
			res, is = m.precompile(codeAt, p.Input, p.Gas)
		}
		if is {
			if !res.Success {
				w.RestoreSnapshot(undo)
			}
			return res, nil
		}
		if kind == tosca.Call && !w.AccountExists(to) {
			m.cov.hit("call-void")
			return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil
		}
	}
	h := CodeHash(code)
	if !create {
		h = w.GetCodeHash(codeAt)
	}
	q := tosca.Parameters{
		BlockParameters:       m.block,
		TransactionParameters: tosca.TransactionParameters{Origin: m.tx.Sender, GasPrice: m.tx.GasPrice},
		Context:               frame{w, m, depth, static},
		Kind:                  kind,
		Static:                static,
		Depth:                 depth,
		Gas:                   p.Gas,
		Recipient:             to,
		Sender:                p.Sender,
		Input:                 p.Input,
		Value:                 p.Value,
		CodeHash:              &h,
		Code:                  code,
	}
	if create {
		q.Input = nil
	}
	r, err := m.interp.Run(q)
	if err != nil || !r.Success {
		m.cov.hit("frame-undone")
		w.RestoreSnapshot(undo)
		return tosca.CallResult{Output: r.Output, GasLeft: r.GasLeft, GasRefund: r.GasRefund, CreatedAddress: to}, err
	}
	if create {
		c := r.Output
		switch cost := tosca.Gas(len(c)) * depositPB; {
		case len(c) > maxCode:
			m.cov.hit("deposit-size")
		case m.block.Revision >= tosca.R10_London && len(c) > 0 && c[0] == 0xef:
			m.cov.hit("deposit-ef")
		case r.GasLeft < cost:
			m.cov.hit("deposit-gas")
		default:
			m.cov.hit("deposit-ok")
			w.SetCode(to, tosca.Code(c))
			return tosca.CallResult{Success: true, Output: c, GasLeft: r.GasLeft - cost, GasRefund: r.GasRefund, CreatedAddress: to}, nil
		}
		w.RestoreSnapshot(undo)
		return tosca.CallResult{}, nil
	}
	m.cov.hit("frame-done")
	return tosca.CallResult{Success: true, Output: r.Output, GasLeft: r.GasLeft, GasRefund: r.GasRefund}, nil
}

// stateContract is the network's contract for changing the state, reserved to
// the driver contract.
// protected is the account it leaves alone.
func (m *model) stateContract(p tosca.CallParameters, protected tosca.Address) (res tosca.CallResult) {
	w := m.w
	if p.Sender != Driver || len(p.Input) < 4 {
		m.cov.hit("state-denied")
		return
	}
	sel := string(p.Input[:4])
	in := p.Input[4:]
	at := func(i int) (a tosca.Address) { copy(a[:], in[32*i+12:]); return }
	word := func(i int) (v [32]byte) { copy(v[:], in[32*i:]); return }
	var cost tosca.Gas
	args := 2
	switch sel {
	case selSetBalance, selIncNonce:
		cost = 9000
	case selCopyCode:
		cost = 32000
	case selSwapCode:
		cost = 64000
	case selSetStorage:
		cost, args = 20000, 3
	default:
		m.cov.hit("state-unknown")
		return
	}
	if p.Gas < cost || len(in) != 32*args {
		m.cov.hit("state-malformed")
		return
	}
	switch sel {
	case selSetBalance:
		if at(0) == protected {
			m.cov.hit("state-self")
			return
		}
		w.SetBalance(at(0), word(1))
	case selIncNonce:
		v := word(1)
		for _, b := range v[:31] {
			if b != 0 {
				m.cov.hit("state-nonce-range")
				return
			}
		}
		if at(0) == protected || v[31] == 0 {
			m.cov.hit("state-self")
			return
		}
		w.SetNonce(at(0), w.GetNonce(at(0))+uint64(v[31]))
	case selSetStorage:
		w.SetStorage(at(0), word(1), word(2))
	case selCopyCode:
		to, from := at(0), at(1)
		c := w.GetCode(from)
		cost += 203 * tosca.Gas(len(c))
		if p.Gas < cost {
			m.cov.hit("state-code-gas")
			return
		}
		if to != from {
			w.SetCode(to, c)
		}
	case selSwapCode:
		a, b := w.GetCode(at(0)), w.GetCode(at(1))
		cost += 203 * tosca.Gas(len(a)+len(b)) / 2
		if p.Gas < cost {
			m.cov.hit("state-code-gas")
			return
		}
		if at(0) != at(1) {
			w.SetCode(at(0), b)
			w.SetCode(at(1), a)
		}
	}
	m.cov.hit("state-" + names[sel])
	return tosca.CallResult{Success: true, GasLeft: p.Gas - cost}
}

func selector(sig string) string { h := ref.Keccak([]byte(sig)); return string(h[:4]) }

var (
	selSetBalance = selector("setBalance(address,uint256)")
	selCopyCode   = selector("copyCode(address,address)")
	selSwapCode   = selector("swapCode(address,address)")
	selSetStorage = selector("setStorage(address,bytes32,bytes32)")
	selIncNonce   = selector("incNonce(address,uint256)")
	names         = map[string]string{selSetBalance: "setBalance", selCopyCode: "copyCode", selSwapCode: "swapCode",
		selSetStorage: "setStorage", selIncNonce: "incNonce"}
)
