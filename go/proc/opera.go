package proc

import (
	"errors"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// The model of the processor which executes transactions by the call machinery
// of go-ethereum, as the Opera network does up to the London revision. It
// differs from the model of the other processor in what the network leaves to
// that machinery: the order of the checks of calls and creations, the set-up
// of access lists, the refunds being kept with the state, and that rejected
// transactions are reported as errors.

// ErrUndecided is returned for transactions whose effect is not specified.
var ErrUndecided = errors.New("undecided")

var errRejected = errors.New("rejected")

type opera struct {
	model
	refund int64
	rules  Rules
}

// Rules are the rules transactions are executed by.
type Rules int

const (
	Floria Rules = iota // the processor of this repository, see ModelRun
	Opera               // the Opera network on the machinery of go-ethereum
	Geth                // the machinery of go-ethereum with all its revisions
)

// GethBlobs are the blobs of the transactions run by the rules of Geth.
var GethBlobs = []tosca.Hash{{1: 1}, {2: 2}}

// Block are the block parameters seen by contracts.
func (r Rules) Block(b tosca.BlockParameters) tosca.BlockParameters {
	if r == Opera {
		return OperaBlock(b)
	}
	return b
}

// OperaBlock are the block parameters seen by contracts: the network has
// neither a coinbase nor blobs, and a constant difficulty.
func OperaBlock(b tosca.BlockParameters) tosca.BlockParameters {
	b.Coinbase = tosca.Address{}
	b.BlobBaseFee = tosca.Value{}
	b.PrevRandao = tosca.Hash{31: 1}
	return b
}

// OperaRun executes a transaction on w according to the rules of Opera.
func OperaRun(rules Rules, block tosca.BlockParameters, tx *tosca.Transaction, w *World, interp tosca.Interpreter, cov *Coverage) (tosca.Receipt, error) {
	m := &opera{model: model{w, block, tx, interp, cov}, rules: rules}
	create := tx.Recipient == nil
	have := w.GetNonce(tx.Sender)
	if have == ^uint64(0) || rules == Opera && block.Revision > tosca.R10_London || tx.GasLimit < 0 {
		return tosca.Receipt{}, ErrUndecided
	}
	cost, over := mul64(tx.GasPrice, uint64(tx.GasLimit))
	switch {
	case have != tx.Nonce:
		cov.hit("tx-nonce-mismatch")
		return tosca.Receipt{}, errRejected
	case len(w.GetCode(tx.Sender)) > 0:
		cov.hit("tx-contract-sender")
		return tosca.Receipt{}, errRejected
	case over:
		cov.hit("tx-cost-overflow")
		return tosca.Receipt{}, errRejected
	case less(w.GetBalance(tx.Sender), cost):
		cov.hit("tx-cannot-pay")
		return tosca.Receipt{}, errRejected
	}
	w.SetBalance(tx.Sender, tosca.Value(sub(w.GetBalance(tx.Sender), cost)))
	need := tosca.Gas(21000)
	if create {
		need = 53000
	}
	for _, b := range tx.Input {
		if b == 0 {
			need += 4
		} else {
			need += 16
		}
	}
	for _, t := range tx.AccessList {
		need += 2400 + 1900*tosca.Gas(len(t.Keys))
	}
	if tx.GasLimit < need {
		cov.hit("tx-intrinsic")
		return tosca.Receipt{GasUsed: tx.GasLimit}, errRejected
	}
	if block.Revision >= tosca.R09_Berlin {
		w.AccessAccount(tx.Sender)
		if !create {
			w.AccessAccount(*tx.Recipient)
		}
		for i := 1; i <= precompiles(block.Revision); i++ {
			w.AccessAccount(small(byte(i)))
		}
		for _, t := range tx.AccessList {
			w.AccessAccount(t.Address)
			for _, k := range t.Keys {
				w.AccessStorage(t.Address, k)
			}
		}
	}
	p := tosca.CallParameters{Sender: tx.Sender, Input: tx.Input, Value: tx.Value, Gas: tx.GasLimit - need}
	kind := tosca.Create
	if !create {
		kind = tosca.Call
		p.Recipient = *tx.Recipient
		w.SetNonce(tx.Sender, w.GetNonce(tx.Sender)+1)
	}
	res, err := m.call(kind, p, 0, false)
	if errors.Is(err, ErrUndecided) {
		return tosca.Receipt{}, err
	}
	left := res.GasLeft
	if tx.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if res.Success {
		cov.hit("tx-success")
		used := tx.GasLimit - left
		cap := used / 5
		if block.Revision < tosca.R10_London {
			cap = used / 2
		}
		if r := tosca.Gas(max(m.refund, 0)); r <= cap {
			cap = r
		} else {
			cov.hit("tx-refund-capped")
		}
		left += cap
	} else {
		cov.hit("tx-failed")
	}
	back, _ := mul64(tx.GasPrice, uint64(left))
	w.SetBalance(tx.Sender, tosca.Value(add(w.GetBalance(tx.Sender), back)))
	r := tosca.Receipt{Success: res.Success, Output: res.Output, GasUsed: tx.GasLimit - left, Logs: w.GetLogs()}
	if create {
		a := res.CreatedAddress
		r.ContractAddress = &a
	}
	return r, nil
}

// operaFrame is the run context of a code execution of the model.
type operaFrame struct {
	*World
	m      *opera
	depth  int
	static bool
}

func (f operaFrame) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	if f.static && kind == tosca.Call { // as issued by interpreters
		kind = tosca.StaticCall
	}
	return f.m.call(kind, p, f.depth+1, f.static)
}

// SelfDestruct clears the balance at once, also if an account is its own heir.
func (f operaFrame) SelfDestruct(a, heir tosca.Address) bool {
	if a == heir && f.m.block.Revision < tosca.R13_Cancun {
		f.SetBalance(a, tosca.Value{})
	}
	return f.World.SelfDestruct(a, heir)
}

func (m *opera) call(kind tosca.CallKind, p tosca.CallParameters, depth int, static bool) (res tosca.CallResult, err error) {
	w := m.w
	unused := tosca.CallResult{GasLeft: p.Gas}
	create := kind == tosca.Create || kind == tosca.Create2
	if static && (create || kind == tosca.Call) {
		return res, ErrUndecided // not issued by interpreters
	}
	if depth > maxDepth {
		m.cov.hit("depth")
		return unused, nil
	}
	if kind != tosca.DelegateCall && kind != tosca.StaticCall && less(w.GetBalance(p.Sender), p.Value) {
		m.cov.hit("call-no-balance")
		return unused, nil
	}
	static = static || kind == tosca.StaticCall
	to, codeAt := p.Recipient, p.Recipient
	var code tosca.Code
	if create {
		n := w.GetNonce(p.Sender)
		if n == ^uint64(0) {
			m.cov.hit("create-nonce-overflow")
			return unused, nil
		}
		to = CreateAddress(kind, &p, n)
		code = tosca.Code(p.Input)
		w.SetNonce(p.Sender, n+1)
		if m.block.Revision >= tosca.R09_Berlin {
			w.AccessAccount(to)
		}
		if w.GetNonce(to) != 0 || len(w.GetCode(to)) != 0 {
			m.cov.hit("create-collision")
			return tosca.CallResult{}, nil
		}
	} else {
		if kind == tosca.DelegateCall || kind == tosca.CallCode {
			codeAt = p.CodeAddress
		}
		code = w.GetCode(codeAt)
	}
	undo, refund := w.CreateSnapshot(), m.refund
	fail := func() {
		w.RestoreSnapshot(undo)
		m.refund = refund
	}
	if create {
		w.SetNonce(to, 1)
	}
	if (kind == tosca.Call || create) && p.Sender != to && p.Value != (tosca.Value{}) {
		z := add(w.GetBalance(to), p.Value)
		if less(z, p.Value) {
			return res, ErrUndecided // more tokens than there can be
		}
		w.SetBalance(p.Sender, tosca.Value(sub(w.GetBalance(p.Sender), p.Value)))
		w.SetBalance(to, z)
		m.cov.hit("call-transfer")
	}
	if !create {
		is := false
		if m.rules == Opera && kind == tosca.Call && to == StateContract {
			res, is = m.stateContract(p, m.tx.Sender), true
		} else {
			res, is = m.precompile(codeAt, p.Input, p.Gas)
		}
		if is {
			if !res.Success {
				fail()
			}
			return res, nil
		}
		if kind == tosca.Call && len(code) == 0 {
			m.cov.hit("call-no-code")
			return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil
		}
	}
	h := CodeHash(code)
	q := tosca.Parameters{
		BlockParameters:       m.rules.Block(m.block),
		TransactionParameters: tosca.TransactionParameters{Origin: m.tx.Sender, GasPrice: m.tx.GasPrice},
		Context:               operaFrame{w, m, depth, static},
		Kind:                  kind,
		Static:                static,
		Depth:                 depth,
		Gas:                   p.Gas,
		Recipient:             to,
		Sender:                p.Sender,
		Input:                 p.Input,
		Value:                 p.Value,
		CodeHash:              &h,
		Code:                  code,
	}
	if kind == tosca.StaticCall {
		q.Value = tosca.Value{}
	}
	if create {
		q.Input = nil
	}
	if m.rules == Geth {
		q.BlobHashes = GethBlobs
	}
	r, err := m.interp.Run(q)
	if errors.Is(err, ErrUndecided) {
		return res, err
	}
	if err != nil || !r.Success {
		m.cov.hit("frame-undone")
		fail()
		if err != nil {
			return tosca.CallResult{}, err
		}
		return tosca.CallResult{Output: r.Output, GasLeft: r.GasLeft, CreatedAddress: to}, nil
	}
	m.refund += int64(r.GasRefund)
	if create {
		c := r.Output
		switch cost := tosca.Gas(len(c)) * depositPB; {
		case len(c) > maxCode:
			m.cov.hit("deposit-size")
		case m.block.Revision >= tosca.R10_London && len(c) > 0 && c[0] == 0xef:
			m.cov.hit("deposit-ef")
		case r.GasLeft < cost:
			m.cov.hit("deposit-gas")
		default:
			m.cov.hit("deposit-ok")
			w.SetCode(to, tosca.Code(c))
			return tosca.CallResult{Success: true, Output: c, GasLeft: r.GasLeft - cost, CreatedAddress: to}, nil
		}
		fail()
		if depth == 0 {
			return tosca.CallResult{Output: c}, nil // reported by the receipt
		}
		return tosca.CallResult{}, nil
	}
	m.cov.hit("frame-done")
	return tosca.CallResult{Success: true, Output: r.Output, GasLeft: r.GasLeft}, nil
}
