package proc

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"slices"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// Case is a transaction on a world with scripted codes.
type Case struct {
	Rev     tosca.Revision
	Tx      tosca.Transaction
	World   *World
	Scripts []Script
}

// Env are the scratch structures of a worker.
type Env struct {
	mw, iw World
	mp, ip Player
	Cov    Coverage
	Steps  int64
	Rules  Rules
}

// Aspects selects what is compared.
type Aspects struct {
	Receipt, Warm, Trace bool
}

// Everything compares everything.
var Everything = Aspects{true, true, true}

func minted(c *Case) bool {
	// setBalance of the state contract creates and destroys tokens
	for _, s := range c.Scripts {
		for _, o := range s.Ops {
			if o.Op == DoCall && o.Target == StateContract {
				return true
			}
		}
	}
	return c.Tx.Recipient != nil && *c.Tx.Recipient == StateContract
}

// StdBlock are the block parameters of all cases.
func StdBlock(rev tosca.Revision) tosca.BlockParameters {
	return tosca.BlockParameters{BlockNumber: 1<<33 + 77, Timestamp: 1<<33 + 99, GasLimit: 1 << 40, Revision: rev, Coinbase: small(0xcb), ChainID: tosca.Word{31: 250},
		BaseFee: tosca.Value{31: 7}, BlobBaseFee: tosca.Value{31: 3}, PrevRandao: tosca.Hash{1}}
}

func (e *Env) model(b tosca.BlockParameters, tx *tosca.Transaction, i tosca.Interpreter) (tosca.Receipt, error) {
	if e.Rules != Floria {
		return OperaRun(e.Rules, b, tx, &e.mw, i, &e.Cov)
	}
	return ModelRun(b, tx, &e.mw, i, &e.Cov)
}

// Expect runs a transaction of bytecode contracts on the model with the
// reference interpreter.
func (e *Env) Expect(c *Case, ref tosca.Interpreter) (tosca.Receipt, error) {
	e.mw.Reset(c.World)
	tx := c.Tx
	return e.model(StdBlock(c.Rev), &tx, ref)
}

// Compare runs the transaction on a processor and compares the result with
// that of the preceding Expect.
func (e *Env) Compare(c *Case, p tosca.Processor, wr tosca.Receipt) (what, want, got string) {
	e.iw.Reset(c.World)
	gr, err := p.Run(StdBlock(c.Rev), c.Tx, &e.iw)
	defer func() {
		if what != "" {
			want, got = fmtReceipt(wr, nil)+" "+e.mw.String(), fmtReceipt(gr, err)+" "+e.iw.String()
		}
	}()
	switch {
	case err != nil:
		return "error: " + err.Error(), "", ""
	case e.iw.Bad != "":
		return e.iw.Bad, "", ""
	case !sameReceipt(&wr, &gr):
		return "receipt differs", "", ""
	case !bytes.Equal(e.mw.Digest(true, nil), e.iw.Digest(true, nil)):
		return "final state differs", "", ""
	}
	return "", "", ""
}

// Check runs the case on the model and on the processor; it returns a
// description of the difference, or an empty string.
func (e *Env) Check(c *Case, make func(tosca.Interpreter) tosca.Processor, a Aspects) (what, want, got string) {
	block := StdBlock(c.Rev)
	e.mw.Reset(c.World)
	e.iw.Reset(c.World)
	e.mp.Reset()
	e.ip.Reset()
	tx1, tx2 := c.Tx, c.Tx
	e.mp.Scripts, e.mp.Block, e.mp.Tx = c.Scripts, &block, &tx1
	e.ip.Scripts, e.ip.Block, e.ip.Tx = c.Scripts, &block, &tx2
	e.ip.W, e.ip.Monitor = &e.iw, true

	frames := block
	if e.Rules != Floria {
		frames = e.Rules.Block(block)
		e.mp.Block, e.ip.Block = &frames, &frames
	}
	e.mp.Opera, e.ip.Opera = e.Rules != Floria, e.Rules != Floria
	wr, werr := e.model(block, &tx1, &e.mp)
	if errors.Is(werr, ErrUndecided) {
		e.Steps = 0
		return "", "", ""
	}
	gr, gerr := make(&e.ip).Run(block, c.Tx, &e.iw)
	e.Steps = int64(len(e.mp.Marks)) + 1

	same := sameReceipt(&wr, &gr) && (werr == nil) == (gerr == nil)
	defer func() {
		if what != "" && want == "" {
			want, got = fmtReceipt(wr, werr), fmtReceipt(gr, gerr)
		}
	}()
	if e.mp.Fault != "" {
		return "the model is broken: " + e.mp.Fault, want, got
	}
	if e.ip.Fault != "" {
		return e.ip.Fault, want, got
	}
	if e.iw.Bad != "" {
		return e.iw.Bad, want, got
	}
	if a.Receipt && !same {
		return "receipt differs", want, got
	}
	if wr.Success != gr.Success {
		return "success differs", want, got
	}
	if a.Trace {
		if d := Diff(&e.mp, &e.ip); d != "" {
			return "execution differs: " + d, want, got
		}
	}
	if x, y := e.mw.Digest(a.Warm, nil), e.iw.Digest(a.Warm, nil); !bytes.Equal(x, y) {
		if a.Receipt || !onlyPayment(&e.mw, &e.iw, c.Tx.Sender, a.Warm) {
			return "final state differs", fmtReceipt(wr, werr) + " " + e.mw.String(), fmtReceipt(gr, gerr) + " " + e.iw.String()
		}
	}
	// Independent of the model: what the sender paid is the only thing lost.
	if !minted(c) && gerr == nil {
		fee, _ := mul64(c.Tx.GasPrice, uint64(gr.GasUsed))
		before, after := c.World.Supply(), e.iw.Supply()
		carry := 0
		for k := 39; k >= 0; k-- {
			t := int(after[k]) + carry
			if k >= 8 {
				t += int(fee[k-8])
			}
			after[k], carry = byte(t), t>>8
		}
		if before != after {
			return fmt.Sprintf("tokens not conserved: before %x, after including fees %x", before, after), want, got
		}
		if gr.GasUsed < 0 || gr.GasUsed > c.Tx.GasLimit {
			return "gas used is out of range", want, got
		}
	}
	return "", "", ""
}

func sameReceipt(a, b *tosca.Receipt) bool {
	if a.Success != b.Success || a.GasUsed != b.GasUsed || a.BlobGasUsed != b.BlobGasUsed || !bytes.Equal(a.Output, b.Output) || len(a.Logs) != len(b.Logs) {
		return false
	}
	for i := range a.Logs {
		x, y := &a.Logs[i], &b.Logs[i]
		if x.Address != y.Address || !bytes.Equal(x.Data, y.Data) || !slices.Equal(x.Topics, y.Topics) {
			return false
		}
	}
	return !a.Success || (a.ContractAddress == nil) == (b.ContractAddress == nil) && (a.ContractAddress == nil || *a.ContractAddress == *b.ContractAddress)
}

// onlyPayment ignores what the sender has.
func onlyPayment(a, b *World, s tosca.Address, warm bool) bool {
	x, y := *a.acct(s), *b.acct(s)
	a.acct(s).bal, b.acct(s).bal = tosca.Value{}, tosca.Value{}
	eq := bytes.Equal(a.Digest(warm, nil), b.Digest(warm, nil))
	a.acct(s).bal, b.acct(s).bal = x.bal, y.bal
	return eq
}

func fmtReceipt(r tosca.Receipt, err error) string {
	s := fmt.Sprintf("success=%v used=%d blob=%d out=%x/%d logs=%x", r.Success, r.GasUsed, r.BlobGasUsed, clipB(r.Output), len(r.Output), r.Logs)
	if r.Success && r.ContractAddress != nil {
		s += fmt.Sprintf(" created=%x", (*r.ContractAddress)[:])
	}
	if err != nil {
		s += " error"
	}
	return s
}

// Describe renders the case for a report.
func (c *Case) Describe() json.RawMessage {
	to := "nil"
	if c.Tx.Recipient != nil {
		to = fmt.Sprintf("%x", (*c.Tx.Recipient)[:])
	}
	al := []string{}
	for _, t := range c.Tx.AccessList {
		al = append(al, fmt.Sprintf("%x:%x", t.Address[:], t.Keys))
	}
	m := map[string]any{
		"revision": c.Rev.String(),
		"tx": map[string]any{"sender": fmt.Sprintf("%x", c.Tx.Sender[:]), "to": to, "nonce": c.Tx.Nonce, "input": fmt.Sprintf("%x", clipB(c.Tx.Input)), "inputlen": len(c.Tx.Input),
			"value": c.Tx.Value.ToBig().String(), "gas": c.Tx.GasLimit, "price": c.Tx.GasPrice.ToBig().String(), "accesslist": al, "hasaccesslist": c.Tx.AccessList != nil},
		"world": c.World.String(),
	}
	var sc []string
	for i, s := range c.Scripts {
		sc = append(sc, fmt.Sprintf("%d: %v", i, s))
	}
	m["scripts"] = sc
	b, err := json.Marshal(m)
	if err != nil {
		b, _ = json.Marshal(err.Error())
	}
	return b
}

// DescribeCode is like Describe with the code of the two main contracts.
func (c *Case) DescribeCode(a, b []byte) json.RawMessage {
	var m map[string]any
	_ = json.Unmarshal(c.Describe(), &m)
	m["code_a"], m["code_b"] = fmt.Sprintf("%x", a), fmt.Sprintf("%x", b)
	r, _ := json.Marshal(m)
	return r
}
