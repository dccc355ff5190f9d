package engine

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
)

// Env selects the block and transaction parameters.
type Env struct {
	Block int64
	Time  int64
	Gas   int64
	Seed  byte
	Blobs int
	Value ref.W
}

var DefaultEnv = Env{Block: 1234, Time: 5678, Gas: 1 << 40, Seed: 0x10, Blobs: 2, Value: ref.FromU64(77)}

// Case is one execution: a program, its parameters and the initial world.
type Case struct {
	Rev      tosca.Revision
	Static   bool
	Gas      int64
	Code     []byte
	Input    []byte
	World    *WorldSpec
	Env      *Env
	WithHash bool
	Hash     *tosca.Hash
	Depth    int
	// Sweep also runs the case at, and one below, every gas amount at which
	// the reference charges gas.
	Sweep bool
}

func seq(seed byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i)*3 + 1
	}
	return b
}

// Params builds the interpreter parameters of the case.
func (c *Case) Params(ctx tosca.RunContext) (p tosca.Parameters) {
	e := c.Env
	if e == nil {
		e = &DefaultEnv
	}
	copy(p.ChainID[:], seq(e.Seed+1, 32))
	p.BlockNumber = e.Block
	p.Timestamp = e.Time
	p.Coinbase = Base
	p.GasLimit = tosca.Gas(e.Gas)
	copy(p.PrevRandao[:], seq(e.Seed+2, 32))
	copy(p.BaseFee[:], seq(e.Seed+3, 32))
	copy(p.BlobBaseFee[:], seq(e.Seed+4, 32))
	copy(p.GasPrice[:], seq(e.Seed+5, 32))
	p.Revision = c.Rev
	p.Origin = Origin
	for i := 0; i < e.Blobs; i++ {
		var h tosca.Hash
		copy(h[:], seq(e.Seed+byte(6+i*5), 32))
		p.BlobHashes = append(p.BlobHashes, h)
	}
	p.Context = ctx
	p.Static = c.Static
	p.Depth = c.Depth
	p.Gas = tosca.Gas(c.Gas)
	p.Recipient = Self
	p.Sender = Caller
	p.Input = c.Input
	p.Value = tosca.Value(e.Value)
	p.Code = c.Code
	if c.Hash != nil {
		p.CodeHash = c.Hash
	} else if c.WithHash {
		h := tosca.Hash(ref.Keccak(c.Code))
		p.CodeHash = &h
	}
	return
}

// Outcome is everything observable about an execution.
type Outcome struct {
	Err     string
	Success bool
	Out     []byte
	Gas     int64
	Refund  int64
	Journal []byte
	Access  []byte
	Mut     int
}

func (o *Outcome) kind() string {
	switch {
	case o.Err != "":
		return "error: " + o.Err
	case o.Success:
		return "success"
	default:
		return "unsuccessful"
	}
}

func (o *Outcome) String() string {
	return fmt.Sprintf("%s out=%x gasLeft=%d refund=%d effects=%x accesses=%x", o.kind(), o.Out, o.Gas, o.Refund, o.Journal, o.Access)
}

// diff compares an implementation's outcome to the reference's.
// Diff compares an implementation's outcome to the reference's.
func Diff(want, got *Outcome, failed bool) string { return diff(want, got, failed) }

func diff(want, got *Outcome, failed bool) string {
	if got.Err != want.Err {
		return fmt.Sprintf("got %s, want %s", got.kind(), want.kind())
	}
	if got.Success != want.Success {
		return fmt.Sprintf("got %s, want %s", got.kind(), want.kind())
	}
	if got.Gas != want.Gas {
		return fmt.Sprintf("gas left %d, want %d", got.Gas, want.Gas)
	}
	if got.Refund != want.Refund {
		return fmt.Sprintf("refund %d, want %d", got.Refund, want.Refund)
	}
	if !bytes.Equal(got.Out, want.Out) {
		return fmt.Sprintf("output %x, want %x", got.Out, want.Out)
	}
	if !failed && !bytes.Equal(got.Journal, want.Journal) {
		return fmt.Sprintf("effects %x, want %x", got.Journal, want.Journal)
	}
	if !failed && !sameAccesses(got.Access, want.Access) {
		return fmt.Sprintf("accesses %x, want %x", got.Access, want.Access)
	}
	return ""
}

// MarshalCase produces the replay form of a case.
func MarshalCase(c *Case) json.RawMessage {
	m := map[string]any{
		"revision": c.Rev.String(), "rev": int(c.Rev), "static": c.Static, "gas": c.Gas,
		"code": hex.EncodeToString(c.Code), "input": hex.EncodeToString(c.Input),
		"world": c.World, "env": c.Env, "withHash": c.WithHash, "depth": c.Depth,
	}
	if c.Hash != nil {
		m["hash"] = hex.EncodeToString(c.Hash[:])
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return b
}

// UnmarshalCase is the inverse of MarshalCase.
func UnmarshalCase(raw []byte) (*Case, error) {
	var m struct {
		Rev      int
		Static   bool
		Gas      int64
		Code     string
		Input    string
		World    *WorldSpec
		Env      *Env
		WithHash bool
		Depth    int
		Hash     string
	}
	if err := json.Unmarshal(raw, &m); err != nil {
		return nil, err
	}
	c := &Case{Rev: tosca.Revision(m.Rev), Static: m.Static, Gas: m.Gas, World: m.World, Env: m.Env, WithHash: m.WithHash, Depth: m.Depth}
	c.Code, _ = hex.DecodeString(m.Code)
	c.Input, _ = hex.DecodeString(m.Input)
	if m.Hash != "" {
		var h tosca.Hash
		b, _ := hex.DecodeString(m.Hash)
		copy(h[:], b)
		c.Hash = &h
	}
	if c.World == nil {
		c.World = &WorldSpec{}
	}
	return c, nil
}

// RunRef executes the case in the reference model.
func RunRef(c *Case, w *World, trace *[]int64, onStep func(*ref.State, byte)) (Outcome, *ref.State) {
	w.Reset(c.World)
	p := c.Params(w)
	s := ref.New(&p)
	s.GasTrace = trace
	s.OnStep = onStep
	r := s.Run(200000)
	if s.Status == ref.Running {
		panic("reference: step limit exceeded for code " + hex.EncodeToString(c.Code))
	}
	return Outcome{Success: r.Success, Out: r.Output, Gas: int64(r.GasLeft), Refund: int64(r.GasRefund),
		Journal: w.J, Access: w.A, Mut: w.Mut}, s
}

// RunImpl executes the case in a real implementation.
func RunImpl(i tosca.Interpreter, c *Case, w *World) (o Outcome) {
	w.Reset(c.World)
	p := c.Params(w)
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Err: fmt.Sprintf("panic: %v", r)}
		}
	}()
	r, err := i.Run(p)
	if err != nil {
		return Outcome{Err: err.Error()}
	}
	return Outcome{Success: r.Success, Out: r.Output, Gas: int64(r.GasLeft), Refund: int64(r.GasRefund),
		Journal: w.J, Access: w.A, Mut: w.Mut}
}
