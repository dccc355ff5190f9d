package proc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc64"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// Outcome is the way a scripted code execution ends.
type Outcome int

const (
	Succeed Outcome = iota
	Revert
	Fail  // all gas consumed
	Error // the interpreter reports an error
)

func (o Outcome) String() string { return [...]string{"succeed", "revert", "fail", "error"}[o] }

// OpKind is the kind of an action of a script.
type OpKind int

const (
	Store OpKind = iota
	Transient
	Log
	Destruct
	Touch
	Probe // read all there is to read
	DoCall
)

// Op is an action of a script.
type Op struct {
	Op     OpKind
	A      byte // key, value, ...
	B      byte
	Target tosca.Address // beneficiary or callee
	Kind   tosca.CallKind
	Value  tosca.Value
	Gas    int64 // gas of the call; negative: all but that many
	Input  []byte
	Salt   byte
}

func (o Op) String() string {
	switch o.Op {
	case DoCall:
		return fmt.Sprintf("%v(to=%x value=%v gas=%d input=%x salt=%d)", kindNames[o.Kind], o.Target[:], o.Value.ToBig(), o.Gas, clipB(o.Input), o.Salt)
	case Destruct:
		return fmt.Sprintf("destruct(%x)", o.Target[:])
	}
	return fmt.Sprintf("%s(%d,%d)", [...]string{"store", "transient", "log", "", "touch", "probe"}[o.Op], o.A, o.B)
}

func clipB(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

var kindNames = map[tosca.CallKind]string{tosca.Call: "call", tosca.DelegateCall: "delegatecall", tosca.StaticCall: "staticcall",
	tosca.CallCode: "callcode", tosca.Create: "create", tosca.Create2: "create2"}

// Script is the behavior of a code; it is selected by the first byte of the
// input or, without an input, of the code.
type Script struct {
	Ops    []Op
	End    Outcome
	Use    int64 // gas consumed (if End is not Fail)
	Refund int64
	Output []byte
}

func (s Script) String() string {
	return fmt.Sprintf("{%v %v use=%d refund=%d out=%x/%d}", s.Ops, s.End, s.Use, s.Refund, clipB(s.Output), len(s.Output))
}

// Player is the scripted interpreter. It records all it gets to see.
type Player struct {
	Scripts []Script
	W       *World // if set, monitors of the world are active
	Monitor bool
	Opera   bool // as run by the machinery of go-ethereum, which does not tell the kind
	Block   *tosca.BlockParameters
	Tx      *tosca.Transaction
	Trace   []byte
	Marks   []int // start of the records of the trace
	Fault   string
	frames  []frameInfo
	Nested  int
	snap    []byte
}

type frameInfo struct {
	static bool
	depth  int
}

// Reset prepares the player for a run.
func (p *Player) Reset() {
	p.Trace = p.Trace[:0]
	p.Marks = p.Marks[:0]
	p.Fault = ""
	p.frames = p.frames[:0]
	p.Nested = 0
}

func (p *Player) u(v uint64) { p.Trace = binary.BigEndian.AppendUint64(p.Trace, v) }
func (p *Player) b(b []byte) {
	p.u(uint64(len(b)))
	if len(b) > 64 {
		b = binary.BigEndian.AppendUint64(append([]byte{}, b[:16]...), hash64(b))
	}
	p.Trace = append(p.Trace, b...)
}

func hash64(b []byte) uint64 { return crc64.Checksum(b, crcTable) }

var crcTable = crc64.MakeTable(crc64.ECMA)

func boolU(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (p *Player) fault(f string, a ...any) {
	if p.Fault == "" {
		p.Fault = fmt.Sprintf(f, a...)
	}
}

// Run plays the script of the code.
func (p *Player) Run(q tosca.Parameters) (tosca.Result, error) {
	// record the parameters
	p.Marks = append(p.Marks, len(p.Trace))
	p.Trace = append(p.Trace, "run"...)
	if !p.Opera {
		p.u(uint64(q.Kind))
	}
	p.u(boolU(q.Static))
	p.u(uint64(q.Depth))
	p.u(uint64(q.Gas))
	p.Trace = append(p.Trace, q.Recipient[:]...)
	p.Trace = append(p.Trace, q.Sender[:]...)
	p.Trace = append(p.Trace, q.Value[:]...)
	p.b(q.Input)
	p.b(q.Code)
	// The hash is optional; accounts which do not exist have none.
	if q.CodeHash != nil && (*q.CodeHash != tosca.Hash{} || len(q.Code) > 0) && *q.CodeHash != CodeHash(q.Code) {
		p.fault("code hash %x does not match the code %x", *q.CodeHash, clipB(q.Code))
	}
	if q.BlockParameters != *p.Block {
		p.fault("block parameters changed: %v", q.BlockParameters)
	}
	if q.Origin != p.Tx.Sender || q.GasPrice != p.Tx.GasPrice {
		p.fault("transaction parameters changed: %v", q.TransactionParameters)
	}
	p.u(uint64(len(q.BlobHashes)))
	for _, h := range q.BlobHashes {
		p.Trace = append(p.Trace, h[:]...)
	}
	ctx := q.Context
	if ctx == nil {
		p.fault("no context")
		return tosca.Result{}, nil
	}
	for _, a := range []tosca.Address{q.Recipient, q.Sender} {
		v := ctx.GetBalance(a)
		p.Trace = append(p.Trace, v[:]...)
		p.u(ctx.GetNonce(a))
		p.u(boolU(ctx.IsAddressInAccessList(a)))
	}
	if n := len(p.frames); n > 0 {
		f := p.frames[n-1]
		if f.static && !q.Static {
			p.fault("frame within a static call is not static")
		}
		if q.Depth != f.depth+1 {
			p.fault("depth %d called at depth %d", q.Depth, f.depth)
		}
	}
	if q.Depth > maxDepth {
		p.fault("code executed at depth %d", q.Depth)
	}
	p.frames = append(p.frames, frameInfo{q.Static, q.Depth})
	defer func() { p.frames = p.frames[:len(p.frames)-1] }()

	gas := q.Gas
	if len(q.Code) == 0 {
		return tosca.Result{Success: true, GasLeft: gas}, nil
	}
	index := int(q.Code[0])
	if len(q.Input) > 0 {
		index = int(q.Input[0]) // contracts have a script per method
	}
	if index >= len(p.Scripts) {
		return tosca.Result{Success: true, GasLeft: gas}, nil
	}
	s := &p.Scripts[index]
	refund := tosca.Gas(s.Refund)
	for i := range s.Ops {
		o := &s.Ops[i]
		if q.Static && (o.Op == Store || o.Op == Transient || o.Op == Log || o.Op == Destruct) {
			continue // interpreters reject those
		}
		switch o.Op {
		case Store:
			ctx.SetStorage(q.Recipient, tosca.Key{31: o.A}, tosca.Word{31: o.B})
		case Transient:
			ctx.SetTransientStorage(q.Recipient, tosca.Key{31: o.A}, tosca.Word{31: o.B})
		case Log:
			ctx.EmitLog(tosca.Log{Address: q.Recipient, Topics: []tosca.Hash{{31: o.A}}, Data: []byte{o.B}})
		case Destruct:
			p.Trace = append(p.Trace, byte(boolU(ctx.SelfDestruct(q.Recipient, o.Target))))
		case Touch:
			ctx.AccessAccount(o.Target)
			ctx.AccessStorage(q.Recipient, tosca.Key{31: o.A})
		case Probe:
			p.probe(ctx, &q, o)
		case DoCall:
			if err := p.nested(&q, o, &gas, &refund); err != nil {
				return tosca.Result{}, err
			}
		}
	}
	use := tosca.Gas(s.Use)
	if use > gas {
		return tosca.Result{}, nil // out of gas
	}
	switch s.End {
	case Succeed:
		return tosca.Result{Success: true, Output: s.Output, GasLeft: gas - use, GasRefund: refund}, nil
	case Revert:
		return tosca.Result{Output: s.Output, GasLeft: gas - use}, nil
	case Error:
		return tosca.Result{}, errModel
	}
	return tosca.Result{}, nil
}

// probe records what the context reports, of effects too.
func (p *Player) probe(ctx tosca.RunContext, q *tosca.Parameters, o *Op) {
	p.Marks = append(p.Marks, len(p.Trace))
	p.Trace = append(p.Trace, "see"...)
	word := func(v [32]byte) { p.Trace = append(p.Trace, v[:]...) }
	for _, a := range []tosca.Address{q.Recipient, q.Sender, o.Target} {
		p.u(boolU(ctx.AccountExists(a)))
		word(ctx.GetBalance(a))
		p.u(ctx.GetNonce(a))
		p.b(ctx.GetCode(a))
		word(ctx.GetCodeHash(a))
		p.u(uint64(ctx.GetCodeSize(a)))
		p.u(boolU(ctx.HasSelfDestructed(a)))
		p.u(boolU(ctx.IsAddressInAccessList(a)))
		for k := byte(0); k < 4; k++ {
			key := tosca.Key{31: k}
			word(ctx.GetStorage(a, key))
			word(ctx.GetCommittedStorage(a, key))
			word(ctx.GetTransientStorage(a, key))
			x, y := ctx.IsSlotInAccessList(a, key)
			p.u(boolU(x))
			p.u(boolU(y))
		}
	}
	for _, n := range []int64{0, 1, 1<<33 + 76} {
		word(ctx.GetBlockHash(n))
	}
	for i := 0; i < 2; i++ {
		p.u(boolU(bool(ctx.AccessAccount(o.Target))))
		p.u(boolU(bool(ctx.AccessStorage(o.Target, tosca.Key{31: o.A}))))
	}
	if q.Static {
		return
	}
	for k := byte(0); k < 4; k++ { // all changes of a slot
		key := tosca.Key{31: k}
		for _, v := range []byte{7, 8, 7, 0, 7, 0, 0, 9, 0, 8, 8, 9, 7, 1 + k} {
			p.u(uint64(ctx.SetStorage(q.Recipient, key, tosca.Word{31: v})))
			word(ctx.GetStorage(q.Recipient, key))
		}
	}
	n := ctx.CreateSnapshot()
	ctx.SetStorage(q.Recipient, tosca.Key{31: 1}, tosca.Word{31: 99})
	ctx.SetTransientStorage(q.Recipient, tosca.Key{31: 1}, tosca.Word{31: 98})
	word(ctx.GetTransientStorage(q.Recipient, tosca.Key{31: 1}))
	ctx.RestoreSnapshot(n)
	word(ctx.GetStorage(q.Recipient, tosca.Key{31: 1}))
	word(ctx.GetTransientStorage(q.Recipient, tosca.Key{31: 1}))
}

func (p *Player) nested(q *tosca.Parameters, o *Op, gas, refund *tosca.Gas) error {
	create := o.Kind == tosca.Create || o.Kind == tosca.Create2
	ctx := q.Context
	if q.Static && (create || o.Kind == tosca.Call && o.Value != tosca.Value{}) {
		return nil // rejected by interpreters
	}
	if create && less(ctx.GetBalance(q.Recipient), o.Value) {
		return nil // not attempted by interpreters
	}
	g := tosca.Gas(o.Gas)
	if o.Gas < 0 {
		g = *gas + g
	}
	if g > *gas {
		g = *gas
	}
	if g < 0 {
		g = 0
	}
	c := tosca.CallParameters{Sender: q.Recipient, Recipient: o.Target, Value: o.Value, Input: o.Input, Gas: g}
	switch o.Kind {
	case tosca.CallCode:
		c.Recipient, c.CodeAddress = q.Recipient, o.Target
	case tosca.DelegateCall:
		c.Sender, c.Value = q.Sender, q.Value
		c.Recipient, c.CodeAddress = q.Recipient, o.Target
	case tosca.StaticCall:
		c.Value = tosca.Value{}
	case tosca.Create, tosca.Create2:
		c.Recipient = tosca.Address{}
		if o.Kind == tosca.Create2 {
			c.Salt = tosca.Hash{31: o.Salt}
		}
	}
	kind := o.Kind
	if p.Opera {
		// interpreters do so
		if c.CodeAddress = o.Target; q.Static && kind == tosca.Call {
			kind = tosca.StaticCall
		}
	}
	var creator *tosca.Address
	if create {
		creator = &c.Sender
	}
	var before []byte
	var nonce uint64
	if p.Monitor {
		before = append(before, p.W.Digest(false, creator)...)
		nonce = p.W.GetNonce(c.Sender)
	}
	p.Nested++
	res, err := ctx.Call(kind, c)
	*gas -= g - res.GasLeft
	*refund += res.GasRefund
	if p.Monitor {
		if !res.Success || err != nil {
			if after := p.W.Digest(false, creator); !bytes.Equal(before, after) {
				p.fault("failed %v changed the state:\n before %x\n after  %x", o, before, after)
			}
			if n := p.W.GetNonce(c.Sender); create && n != nonce && n != nonce+1 {
				p.fault("nonce of a creator changed from %d to %d", nonce, n)
			}
		} else if o.Kind == tosca.StaticCall || q.Static {
			if after := p.W.Digest(false, nil); !bytes.Equal(before, after) {
				p.fault("static call %v changed the state:\n before %x\n after  %x", o, before, after)
			}
		}
	}
	p.Marks = append(p.Marks, len(p.Trace))
	p.Trace = append(p.Trace, "res"...)
	p.u(boolU(res.Success))
	p.u(uint64(res.GasLeft))
	p.u(uint64(res.GasRefund))
	p.b(res.Output)
	if create && res.Success {
		p.Trace = append(p.Trace, res.CreatedAddress[:]...)
	}
	p.u(boolU(err != nil))
	if res.GasLeft < 0 || res.GasLeft > g {
		p.fault("%v with %d gas left %d gas", o, g, res.GasLeft)
	}
	return err
}

// Diff describes the first difference of two traces.
func Diff(a, b *Player) string {
	if bytes.Equal(a.Trace, b.Trace) {
		return ""
	}
	rec := func(p *Player, i int) string {
		if i >= len(p.Marks) {
			return "nothing"
		}
		e := len(p.Trace)
		if i+1 < len(p.Marks) {
			e = p.Marks[i+1]
		}
		return string(p.Trace[p.Marks[i]:p.Marks[i]+3]) + fmt.Sprintf(" %x", p.Trace[p.Marks[i]+3:e])
	}
	for i := 0; i < len(a.Marks) || i < len(b.Marks); i++ {
		if x, y := rec(a, i), rec(b, i); x != y {
			return fmt.Sprintf("event %d: want %s, got %s", i, x, y)
		}
	}
	return "traces differ"
}
