package ref

import (
	"encoding/binary"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"golang.org/x/crypto/sha3"
)

// Status is the way an execution ended.
type Status int

const (
	Running Status = iota
	Stopped
	Returned
	SelfDestructed
	Reverted
	Failed
)

func (s Status) String() string {
	return [...]string{"running", "stopped", "returned", "selfdestructed", "reverted", "failed"}[s]
}

// Opcode properties: minimum stack size, stack delta, static gas. Gas is per
// revision where it changed.
type opInfo struct {
	defined bool
	since   tosca.Revision
	pops    int
	pushes  int
	gas     int64
	gasBerl int64 // static gas from Berlin on (access cost excluded)
	writes  bool  // rejected in static mode
}

var ops = buildOps()

// Info exposes the operand counts of an opcode in a given revision.
func Info(op byte, rev tosca.Revision) (pops, pushes int, defined bool) {
	i := &ops[op]
	return i.pops, i.pushes, i.defined && rev >= i.since
}

func buildOps() (t [256]opInfo) {
	set := func(op byte, pops, pushes int, gas int64) {
		t[op] = opInfo{defined: true, pops: pops, pushes: pushes, gas: gas, gasBerl: gas}
	}
	set(0x00, 0, 0, 0)
	for _, o := range []byte{0x01, 0x03, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d} {
		set(o, 2, 1, 3)
	}
	for _, o := range []byte{0x02, 0x04, 0x05, 0x06, 0x07, 0x0b} {
		set(o, 2, 1, 5)
	}
	set(0x08, 3, 1, 8)
	set(0x09, 3, 1, 8)
	set(0x0a, 2, 1, 10)
	set(0x15, 1, 1, 3)
	set(0x19, 1, 1, 3)
	set(0x20, 2, 1, 30)
	for _, o := range []byte{0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x58, 0x59, 0x5a} {
		set(o, 0, 1, 2)
	}
	set(0x31, 1, 1, 700)
	set(0x35, 1, 1, 3)
	set(0x37, 3, 0, 3)
	set(0x39, 3, 0, 3)
	set(0x3b, 1, 1, 700)
	set(0x3c, 4, 0, 700)
	set(0x3e, 3, 0, 3)
	set(0x3f, 1, 1, 700)
	set(0x40, 1, 1, 20)
	set(0x47, 0, 1, 5)
	set(0x48, 0, 1, 2)
	t[0x48].since = tosca.R10_London
	set(0x49, 1, 1, 3)
	t[0x49].since = tosca.R13_Cancun
	set(0x4a, 0, 1, 2)
	t[0x4a].since = tosca.R13_Cancun
	set(0x50, 1, 0, 2)
	set(0x51, 1, 1, 3)
	set(0x52, 2, 0, 3)
	set(0x53, 2, 0, 3)
	set(0x54, 1, 1, 800)
	set(0x55, 2, 0, 0)
	set(0x56, 1, 0, 8)
	set(0x57, 2, 0, 10)
	set(0x5b, 0, 0, 1)
	set(0x5c, 1, 1, 100)
	t[0x5c].since = tosca.R13_Cancun
	set(0x5d, 2, 0, 100)
	t[0x5d].since = tosca.R13_Cancun
	set(0x5e, 3, 0, 3)
	t[0x5e].since = tosca.R13_Cancun
	set(0x5f, 0, 1, 2)
	t[0x5f].since = tosca.R12_Shanghai
	for n := 0; n < 32; n++ {
		set(byte(0x60+n), 0, 1, 3)
	}
	for n := 1; n <= 16; n++ {
		set(byte(0x7f+n), n, n+1, 3)
		set(byte(0x8f+n), n+1, n+1, 3)
	}
	for n := 0; n <= 4; n++ {
		set(byte(0xa0+n), 2+n, 0, int64(375*(n+1)))
		t[0xa0+n].writes = true
	}
	set(0xf0, 3, 1, 32000)
	set(0xf1, 7, 1, 700)
	set(0xf2, 7, 1, 700)
	set(0xf3, 2, 0, 0)
	set(0xf4, 6, 1, 700)
	set(0xf5, 4, 1, 32000)
	set(0xfa, 6, 1, 700)
	set(0xfd, 2, 0, 0)
	set(0xff, 1, 0, 5000)
	for _, o := range []byte{0x31, 0x3b, 0x3c, 0x3f, 0x54, 0xf1, 0xf2, 0xf4, 0xfa} {
		t[o].gasBerl = 0 // replaced by the EIP-2929 access cost
	}
	for _, o := range []byte{0x55, 0x5d, 0xf0, 0xf5, 0xff} {
		t[o].writes = true
	}
	return
}

// Quirks lists the points where an implementation's division of labour with
// its host leaves a choice; they are part of the interface and not of the EVM.
type Quirks struct{}

// State is the complete state of one frame.
type State struct {
	P       *tosca.Parameters
	Host    tosca.RunContext
	Status  Status
	PC      uint64
	Gas     int64
	Refund  int64
	Stack   []W // last element is the top
	Mem     []byte
	RetData []byte // return data of the last call
	Out     []byte
	Steps   int
	dests   []bool // lazily computed jump destinations

	// GasTrace, if non-nil, collects the gas used after every charge point.
	GasTrace *[]int64
	// OnStep, if set, is called with the op before every step.
	OnStep func(s *State, op byte)
}

// New creates the start state of a frame.
func New(p *tosca.Parameters) *State {
	return &State{P: p, Host: p.Context, Gas: int64(p.Gas)}
}

// JumpDests computes the valid jump destinations of code.
func JumpDests(code []byte) []bool {
	d := make([]bool, len(code))
	for i := 0; i < len(code); i++ {
		switch c := code[i]; {
		case c == 0x5b:
			d[i] = true
		case c >= 0x60 && c <= 0x7f:
			i += int(c - 0x5f)
		}
	}
	return d
}

// Run executes to the end and converts the result.
func (s *State) Run(maxSteps int) tosca.Result {
	for s.Status == Running && s.Steps < maxSteps {
		s.Step()
	}
	switch s.Status {
	case Stopped, Returned, SelfDestructed:
		return tosca.Result{Success: true, Output: s.Out, GasLeft: tosca.Gas(s.Gas), GasRefund: tosca.Gas(s.Refund)}
	case Reverted:
		return tosca.Result{Output: s.Out, GasLeft: tosca.Gas(s.Gas)}
	}
	return tosca.Result{}
}

type abort struct{}

func (s *State) fail() { panic(abort{}) }

func (s *State) use(g int64) {
	if g < 0 || g > s.Gas {
		if s.GasTrace != nil {
			*s.GasTrace = append(*s.GasTrace, g)
		}
		s.fail()
	}
	s.Gas -= g
	if s.GasTrace != nil && g > 0 {
		*s.GasTrace = append(*s.GasTrace, int64(s.P.Gas)-s.Gas)
	}
}

func (s *State) pop() W {
	w := s.Stack[len(s.Stack)-1]
	s.Stack = s.Stack[:len(s.Stack)-1]
	return w
}
func (s *State) push(w W) { s.Stack = append(s.Stack, w) }

func memCost(size uint64) int64 {
	w := (size + 31) / 32
	return int64(3*w + w*w/512)
}

const memLimit = 0x1FFFFFFFE0 // beyond this no 63-bit gas amount suffices in practice

// memCharge returns the expansion cost and performs bounds checks; expand
// grows the memory afterwards.
func (s *State) memNeed(off, size *W) (o, n uint64) {
	n, ok := size.U64()
	if !ok {
		s.fail()
	}
	if n == 0 {
		return 0, 0
	}
	o, ok = off.U64()
	if !ok || o > memLimit || n > memLimit || o+n > memLimit {
		s.fail()
	}
	return o, n
}

func (s *State) expand(o, n uint64) {
	if n == 0 {
		return
	}
	end := (o + n + 31) / 32 * 32
	if end <= uint64(len(s.Mem)) {
		return
	}
	s.use(memCost(end) - memCost(uint64(len(s.Mem))))
	if s.Gas > 0 && end > 1<<26 {
		panic("reference: memory too large for exploration")
	}
	s.Mem = append(s.Mem, make([]byte, end-uint64(len(s.Mem)))...)
}

func words(n uint64) int64 { return int64((n + 31) / 32) }

// slice reads n bytes of src at a word-sized offset, zero padded.
func slice(src []byte, off *W, n uint64) []byte {
	res := make([]byte, n)
	if o, ok := off.U64(); ok && o < uint64(len(src)) {
		copy(res, src[o:])
	}
	return res
}

func addr(w *W) (a tosca.Address) {
	copy(a[:], w[12:])
	return
}

func addrWord(a tosca.Address) (w W) {
	copy(w[12:], a[:])
	return
}

func (s *State) empty(a tosca.Address) bool {
	return s.Host.GetNonce(a) == 0 && s.Host.GetBalance(a) == tosca.Value{} && s.Host.GetCodeSize(a) == 0
}

func (s *State) at(r tosca.Revision) bool { return s.P.Revision >= r }

// accessAccount charges the EIP-2929 account access cost.
func (s *State) accessAccount(a tosca.Address) {
	if s.at(tosca.R09_Berlin) {
		if s.Host.AccessAccount(a) == tosca.WarmAccess {
			s.use(100)
		} else {
			s.use(2600)
		}
	}
}

// Step executes one instruction.
func (s *State) Step() {
	if s.Status != Running {
		return
	}
	s.Steps++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				s.Status = Failed
				s.Gas = 0
				s.Refund = 0
				s.Out = nil
				return
			}
			panic(r)
		}
	}()
	code := s.P.Code
	op := byte(0)
	if s.PC < uint64(len(code)) {
		op = code[s.PC]
	}
	if s.OnStep != nil {
		s.OnStep(s, op)
	}
	in := &ops[op]
	if !in.defined || !s.at(in.since) {
		s.fail()
	}
	if len(s.Stack) < in.pops || len(s.Stack)-in.pops+in.pushes > 1024 {
		s.fail()
	}
	if in.writes && s.P.Static {
		s.fail()
	}
	if s.at(tosca.R09_Berlin) {
		s.use(in.gasBerl)
	} else {
		s.use(in.gas)
	}
	next := s.PC + 1
	P := s.P

	switch {
	case op >= 0x60 && op <= 0x7f:
		n := int(op - 0x5f)
		var w W
		for i := 0; i < n; i++ {
			if p := s.PC + 1 + uint64(i); p < uint64(len(code)) {
				w[32-n+i] = code[p]
			}
		}
		s.push(w)
		next += uint64(n)
	case op >= 0x80 && op <= 0x8f:
		s.push(s.Stack[len(s.Stack)-int(op-0x7f)])
	case op >= 0x90 && op <= 0x9f:
		i, j := len(s.Stack)-1, len(s.Stack)-1-int(op-0x8f)
		s.Stack[i], s.Stack[j] = s.Stack[j], s.Stack[i]
	case op == 0x00:
		s.Status = Stopped
	case op >= 0x01 && op <= 0x1d:
		a := make([]W, in.pops)
		for i := range a {
			a[i] = s.pop()
		}
		if op == 0x0a {
			s.use(50 * int64((a[1].Big().BitLen()+7)/8))
		}
		s.push(ArithOp(op, a))
	case op == 0x20:
		off, size := s.pop(), s.pop()
		o, n := s.memNeed(&off, &size)
		s.use(6 * words(n))
		s.expand(o, n)
		s.push(W(Keccak(s.Mem[o : o+n])))
	case op == 0x30:
		s.push(addrWord(P.Recipient))
	case op == 0x31:
		w := s.pop()
		s.accessAccount(addr(&w))
		s.push(W(s.Host.GetBalance(addr(&w))))
	case op == 0x32:
		s.push(addrWord(P.Origin))
	case op == 0x33:
		s.push(addrWord(P.Sender))
	case op == 0x34:
		s.push(W(P.Value))
	case op == 0x35:
		off := s.pop()
		var w W
		copy(w[:], slice(P.Input, &off, 32))
		s.push(w)
	case op == 0x36:
		s.push(FromU64(uint64(len(P.Input))))
	case op == 0x37 || op == 0x39:
		mo, so, sz := s.pop(), s.pop(), s.pop()
		o, n := s.memNeed(&mo, &sz)
		s.use(3 * words(n))
		s.expand(o, n)
		src := []byte(P.Input)
		if op == 0x39 {
			src = P.Code
		}
		copy(s.Mem[o:o+n], slice(src, &so, n))
	case op == 0x38:
		s.push(FromU64(uint64(len(P.Code))))
	case op == 0x3a:
		s.push(W(P.GasPrice))
	case op == 0x3b:
		w := s.pop()
		s.accessAccount(addr(&w))
		s.push(FromU64(uint64(s.Host.GetCodeSize(addr(&w)))))
	case op == 0x3c:
		aw, mo, so, sz := s.pop(), s.pop(), s.pop(), s.pop()
		o, n := s.memNeed(&mo, &sz)
		s.use(3 * words(n))
		s.expand(o, n)
		s.accessAccount(addr(&aw))
		copy(s.Mem[o:o+n], slice(s.Host.GetCode(addr(&aw)), &so, n))
	case op == 0x3d:
		s.push(FromU64(uint64(len(s.RetData))))
	case op == 0x3e:
		mo, so, sz := s.pop(), s.pop(), s.pop()
		o, n := s.memNeed(&mo, &sz)
		from, ok := so.U64()
		if !ok || from > uint64(len(s.RetData)) || n > uint64(len(s.RetData))-from {
			s.fail()
		}
		s.use(3 * words(n))
		s.expand(o, n)
		copy(s.Mem[o:o+n], s.RetData[from:from+n])
	case op == 0x3f:
		w := s.pop()
		s.accessAccount(addr(&w))
		if s.empty(addr(&w)) {
			s.push(W{})
		} else {
			s.push(W(s.Host.GetCodeHash(addr(&w))))
		}
	case op == 0x40:
		w := s.pop()
		n, ok := w.U64()
		cur := uint64(P.BlockNumber)
		if !ok || n >= cur || cur-n > 256 {
			s.push(W{})
		} else {
			s.push(W(s.Host.GetBlockHash(int64(n))))
		}
	case op == 0x41:
		s.push(addrWord(P.Coinbase))
	case op == 0x42:
		s.push(FromU64(uint64(P.Timestamp)))
	case op == 0x43:
		s.push(FromU64(uint64(P.BlockNumber)))
	case op == 0x44:
		s.push(W(P.PrevRandao))
	case op == 0x45:
		s.push(FromU64(uint64(P.GasLimit)))
	case op == 0x46:
		s.push(W(P.ChainID))
	case op == 0x47:
		s.push(W(s.Host.GetBalance(P.Recipient)))
	case op == 0x48:
		s.push(W(P.BaseFee))
	case op == 0x49:
		w := s.pop()
		if i, ok := w.U64(); ok && i < uint64(len(P.BlobHashes)) {
			s.push(W(P.BlobHashes[i]))
		} else {
			s.push(W{})
		}
	case op == 0x4a:
		s.push(W(P.BlobBaseFee))
	case op == 0x50:
		s.pop()
	case op == 0x51:
		off := s.pop()
		sz := FromU64(32)
		o, n := s.memNeed(&off, &sz)
		s.expand(o, n)
		s.push(W(s.Mem[o : o+32]))
	case op == 0x52:
		off, v := s.pop(), s.pop()
		sz := FromU64(32)
		o, n := s.memNeed(&off, &sz)
		s.expand(o, n)
		copy(s.Mem[o:], v[:])
	case op == 0x53:
		off, v := s.pop(), s.pop()
		sz := FromU64(1)
		o, n := s.memNeed(&off, &sz)
		s.expand(o, n)
		s.Mem[o] = v[31]
	case op == 0x54:
		k := s.pop()
		if s.at(tosca.R09_Berlin) {
			if s.Host.AccessStorage(P.Recipient, tosca.Key(k)) == tosca.WarmAccess {
				s.use(100)
			} else {
				s.use(2100)
			}
		}
		s.push(W(s.Host.GetStorage(P.Recipient, tosca.Key(k))))
	case op == 0x55:
		if s.Gas <= 2300 {
			if s.GasTrace != nil {
				*s.GasTrace = append(*s.GasTrace, int64(P.Gas)-s.Gas+2300)
			}
			s.fail()
		}
		k, v := s.pop(), s.pop()
		if s.GasTrace != nil {
			*s.GasTrace = append(*s.GasTrace, int64(P.Gas)-s.Gas+2300, int64(P.Gas)-s.Gas+2301)
		}
		s.sstore(tosca.Key(k), tosca.Word(v))
	case op == 0x56 || op == 0x57:
		d := s.pop()
		if op == 0x57 {
			c := s.pop()
			if c.IsZero() {
				break
			}
		}
		if s.dests == nil {
			s.dests = JumpDests(code)
		}
		t, ok := d.U64()
		if !ok || t >= uint64(len(code)) || !s.dests[t] {
			s.fail()
		}
		next = t
	case op == 0x58:
		s.push(FromU64(s.PC))
	case op == 0x59:
		s.push(FromU64(uint64(len(s.Mem))))
	case op == 0x5a:
		s.push(FromU64(uint64(s.Gas)))
	case op == 0x5b:
	case op == 0x5c:
		k := s.pop()
		s.push(W(s.Host.GetTransientStorage(P.Recipient, tosca.Key(k))))
	case op == 0x5d:
		k, v := s.pop(), s.pop()
		s.Host.SetTransientStorage(P.Recipient, tosca.Key(k), tosca.Word(v))
	case op == 0x5e:
		d, f, sz := s.pop(), s.pop(), s.pop()
		do, n := s.memNeed(&d, &sz)
		fo, _ := s.memNeed(&f, &sz)
		s.use(3 * words(n))
		m := do
		if fo > m {
			m = fo
		}
		s.expand(m, n)
		tmp := append([]byte{}, s.Mem[fo:fo+n]...)
		copy(s.Mem[do:do+n], tmp)
	case op == 0x5f:
		s.push(W{})
	case op >= 0xa0 && op <= 0xa4:
		off, sz := s.pop(), s.pop()
		topics := make([]tosca.Hash, op-0xa0)
		for i := range topics {
			topics[i] = tosca.Hash(s.pop())
		}
		o, n := s.memNeed(&off, &sz)
		s.use(8 * int64(n))
		s.expand(o, n)
		s.Host.EmitLog(tosca.Log{Address: P.Recipient, Topics: topics, Data: append([]byte{}, s.Mem[o:o+n]...)})
	case op == 0xf0 || op == 0xf5:
		s.create(op)
	case op == 0xf1 || op == 0xf2 || op == 0xf4 || op == 0xfa:
		s.call(op)
	case op == 0xf3 || op == 0xfd:
		off, sz := s.pop(), s.pop()
		o, n := s.memNeed(&off, &sz)
		s.expand(o, n)
		s.Out = append([]byte{}, s.Mem[o:o+n]...)
		s.Status = Returned
		if op == 0xfd {
			s.Status = Reverted
		}
	case op == 0xff:
		w := s.pop()
		b := addr(&w)
		if s.at(tosca.R09_Berlin) {
			if s.Host.AccessAccount(b) == tosca.ColdAccess {
				s.use(2600)
			}
		}
		if s.empty(b) && s.Host.GetBalance(P.Recipient) != (tosca.Value{}) {
			s.use(25000)
		}
		first := s.Host.SelfDestruct(P.Recipient, b)
		if first && !s.at(tosca.R10_London) {
			s.Refund += 24000
		}
		s.Status = SelfDestructed
	default:
		panic("reference: unhandled opcode")
	}
	if s.Status == Running {
		s.PC = next
	}
}

// SstoreCost returns gas (excluding the cold surcharge) and refund of a store
// following EIP-2200, EIP-2929 and EIP-3529.
func SstoreCost(rev tosca.Revision, orig, cur, new tosca.Word) (gas, refund int64) {
	sload, reset := int64(800), int64(5000)
	clears := int64(15000)
	if rev >= tosca.R09_Berlin {
		sload, reset = 100, 2900
	}
	if rev >= tosca.R10_London {
		clears = 4800
	}
	zero := tosca.Word{}
	if cur == new {
		return sload, 0
	}
	if orig == cur {
		if orig == zero {
			return 20000, 0
		}
		if new == zero {
			return reset, clears
		}
		return reset, 0
	}
	if orig != zero {
		if cur == zero {
			refund -= clears
		} else if new == zero {
			refund += clears
		}
	}
	if orig == new {
		if orig == zero {
			refund += 20000 - sload
		} else {
			refund += reset - sload
		}
	}
	return sload, refund
}

func (s *State) sstore(k tosca.Key, v tosca.Word) {
	a := s.P.Recipient
	cost := int64(0)
	if s.at(tosca.R09_Berlin) && s.Host.AccessStorage(a, k) == tosca.ColdAccess {
		cost = 2100
	}
	//lint:ignore SA1019 the reference derives the cost from first principles
	orig := s.Host.GetCommittedStorage(a, k)
	cur := s.Host.GetStorage(a, k)
	g, r := SstoreCost(s.P.Revision, orig, cur, v)
	s.use(cost + g)
	s.Refund += r
	s.Host.SetStorage(a, k, v)
}

func (s *State) create(op byte) {
	value, off, sz := s.pop(), s.pop(), s.pop()
	var salt W
	kind := tosca.Create
	if op == 0xf5 {
		salt = s.pop()
		kind = tosca.Create2
	}
	o, n := s.memNeed(&off, &sz)
	if s.at(tosca.R12_Shanghai) {
		if n > 49152 {
			s.fail()
		}
		s.use(2 * words(n))
	}
	if op == 0xf5 {
		s.use(6 * words(n))
	}
	s.expand(o, n)
	bal := W(s.Host.GetBalance(s.P.Recipient))
	s.RetData = nil
	if bal.Less(&value) {
		s.push(W{})
		return
	}
	gas := s.Gas - s.Gas/64
	res, err := s.Host.Call(kind, tosca.CallParameters{
		Sender: s.P.Recipient,
		Value:  tosca.Value(value),
		Input:  append([]byte{}, s.Mem[o:o+n]...),
		Gas:    tosca.Gas(gas),
		Salt:   tosca.Hash(salt),
	})
	if err != nil {
		panic("reference: host errors are not modelled")
	}
	s.Gas += int64(res.GasLeft) - gas
	s.Refund += int64(res.GasRefund)
	if res.Success {
		s.push(addrWord(res.CreatedAddress))
	} else {
		s.RetData = res.Output
		s.push(W{})
	}
}

func (s *State) call(op byte) {
	P := s.P
	gw, aw := s.pop(), s.pop()
	var value W
	if op == 0xf1 || op == 0xf2 {
		value = s.pop()
	}
	io, is, oo, os := s.pop(), s.pop(), s.pop(), s.pop()
	if op == 0xf1 && P.Static && !value.IsZero() {
		s.fail()
	}
	in, inN := s.memNeed(&io, &is)
	out, outN := s.memNeed(&oo, &os)
	end, endN := in, inN
	if out+outN > in+inN {
		end, endN = out, outN
	}
	s.expand(end, endN)
	to := addr(&aw)
	s.accessAccount(to)
	if !value.IsZero() {
		s.use(9000)
		if op == 0xf1 && s.empty(to) {
			s.use(25000)
		}
	}
	gas := s.Gas - s.Gas/64
	if g, ok := gw.U64(); ok && g < uint64(gas) {
		gas = int64(g)
	}
	s.Gas -= gas
	if !value.IsZero() {
		gas += 2300
	}
	s.RetData = nil
	bal := W(s.Host.GetBalance(P.Recipient))
	if bal.Less(&value) {
		s.Gas += gas
		s.push(W{})
		return
	}
	cp := tosca.CallParameters{
		Sender: P.Recipient, Recipient: to, CodeAddress: to,
		Value: tosca.Value(value), Gas: tosca.Gas(gas),
		Input: append([]byte{}, s.Mem[in:in+inN]...),
	}
	var kind tosca.CallKind
	switch op {
	case 0xf1:
		kind = tosca.Call
		if P.Static {
			kind = tosca.StaticCall
		}
	case 0xf2:
		kind = tosca.CallCode
		cp.Recipient = P.Recipient
	case 0xf4:
		kind = tosca.DelegateCall
		cp.Recipient, cp.Sender, cp.Value = P.Recipient, P.Sender, P.Value
	default:
		kind = tosca.StaticCall
	}
	res, err := s.Host.Call(kind, cp)
	if err != nil {
		panic("reference: host errors are not modelled")
	}
	s.Gas += int64(res.GasLeft)
	s.Refund += int64(res.GasRefund)
	s.RetData = append([]byte{}, res.Output...)
	copy(s.Mem[out:out+outN], res.Output)
	s.push(boolWord(res.Success))
}

// Keccak hashes with the crypto shim (validated against test vectors).
func Keccak(b []byte) (h [32]byte) {
	k := sha3.NewLegacyKeccak256()
	k.Write(b)
	k.Sum(h[:0])
	return
}

var _ = binary.BigEndian

// Defined reports whether an instruction exists in a revision.
func Defined(op byte, rev tosca.Revision) bool { return ops[op].defined && rev >= ops[op].since }
