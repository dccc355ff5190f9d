package engine

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
)

func val(v uint64) tosca.Value { return tosca.Value(ref.FromU64(v)) }

// StdWorld is the default initial world.
var StdWorld = WorldSpec{
	Accts: []Acct{
		{Addr: Self, Balance: val(1000), Nonce: 3},
		{Addr: Caller, Balance: val(500), Nonce: 1},
		{Addr: Rich, Balance: val(123456), Nonce: 9, Code: seq(0x30, 70)},
		{Addr: Poor, Balance: val(1)},
		{Addr: Nonced, Nonce: 1},
		{Addr: Coder, Code: seq(0x70, 33)},
	},
	Slots: []Slot{
		{Addr: Self, Key: tosca.Key(ref.FromU64(0)), Orig: tosca.Word(ref.FromU64(5)), Cur: tosca.Word(ref.FromU64(5))},
		{Addr: Self, Key: tosca.Key(ref.FromU64(1)), Orig: tosca.Word(ref.FromU64(7)), Cur: tosca.Word(ref.FromU64(8)), Trans: tosca.Word(ref.FromU64(3)), Warm: true},
		{Addr: Rich, Key: tosca.Key(ref.FromU64(0)), Orig: tosca.Word(ref.FromU64(0x99)), Cur: tosca.Word(ref.FromU64(0x99))},
	},
}

// Asm concatenates program pieces: byte values, byte slices, words (PUSH32)
// and addresses (PUSH20).
func Asm(parts ...any) (code []byte) {
	for _, p := range parts {
		switch v := p.(type) {
		case int:
			code = append(code, byte(v))
		case byte:
			code = append(code, v)
		case []byte:
			code = append(code, v...)
		case ref.W:
			code = append(code, PushW(v)...)
		case tosca.Address:
			code = append(code, 0x73)
			code = append(code, v[:]...)
		default:
			panic("asm: unsupported part")
		}
	}
	return
}

// PushW pushes a word with the shortest push of at least one byte.
func PushW(w ref.W) []byte {
	i := 0
	for i < 31 && w[i] == 0 {
		i++
	}
	return append([]byte{byte(0x60 + 31 - i)}, w[i:]...)
}

// Push pushes a small constant.
func Push(v uint64) []byte { return PushW(ref.FromU64(v)) }

// Push32 pushes a word with PUSH32.
func Push32(w ref.W) []byte { return append([]byte{0x7f}, w[:]...) }

// RetTop stores the top n stack elements to memory and returns them.
func RetTop(n int) (code []byte) {
	for i := 0; i < n; i++ {
		code = append(code, Push(uint64(32*i))...)
		code = append(code, 0x52)
	}
	code = append(code, Push(uint64(32*n))...)
	return append(code, 0x60, 0x00, 0xf3)
}
