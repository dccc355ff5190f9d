package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"github.com/holiman/uint256"
	"pgregory.net/rand"
	"verif/ctgen"
	"verif/engine"
)

// P18: the value types everything else is built from: 256-bit arithmetic,
// conversions, text forms, classification of storage updates and operations.

func init() {
	checks["P18"] = check{"", func(x *engine.Explorer) {
		c := &typeCheck{x: x, seen: map[string]int{}}
		c.arithmetic()
		c.conversions()
		c.text()
		c.enums()
		c.storageStatus()
		c.opcodes()
		c.helpers()
	}}
}

type typeCheck struct {
	x    *engine.Explorer
	mu   sync.Mutex
	seen map[string]int
}

func (c *typeCheck) report(family, op, what, want, got string) {
	c.mu.Lock()
	c.seen[family+op]++
	n := c.seen[family+op]
	c.mu.Unlock()
	if n > 2 {
		return
	}
	data, _ := json.Marshal(map[string]any{"family": family, "operation": op, "input": what})
	c.x.Report(engine.Finding{VM: "types", Family: family, What: op + " of " + what, Want: want, Got: got, Case: data})
}

func (c *typeCheck) same(family, op, what string, want, got any) {
	if w, g := fmt.Sprint(want), fmt.Sprint(got); w != g {
		c.report(family, op, what, w, g)
	}
}

// guard calls f and reports panics.
func (c *typeCheck) guard(family, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			c.report(family, "panic", what, "no panic", fmt.Sprint(e))
		}
	}()
	f()
}

// panics tells whether f panics.
func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// corner256 lists 256-bit values around everything the operations
// distinguish: word boundaries, sign bits, byte counts and shift widths.
func corner256(rich bool) []*big.Int {
	seen := map[string]bool{}
	var res []*big.Int
	add := func(v *big.Int) {
		v = new(big.Int).Mod(v, two256)
		if !seen[v.String()] {
			seen[v.String()] = true
			res = append(res, v)
		}
	}
	span := int64(1)
	if rich {
		span = 2
	}
	shifts := []uint{0, 5, 8, 31, 63, 64, 127, 128, 160, 191, 192, 255, 256}
	if rich {
		shifts = append(shifts, 1, 2, 3, 7, 16, 32, 33, 62, 65, 96, 129, 159, 161, 190, 193, 224, 248, 254)
	}
	for _, s := range shifts {
		p := new(big.Int).Lsh(big.NewInt(1), s)
		for d := -span; d <= span; d++ {
			add(new(big.Int).Add(p, big.NewInt(d)))
			if rich {
				add(new(big.Int).Sub(new(big.Int).Neg(p), big.NewInt(d)))
			}
		}
		add(new(big.Int).Neg(p))
	}
	// all words different, alternating words, alternating bits
	for _, s := range []string{
		"0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20",
		"ffffffffffffffff0000000000000000ffffffffffffffff0000000000000000",
		"0000000000000000ffffffffffffffff0000000000000000ffffffffffffffff",
		"5555555555555555555555555555555555555555555555555555555555555555",
		"8000000000000001800000000000000180000000000000018000000000000001",
	} {
		v, _ := new(big.Int).SetString(s, 16)
		add(v)
	}
	for _, v := range []int64{3, 10, 30, 31, 32, 33, 1000} {
		add(big.NewInt(v))
	}
	return res
}

func signed(v *big.Int) *big.Int {
	if v.Bit(255) == 1 {
		return new(big.Int).Sub(v, two256)
	}
	return v
}

func unsigned(v *big.Int) *big.Int { return new(big.Int).Mod(v, two256) }

func value32(v *big.Int) (r tosca.Value) { v.FillBytes(r[:]); return }

type binary256 struct {
	name string
	want func(a, b *big.Int) *big.Int
	got  func(a, b common.U256) common.U256
}

func (c *typeCheck) arithmetic() {
	zero := func(b *big.Int, f func() *big.Int) *big.Int {
		if b.Sign() == 0 {
			return b
		}
		return f()
	}
	ops := []binary256{
		{"Add", func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }, common.U256.Add},
		{"Sub", func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }, common.U256.Sub},
		{"Mul", func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }, common.U256.Mul},
		{"Div", func(a, b *big.Int) *big.Int { return zero(b, func() *big.Int { return new(big.Int).Div(a, b) }) }, common.U256.Div},
		{"Mod", func(a, b *big.Int) *big.Int { return zero(b, func() *big.Int { return new(big.Int).Mod(a, b) }) }, common.U256.Mod},
		{"SDiv", func(a, b *big.Int) *big.Int {
			return zero(b, func() *big.Int { return new(big.Int).Quo(signed(a), signed(b)) })
		}, common.U256.SDiv},
		{"SMod", func(a, b *big.Int) *big.Int {
			return zero(b, func() *big.Int { return new(big.Int).Rem(signed(a), signed(b)) })
		}, common.U256.SMod},
		{"Exp", func(a, b *big.Int) *big.Int { return new(big.Int).Exp(a, b, two256) }, common.U256.Exp},
		{"And", func(a, b *big.Int) *big.Int { return new(big.Int).And(a, b) }, common.U256.And},
		{"Or", func(a, b *big.Int) *big.Int { return new(big.Int).Or(a, b) }, common.U256.Or},
		{"Xor", func(a, b *big.Int) *big.Int { return new(big.Int).Xor(a, b) }, common.U256.Xor},
		{"Shl", func(a, b *big.Int) *big.Int {
			if b.BitLen() > 9 {
				return new(big.Int)
			}
			return new(big.Int).Lsh(a, uint(b.Uint64()))
		}, common.U256.Shl},
		{"Shr", func(a, b *big.Int) *big.Int {
			if b.BitLen() > 9 {
				return new(big.Int)
			}
			return new(big.Int).Rsh(a, uint(b.Uint64()))
		}, common.U256.Shr},
		{"Srsh", func(a, b *big.Int) *big.Int {
			n := uint(512)
			if b.BitLen() <= 9 {
				n = uint(b.Uint64())
			}
			return new(big.Int).Rsh(signed(a), n)
		}, common.U256.Srsh},
		{"SignExtend", func(a, b *big.Int) *big.Int { // of a, from byte b
			if b.Cmp(big.NewInt(31)) >= 0 {
				return a
			}
			n := uint(b.Uint64())*8 + 8
			low := new(big.Int).Mod(a, new(big.Int).Lsh(big.NewInt(1), n))
			if low.Bit(int(n)-1) == 1 {
				low.Sub(low, new(big.Int).Lsh(big.NewInt(1), n))
			}
			return low
		}, common.U256.SignExtend},
	}
	rels := []struct {
		name string
		want func(a, b *big.Int) bool
		got  func(a, b common.U256) bool
	}{
		{"Eq", func(a, b *big.Int) bool { return a.Cmp(b) == 0 }, common.U256.Eq},
		{"Ne", func(a, b *big.Int) bool { return a.Cmp(b) != 0 }, common.U256.Ne},
		{"Lt", func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, common.U256.Lt},
		{"Gt", func(a, b *big.Int) bool { return a.Cmp(b) > 0 }, common.U256.Gt},
		{"Slt", func(a, b *big.Int) bool { return signed(a).Cmp(signed(b)) < 0 }, common.U256.Slt},
		{"Sgt", func(a, b *big.Int) bool { return signed(a).Cmp(signed(b)) > 0 }, common.U256.Sgt},
	}
	vals := corner256(true)
	c.x.Parallel("pairs of 256-bit values", len(vals), func(w *engine.Worker, i int) {
		a := vals[i]
		w.BeginNote(func() string { return a.Text(16) })
		defer w.End()
		n := int64(0)
		ua := common.NewU256FromBigInt(a)
		va := value32(a)
		for _, b := range vals {
			ub, vb := common.NewU256FromBigInt(b), value32(b)
			what := a.Text(16) + ", " + b.Text(16)
			c.guard("arithmetic", what, func() {
				for _, o := range ops {
					n++
					want := unsigned(o.want(a, b))
					if got := o.got(ua, ub).ToBigInt(); got.Cmp(want) != 0 {
						c.report("arithmetic", o.name, what, want.Text(16), got.Text(16))
					}
				}
				for _, o := range rels {
					n++
					if want, got := o.want(a, b), o.got(ua, ub); want != got {
						c.report("arithmetic", o.name, what, fmt.Sprint(want), fmt.Sprint(got))
					}
				}
				if got, want := tosca.Add(va, vb), value32(unsigned(new(big.Int).Add(a, b))); got != want {
					c.report("arithmetic", "tosca.Add", what, want.String(), got.String())
				}
				if got, want := tosca.Sub(va, vb), value32(unsigned(new(big.Int).Sub(a, b))); got != want {
					c.report("arithmetic", "tosca.Sub", what, want.String(), got.String())
				}
				if got, want := va.Cmp(vb), a.Cmp(b); got != want {
					c.report("arithmetic", "Value.Cmp", what, fmt.Sprint(want), fmt.Sprint(got))
				}
				if b.IsUint64() {
					if got, want := va.Scale(b.Uint64()), value32(unsigned(new(big.Int).Mul(a, b))); got != want {
						c.report("arithmetic", "Value.Scale", what, want.String(), got.String())
					}
				}
				n += 4
			})
			if ua.ToBigInt().Cmp(a) != 0 || ub.ToBigInt().Cmp(b) != 0 {
				c.report("arithmetic", "operands", what, "unchanged", "changed")
			}
		}
		if got, want := ua.Not().ToBigInt(), new(big.Int).Sub(new(big.Int).Sub(two256, big.NewInt(1)), a); got.Cmp(want) != 0 {
			c.report("arithmetic", "Not", a.Text(16), want.Text(16), got.Text(16))
		}
		w.Count(n, n, n)
	})
	few := corner256(c.x.Thorough())
	c.x.Parallel("triples of 256-bit values", len(few)*len(few), func(w *engine.Worker, i int) {
		a, b := few[i/len(few)], few[i%len(few)]
		w.BeginNote(func() string { return a.Text(16) })
		defer w.End()
		ua, ub := common.NewU256FromBigInt(a), common.NewU256FromBigInt(b)
		sum, prod := new(big.Int).Add(a, b), new(big.Int).Mul(a, b)
		for _, m := range few {
			um := common.NewU256FromBigInt(m)
			c.guard("arithmetic", a.Text(16)+", "+b.Text(16)+", "+m.Text(16), func() {
				ws, wp := new(big.Int), new(big.Int)
				if m.Sign() != 0 {
					ws.Mod(sum, m)
					wp.Mod(prod, m)
				}
				if got := ua.AddMod(ub, um).ToBigInt(); got.Cmp(ws) != 0 {
					c.report("arithmetic", "AddMod", a.Text(16)+", "+b.Text(16)+", "+m.Text(16), ws.Text(16), got.Text(16))
				}
				if got := ua.MulMod(ub, um).ToBigInt(); got.Cmp(wp) != 0 {
					c.report("arithmetic", "MulMod", a.Text(16)+", "+b.Text(16)+", "+m.Text(16), wp.Text(16), got.Text(16))
				}
			})
		}
		n := int64(2 * len(few))
		w.Count(n, n, n)
	})
}

func (c *typeCheck) conversions() {
	vals := corner256(true)
	f := "conversions"
	c.x.Parallel("conversions of 256-bit values", len(vals), func(w *engine.Worker, i int) {
		a := vals[i]
		what := a.Text(16)
		w.BeginNote(func() string { return what })
		defer w.End()
		c.guard(f, what, func() {
			u, v := common.NewU256FromBigInt(a), value32(a)
			words := make([]uint64, 4)
			for k := range words {
				words[k] = new(big.Int).Rsh(a, uint(64*(3-k))).Uint64()
			}
			for k := 0; k <= 4; k++ {
				low := new(big.Int).Mod(a, new(big.Int).Lsh(big.NewInt(1), uint(64*k)))
				c.same(f, fmt.Sprint("NewU256 with ", k), what, low, common.NewU256(words[4-k:]...).ToBigInt())
				c.same(f, fmt.Sprint("NewValue with ", k), what, low, tosca.NewValue(words[4-k:]...).ToBig())
			}
			for k := 0; k <= 32; k++ {
				low := new(big.Int).Mod(a, new(big.Int).Lsh(big.NewInt(1), uint(8*k)))
				c.same(f, fmt.Sprint("NewU256FromBytes with ", k), what, low, common.NewU256FromBytes(v[32-k:]...).ToBigInt())
			}
			x := u.Uint256()
			c.same(f, "Uint256", what, a, x.ToBig())
			c.same(f, "NewU256FromUint256", what, a, common.NewU256FromUint256(&x).ToBigInt())
			c.same(f, "Bytes32be", what, v, tosca.Value(u.Bytes32be()))
			var addr tosca.Address
			copy(addr[:], v[12:])
			c.same(f, "Bytes20be", what, addr, tosca.Address(u.Bytes20be()))
			c.same(f, "NewAddress", what, addr, common.NewAddress(u))
			c.same(f, "AddressToU256", what, new(big.Int).SetBytes(addr[:]), common.AddressToU256(addr).ToBigInt())
			c.same(f, "IsZero", what, a.Sign() == 0, u.IsZero())
			c.same(f, "IsUint64", what, a.IsUint64(), u.IsUint64())
			c.same(f, "Uint64", what, words[3], u.Uint64())
			c.same(f, "NewAddressFromInt", what, common.NewAddress(common.NewU256(words[3])), common.NewAddressFromInt(words[3]))
			c.same(f, "U256.DecimalString", what, a.String(), u.DecimalString())
			c.same(f, "U256.String", what, fmt.Sprintf("%016x %016x %016x %016x", words[0], words[1], words[2], words[3]), u.String())
			c.same(f, "Value.String", what, a.String(), v.String())
			c.same(f, "Value.ToBig", what, a, v.ToBig())
			c.same(f, "Value.ToUint256", what, a, v.ToUint256().ToBig())
			c.same(f, "ValueFromUint256", what, v, tosca.ValueFromUint256(&x))
			c.same(f, "Key.String", what, "0x"+fmt.Sprintf("%064x", a), tosca.Key(v).String())
			c.same(f, "Word.String", what, "0x"+fmt.Sprintf("%064x", a), tosca.Word(v).String())
			c.same(f, "Address.String", what, fmt.Sprintf("0x%x", addr[:]), addr.String())
			// conversions yield copies
			v.ToUint256().SetUint64(5)
			v.ToBig().SetUint64(5)
			u.ToBigInt().SetUint64(5)
			if v != value32(a) || u.ToBigInt().Cmp(a) != 0 {
				c.report(f, "conversions", what, "unchanged", "changed")
			}
		})
		w.Count(80, 80, 80)
	})
	c.same(f, "ValueFromUint256", "nil", tosca.Value{}, tosca.ValueFromUint256((*uint256.Int)(nil)))
	c.same(f, "MaxU256", "", new(big.Int).Sub(two256, big.NewInt(1)), common.MaxU256().ToBigInt())
	for _, p := range []struct {
		what string
		f    func()
	}{
		{"NewU256 with 5 words", func() { common.NewU256(0, 0, 0, 0, 1) }},
		{"NewValue with 5 words", func() { tosca.NewValue(0, 0, 0, 0, 1) }},
		{"NewU256FromBytes with 33 bytes", func() { common.NewU256FromBytes(make([]byte, 33)...) }},
		{"NewU256FromBigInt of -1", func() { common.NewU256FromBigInt(big.NewInt(-1)) }},
		{"NewU256FromBigInt of 2^256", func() { common.NewU256FromBigInt(two256) }},
	} {
		c.same(f, "refused", p.what, true, panics(p.f))
	}
}

// ---- text forms

type textual interface {
	MarshalText() ([]byte, error)
}

func (c *typeCheck) text() {
	f := "text forms"
	// all single byte values at all positions
	type form struct {
		name string
		size int
		// mk yields the text form of the bytes
		mk func(b []byte) (string, error)
		// parse yields the bytes of a text form and the bytes after a failure
		parse func(s string) ([]byte, error)
		text  func(b []byte) string
	}
	quote := func(s string) []byte { r, _ := json.Marshal(s); return r }
	forms := []form{
		{"Address", 20,
			func(b []byte) (string, error) { t, err := tosca.Address(b).MarshalText(); return string(t), err },
			func(s string) ([]byte, error) {
				var a tosca.Address
				err := a.UnmarshalText([]byte(s))
				return a[:], err
			},
			func(b []byte) string { return fmt.Sprintf("0x%x", b) }},
		{"Value", 32,
			func(b []byte) (string, error) { t, err := tosca.Value(b).MarshalText(); return string(t), err },
			func(s string) ([]byte, error) { var a tosca.Value; err := a.UnmarshalText([]byte(s)); return a[:], err },
			func(b []byte) string { return fmt.Sprintf("0x%x", b) }},
		{"U256", 32,
			func(b []byte) (string, error) {
				t, err := common.NewU256FromBytes(b...).MarshalText()
				return string(t), err
			},
			func(s string) ([]byte, error) {
				var a common.U256
				err := a.UnmarshalText([]byte(s))
				r := a.Bytes32be()
				return r[:], err
			},
			func(b []byte) string { return fmt.Sprintf("%x %x %x %x", b[:8], b[8:16], b[16:24], b[24:]) }},
		{"Bytes", 5,
			func(b []byte) (string, error) {
				t, err := json.Marshal(common.NewBytes(b))
				return strings.Trim(string(t), `"`), err
			},
			func(s string) ([]byte, error) {
				var a common.Bytes
				err := json.Unmarshal(quote(s), &a)
				return a.ToBytes(), err
			},
			func(b []byte) string { return fmt.Sprintf("%x", b) }},
	}
	c.x.Parallel("text forms", len(forms), func(w *engine.Worker, i int) {
		t := forms[i]
		w.BeginNote(func() string { return t.name })
		defer w.End()
		n := int64(0)
		base := make([]byte, t.size)
		for k := range base {
			base[k] = byte(k*7 + 1)
		}
		for pos := 0; pos < t.size; pos++ {
			for v := 0; v < 256; v++ {
				for _, b := range [][]byte{bytes.Clone(base), make([]byte, t.size)} {
					b[pos] = byte(v)
					n++
					what := fmt.Sprintf("%s %x", t.name, b)
					c.guard(f, what, func() {
						s, err := t.mk(bytes.Clone(b))
						if err != nil || s != t.text(b) {
							c.report(f, "writing", what, t.text(b), fmt.Sprint(s, err))
						}
						for _, s := range []string{s, upper(t.text(b))} {
							r, err := t.parse(s)
							if err != nil || !bytes.Equal(r, b) {
								c.report(f, "reading", what, fmt.Sprintf("%x", b), fmt.Sprintf("%x %v", r, err))
							}
						}
					})
				}
			}
		}
		// malformed texts: every position with every other character,
		// every length
		s := t.text(base)
		try := func(s string) {
			n++
			c.guard(f, t.name+" "+s, func() {
				if r, err := t.parse(s); err == nil {
					c.report(f, "reading malformed", t.name+" "+s, "error", fmt.Sprintf("%x", r))
				} else if len(bytes.Trim(r, "\x00")) != 0 {
					c.report(f, "reading malformed", t.name+" "+s, "nothing stored", fmt.Sprintf("%x", r))
				}
			})
		}
		for pos := 0; pos < len(s); pos++ {
			for ch := 0; ch < 256; ch++ {
				isHex := strings.ContainsRune("0123456789abcdefABCDEF", rune(ch))
				wasHex := strings.ContainsRune("0123456789abcdef", rune(s[pos]))
				if pos < 2 && t.text(base)[:2] == "0x" {
					isHex, wasHex = false, true // the prefix is fixed
					if byte(ch) == s[pos] {
						continue
					}
				}
				if byte(ch) == s[pos] || (isHex && wasHex) || ch >= 0x80 && t.name == "Bytes" {
					continue
				}
				try(s[:pos] + string([]byte{byte(ch)}) + s[pos+1:])
			}
			if t.name != "Bytes" {
				try(s[:pos])
				try(s[:pos] + s[pos+1:])
				try(s[:pos] + "0" + s[pos:])
				try(s[:pos] + "00" + s[pos:])
				if pos%2 == 0 && pos+2 <= len(s) {
					try(s[:pos] + s[pos+2:])
				}
			} else if pos%2 == 1 {
				try(s[:pos])
			}
		}
		if t.name != "Bytes" {
			try("")
			try(" " + s)
			try(s + " ")
			try(s + "\n")
			try(s + s)
		}
		w.Count(n, n, n)
	})
	// lists of bytes of all lengths
	for l := 0; l <= 70; l++ {
		d := bytes.Repeat([]byte{0xa5}, l)
		b := common.NewBytes(d)
		for k := range d {
			d[k] = 0
		}
		out := b.ToBytes()
		for k := range out {
			out[k] = 1
		}
		c.same(f, "Bytes", fmt.Sprint("length ", l), fmt.Sprint(l, " 0x", strings.Repeat("a5", l)), fmt.Sprint(b.Length(), " ", b))
		for k := 0; k <= l; k += 7 {
			for m := k; m <= l; m += 3 {
				c.same(f, "Bytes.Get", fmt.Sprint(l, k, m), bytes.Repeat([]byte{0xa5}, m-k), b.Get(uint64(k), uint64(m)))
			}
		}
	}
}

func upper(s string) string {
	if strings.HasPrefix(s, "0x") {
		return "0x" + strings.ToUpper(s[2:])
	}
	return strings.ToUpper(s)
}

// ---- enumerations

func (c *typeCheck) enums() {
	f := "enumerations"
	type enum struct {
		name  string
		known map[int]string
		// open enumerations have a text form for all other values
		open  bool
		write func(i int) ([]byte, error)
		read  func(b []byte) (int, error)
		str   func(i int) string
	}
	enums := []enum{
		{"CallKind", map[int]string{int(tosca.Call): "call", int(tosca.DelegateCall): "delegate_call", int(tosca.StaticCall): "static_call", int(tosca.CallCode): "call_code", int(tosca.Create): "create", int(tosca.Create2): "create2"}, false,
			func(i int) ([]byte, error) { return json.Marshal(tosca.CallKind(i)) },
			func(b []byte) (int, error) { k := tosca.CallKind(-7); err := json.Unmarshal(b, &k); return int(k), err },
			func(i int) string { return tosca.CallKind(i).String() }},
		{"Revision", map[int]string{0: "Istanbul", 1: "Berlin", 2: "London", 3: "Paris", 4: "Shanghai", 5: "Cancun"}, true,
			func(i int) ([]byte, error) { return json.Marshal(tosca.Revision(i)) },
			func(b []byte) (int, error) { k := tosca.Revision(-7); err := json.Unmarshal(b, &k); return int(k), err },
			func(i int) string { return tosca.Revision(i).String() }},
		{"StatusCode", map[int]string{0: "running", 1: "stopped", 2: "reverted", 3: "failed"}, false,
			func(i int) ([]byte, error) { return json.Marshal(st.StatusCode(i)) },
			func(b []byte) (int, error) { k := st.StatusCode(-7); err := json.Unmarshal(b, &k); return int(k), err },
			func(i int) string { return st.StatusCode(i).String() }},
	}
	c.x.Parallel("enumerations", len(enums), func(w *engine.Worker, i int) {
		e := enums[i]
		w.BeginNote(func() string { return e.name })
		defer w.End()
		n := int64(0)
		valid := map[string]int{}
		texts := map[string]int{}
		for v := 0; v < 1000; v++ {
			n++
			what := fmt.Sprint(e.name, " ", v)
			c.guard(f, what, func() {
				b, err := e.write(v)
				name, known := e.known[v]
				if known {
					valid[name] = v
					c.same(f, "text", what, name, e.str(v))
					c.same(f, "JSON", what, `"`+name+`"`, string(b))
				}
				if known || e.open {
					if err != nil {
						c.report(f, "writing", what, "no error", err.Error())
						return
					}
					r, err := e.read(b)
					c.same(f, "reading what was written", what, fmt.Sprint(v, " ", nil), fmt.Sprint(r, " ", err))
					t := e.str(v)
					if o, found := texts[t]; found {
						c.report(f, "text", what, "unique", fmt.Sprint("same as ", o))
					}
					texts[t] = v
				} else if err == nil {
					c.report(f, "writing", what, "error", string(b))
				}
			})
		}
		// every text one character away from a known one is refused
		for name := range valid {
			near := []string{"", name + "x", name + name, "x" + name, name + " ", " " + name}
			for p := 0; p < len(name); p++ {
				near = append(near, name[:p], name[:p]+name[p+1:])
				for _, ch := range "abcdefghijklmnopqrstuvwxyz_0129-()" {
					near = append(near, name[:p]+string(ch)+name[p+1:])
				}
			}
			for _, s := range near {
				if _, ok := valid[s]; ok || strings.EqualFold(s, name) || equalFoldAny(s, valid) {
					continue
				}
				n++
				c.guard(f, e.name+" "+s, func() {
					b, _ := json.Marshal(s)
					if r, err := e.read(b); err == nil {
						c.report(f, "reading unknown", fmt.Sprintf("%s %q", e.name, s), "error", fmt.Sprint(r))
					}
				})
			}
		}
		for _, s := range []string{"", "null1", "1", "{}", "[]", `"Revision()"`, `"Revision(x)"`, `"Revision(99999999999999999999)"`, `"StatusCode(1)"`, `"unknown"`, "true"} {
			n++
			c.guard(f, e.name+" "+s, func() {
				if r, err := e.read([]byte(s)); err == nil {
					c.report(f, "reading malformed", fmt.Sprintf("%s %q", e.name, s), "error", fmt.Sprint(r))
				}
			})
		}
		w.Count(n, n, n)
	})
	c.same(f, "revisions", "all", "[Istanbul Berlin London Paris Shanghai Cancun]", tosca.GetAllKnownRevisions())
	for i, r := range tosca.GetAllKnownRevisions() {
		c.same(f, "revisions", fmt.Sprint(r), i, int(r))
	}
	statuses := map[string]bool{}
	all := tosca.GetAllStorageStatuses()
	for _, s := range all {
		statuses[s.String()] = true
	}
	c.same(f, "storage statuses", "all", "9 9", fmt.Sprint(len(all), " ", len(statuses)))
	for i := 0; i < 9; i++ {
		name := []string{"Assigned", "Added", "Deleted", "Modified", "DeletedAdded", "ModifiedDeleted", "DeletedRestored", "AddedDeleted", "ModifiedRestored"}[i]
		c.same(f, "storage statuses", fmt.Sprint(i), "Storage"+name, tosca.StorageStatus(i).String())
	}
}

func equalFoldAny(s string, m map[string]int) bool {
	for k := range m {
		if strings.EqualFold(s, k) {
			return true
		}
	}
	return false
}

// ---- storage updates

func (c *typeCheck) storageStatus() {
	var words []tosca.Word
	words = append(words, tosca.Word{}, tosca.Word{31: 1}, tosca.Word{0: 1}, tosca.Word{15: 0x80}, tosca.Word{0: 1, 31: 1}, tosca.Word{31: 2})
	for i := 0; i < 32; i++ {
		var x tosca.Word
		x[i] = 0xff
		words = append(words, x)
	}
	n := len(words)
	c.x.Parallel("storage updates", n, func(w *engine.Worker, i int) {
		w.BeginNote(func() string { return words[i].String() })
		defer w.End()
		zero := tosca.Word{}
		for _, cur := range words {
			for _, next := range words {
				o := words[i]
				want := tosca.StorageAssigned
				switch {
				case cur == next:
				case o == cur && o == zero:
					want = tosca.StorageAdded
				case o == cur && next == zero:
					want = tosca.StorageDeleted
				case o == cur:
					want = tosca.StorageModified
				case o == zero && next == zero:
					want = tosca.StorageAddedDeleted
				case o == zero: // dirty slot written again
				case cur == zero && next == o:
					want = tosca.StorageDeletedRestored
				case cur == zero:
					want = tosca.StorageDeletedAdded
				case next == o:
					want = tosca.StorageModifiedRestored
				case next == zero:
					want = tosca.StorageModifiedDeleted
				}
				if got := tosca.GetStorageStatus(o, cur, next); got != want {
					c.report("storage updates", "status", fmt.Sprint(o, " -> ", cur, " -> ", next), want.String(), got.String())
				}
			}
		}
		w.Count(int64(n*n), int64(n*n), int64(n*n))
	})
}

// ---- operations

var opTable = map[byte]string{
	0x00: "STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND",
	0x10: "LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR",
	0x20: "SHA3",
	0x30: "ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH",
	0x40: "BLOCKHASH COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE BASEFEE BLOBHASH BLOBBASEFEE",
	0x50: "POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0",
	0xa0: "LOG0 LOG1 LOG2 LOG3 LOG4",
	0xf0: "CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2",
	0xfa: "STATICCALL",
	0xfd: "REVERT INVALID SELFDESTRUCT",
}

func (c *typeCheck) opcodes() {
	f := "operations"
	want := map[int]string{}
	for first, l := range opTable {
		for i, n := range strings.Fields(l) {
			want[int(first)+i] = n
		}
	}
	for i := 1; i <= 32; i++ {
		want[0x5f+i] = fmt.Sprint("PUSH", i)
	}
	for i := 1; i <= 16; i++ {
		want[0x7f+i] = fmt.Sprint("DUP", i)
		want[0x8f+i] = fmt.Sprint("SWAP", i)
	}
	c.x.Parallel("operations", 1, func(w *engine.Worker, _ int) {
		w.BeginNote(func() string { return "operations" })
		defer w.End()
		var noPush []vm.OpCode
		for i := 0; i < 256; i++ {
			op, what := vm.OpCode(i), fmt.Sprintf("0x%02x", i)
			name, known := want[i]
			if !known {
				name = fmt.Sprintf("op(0x%02X)", i)
			}
			c.same(f, "name", what, name, op.String())
			width := 1
			if i >= 0x60 && i <= 0x7f {
				width = i - 0x60 + 2
			}
			c.same(f, "width", what, width, op.Width())
			valid := known && op != 0xfe
			c.same(f, "validity", what, valid, vm.IsValid(op))
			if valid && (i < 0x5f || i > 0x7f) {
				noPush = append(noPush, op)
			}
		}
		c.same(f, "valid operations without push", "", noPush, vm.ValidOpCodesNoPush())
		l := vm.ValidOpCodesNoPush()
		for i := range l {
			l[i] = 0xfe
		}
		c.same(f, "valid operations without push", "after changes to an earlier result", noPush, vm.ValidOpCodesNoPush())
		w.Count(256*4, 256*4, 256*4)
	})
}

// ---- helpers

func (c *typeCheck) helpers() {
	f := "helpers"
	c.x.Parallel("helpers", 3, func(w *engine.Worker, part int) {
		w.BeginNote(func() string { return fmt.Sprint(part) })
		defer w.End()
		switch part {
		case 0:
			n := int64(0)
			size := func(s uint64) {
				n++
				b := new(big.Int).SetUint64(s)
				b.Add(b, big.NewInt(31)).Rsh(b, 5)
				if got := tosca.SizeInWords(s); got != b.Uint64() {
					c.report(f, "SizeInWords", fmt.Sprint(s), b.String(), fmt.Sprint(got))
				}
			}
			for s := uint64(0); s < 1<<17; s++ {
				size(s)
				size(math.MaxUint64 - s)
			}
			for k := 0; k < 64; k++ {
				for d := uint64(0); d < 200; d++ {
					size(1<<k + d)
					size(1<<k - d)
				}
			}
			w.Count(n, n, n)
		case 1:
			// revisions, blocks and times
			first := map[tosca.Revision]uint64{}
			for _, r := range tosca.GetAllKnownRevisions() {
				first[r] = common.GetForkBlock(r)
				if r > 0 && common.GetForkBlock(r) <= common.GetForkBlock(r-1) || common.GetForkTime(r) <= common.GetForkTime(r-1) && r > 0 {
					c.report(f, "fork blocks and times", r.String(), "increasing", "not increasing")
				}
			}
			last := common.GetForkBlock(common.R99_UnknownNextRevision)
			blocks := []uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1 << 32}
			for b := uint64(0); b < last+2000; b++ {
				blocks = append(blocks, b)
			}
			for _, b := range blocks {
				want := common.R99_UnknownNextRevision
				if b < last {
					for r, s := range first {
						if s <= b && (want == common.R99_UnknownNextRevision || r > want) {
							want = r
						}
					}
				}
				if got := common.GetRevisionForBlock(b); got != want {
					c.report(f, "revision of block", fmt.Sprint(b), want.String(), got.String())
				}
			}
			for _, r := range append(tosca.GetAllKnownRevisions(), common.R99_UnknownNextRevision) {
				l, err := common.GetBlockRangeLengthFor(r)
				want := uint64(math.MaxUint64)
				if r != common.R99_UnknownNextRevision {
					next := r + 1
					if r == common.NewestSupportedRevision {
						next = common.R99_UnknownNextRevision
					}
					want = common.GetForkBlock(next) - common.GetForkBlock(r)
				}
				c.same(f, "number of blocks", r.String(), fmt.Sprint(want, nil), fmt.Sprint(l, err))
			}
			// padding
			for l := 0; l < 6; l++ {
				in := []byte{1, 2, 3, 4, 5, 6}[:l]
				for s := 0; s < 9; s++ {
					right, left := make([]byte, s), make([]byte, s)
					for i := 0; i < s && i < l; i++ {
						right[i] = in[i]
						if s >= l {
							left[s-l+i] = in[i]
						} else {
							left[i] = in[i]
						}
					}
					c.same(f, "RightPadSlice", fmt.Sprint(l, s), right, common.RightPadSlice(in, s))
					c.same(f, "LeftPadSlice", fmt.Sprint(l, s), left, common.LeftPadSlice(in, s))
				}
			}
			// lists of hashes
			var none common.ImmutableHashArray
			c.same(f, "hashes", "none and zero", true, none.Equal(common.NewImmutableHashArray()) && common.NewImmutableHashArray().Equal(none) && none.Equal(none))
			for i := uint64(0); i < 256; i++ {
				in := make([]tosca.Hash, i+1)
				in[i] = tosca.Hash{byte(i), 1}
				a := common.NewImmutableHashArray(in...)
				b := a
				in[i] = tosca.Hash{9}
				ok := none.Get(i) == tosca.Hash{}
				for k := uint64(0); k < 256; k++ {
					ok = ok && (a.Get(k) == tosca.Hash{byte(i), 1}) == (k == i)
				}
				ok = ok && a.Equal(b) && !a.Equal(none) && !none.Equal(a)
				d, err := json.Marshal(a)
				var r, z common.ImmutableHashArray
				ok = ok && err == nil && json.Unmarshal(d, &r) == nil && r.Equal(a)
				d, err = json.Marshal(none)
				ok = ok && err == nil && json.Unmarshal(d, &z) == nil && z.Equal(none)
				other := common.NewImmutableHashArray(make([]tosca.Hash, i+1)...)
				ok = ok && !other.Equal(a) && other.Equal(none)
				c.same(f, "hashes", fmt.Sprint("only ", i), true, ok)
			}
			c.same(f, "hashes", "index 256", true, panics(func() { none.Get(256) }) && panics(func() { common.NewImmutableHashArray().Get(256) }))
			w.Count(int64(len(blocks)), int64(len(blocks)), int64(len(blocks)))
		case 2:
			// random values of a range, for all choices
			vals := corner256(false)
			n := int64(0)
			for _, lo := range vals {
				for _, hi := range vals {
					l, h := common.NewU256FromBigInt(lo), common.NewU256FromBigInt(hi)
					what := lo.Text(16) + " to " + hi.Text(16)
					if lo.Cmp(hi) > 0 {
						c.same(f, "RandU256Between", what+" refused", true, panics(func() { common.RandU256Between(rand.NewFromSource(ctgen.NewSource()), l, h) }))
						continue
					}
					ctgen.Explore(1, 4, func(src *ctgen.Source) bool {
						n++
						c.guard(f, what, func() {
							v := common.RandU256Between(rand.NewFromSource(src), l, h).ToBigInt()
							if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
								c.report(f, "RandU256Between", what, "in range", v.Text(16))
							}
						})
						return true
					})
				}
			}
			w.Count(n, n, n)
		}
	})
}
