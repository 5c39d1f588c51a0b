package num_t

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/bits"
	"regexp"
	"strings"
	"testing"

	cmath "github.com/ThinkiumGroup/go-common/math"
	"pgregory.net/rapid"

	"verifharness/h"
)

func drawU64(rt *rapid.T) uint64 {
	switch h.Int(rt, 0, 4, "u") {
	case 0:
		return uint64(h.Int(rt, 0, 5, "small"))
	case 1:
		return ^uint64(0) - uint64(h.Int(rt, 0, 5, "top"))
	case 2:
		return uint64(1)<<uint(h.Int(rt, 0, 63, "sh")) + uint64(int64(h.Int(rt, -2, 2, "d")))
	}
	return rapid.Uint64().Draw(rt, "any")
}

func drawSigned(rt *rapid.T, max int) *big.Int {
	n := drawBig(rt, max)
	if h.Bool(rt, "neg") {
		n.Neg(n)
	}
	return n
}

// H03: machine arithmetic reports an overflow exactly if there is one.
func TestH03_safe(t *testing.T) {
	h.Check(t, "an operation overflows or its operands need more than 32 bits", h.N{Quick: 300000, Thorough: 20000000}, func(rt *rapid.T, c *h.C) {
		x, y := drawU64(rt), drawU64(rt)
		if x != 0 && h.OneIn(rt, 4, "edge") {
			y = ^uint64(0)/x + uint64(h.Int(rt, 0, 1, "over"))
		}
		c.Op("%d %d", x, y)
		s, carry := bits.Add64(x, y, 0)
		d, borrow := bits.Sub64(x, y, 0)
		hi, lo := bits.Mul64(x, y)
		c.NonTrivial(carry+borrow+hi > 0 || x>>32 > 0)
		if v, o := cmath.SafeAdd(x, y); v != s || o != (carry == 1) {
			rt.Fatalf("%d + %d = %d, %t", x, y, v, o)
		}
		if v, o := cmath.SafeSub(x, y); v != d || o != (borrow == 1) {
			rt.Fatalf("%d - %d = %d, %t", x, y, v, o)
		}
		if v, o := cmath.SafeMul(x, y); v != lo || o != (hi != 0) {
			rt.Fatalf("%d * %d = %d, %t", x, y, v, o)
		}
	})
}

var (
	reDec = regexp.MustCompile(`^[0-9]+$`)
	reHex = regexp.MustCompile(`^0[xX][0-9a-fA-F]+$`)
)

// parsed reads a text in decimal or hex.
func parsed(s string) (*big.Int, bool) {
	if s == "" {
		return new(big.Int), true
	}
	n := new(big.Int)
	switch {
	case reDec.MatchString(s):
		for _, c := range s {
			n.Mul(n, big.NewInt(10)).Add(n, big.NewInt(int64(c-'0')))
		}
	case reHex.MatchString(s):
		for i := 2; i < len(s); i++ {
			n.Lsh(n, 4).Add(n, big.NewInt(int64(hexVal(s[i]))))
		}
	default:
		return nil, false
	}
	return n, true
}

// H03: numbers are parsed exactly if they are numbers that fit.
func TestH03_parse(t *testing.T) {
	h.Check(t, "a text that is a number", h.N{Quick: 200000, Thorough: 5000000}, func(rt *rapid.T, c *h.C) {
		s := drawText(rt)
		if h.Bool(rt, "number") {
			n := drawBig(rt, rapid.SampledFrom([]int{64, 256}).Draw(rt, "size"))
			if h.Bool(rt, "dec") {
				s = n.String()
			} else {
				s = textOf(n)
			}
			if h.OneIn(rt, 4, "zeros") {
				s = strings.Repeat("0", h.Int(rt, 1, 3, "n")) + s
			}
		}
		if strings.ContainsAny(s, "+-") {
			s = "0x1" // signs are left open
		}
		c.Op("%q", s)
		n, ok := parsed(s)
		c.NonTrivial(ok)
		ok64, ok256 := ok && n.BitLen() <= 64, ok && n.BitLen() <= 256
		c.Class(fmt.Sprintf("64=%t 256=%t", ok64, ok256))
		u, got := cmath.ParseUint64(s)
		if got != ok64 || got && u != n.Uint64() {
			rt.Fatalf("ParseUint64(%q) = %d, %t", s, u, got)
		}
		b, got := cmath.ParseBig256(s)
		if got != ok256 || got && b.Cmp(n) != 0 {
			rt.Fatalf("ParseBig256(%q) = %v, %t", s, b, got)
		}
		if p := panics(func() { cmath.MustParseUint64(s) }); p == ok64 {
			rt.Fatalf("MustParseUint64(%q) panics: %t", s, p)
		}
		if p := panics(func() { cmath.MustParseBig256(s) }); p == ok256 {
			rt.Fatalf("MustParseBig256(%q) panics: %t", s, p)
		}
		h64 := cmath.HexOrDecimal64(5)
		if err := h64.UnmarshalText([]byte(s)); (err == nil) != ok64 || ok64 && uint64(h64) != n.Uint64() || !ok64 && h64 != 5 {
			rt.Fatalf("HexOrDecimal64 of %q: %d, %v", s, h64, err)
		}
		h256 := cmath.NewHexOrDecimal256(5)
		if err := h256.UnmarshalText([]byte(s)); (err == nil) != ok256 || ok256 && (*big.Int)(h256).Cmp(n) != 0 || !ok256 && (*big.Int)(h256).Int64() != 5 {
			rt.Fatalf("HexOrDecimal256 of %q: %v, %v", s, (*big.Int)(h256), err)
		}
		d256 := cmath.NewDecimal256(5)
		if err := d256.UnmarshalText([]byte(s)); (err == nil) != ok256 || ok256 && (*big.Int)(d256).Cmp(n) != 0 || !ok256 && (*big.Int)(d256).Int64() != 5 {
			rt.Fatalf("Decimal256 of %q: %v, %v", s, d256, err)
		}
		if !ok256 {
			return
		}
		// and back through JSON
		type doc struct {
			H *cmath.HexOrDecimal256
			D *cmath.Decimal256
			U cmath.HexOrDecimal64
		}
		js, err := json.Marshal(doc{h256, d256, h64})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		var back doc
		if err := json.Unmarshal(js, &back); err != nil || (*big.Int)(back.H).Cmp(n) != 0 || (*big.Int)(back.D).Cmp(n) != 0 || back.U != h64 {
			rt.Fatalf("%q comes back from %s as %v %v %d, %v", s, js, back.H, back.D, back.U, err)
		}
		want := fmt.Sprintf(`{"H":"%s","D":"%s","U":"%s"}`, textOf(n), n.String(), textOf(new(big.Int).SetUint64(uint64(h64))))
		if string(js) != want {
			rt.Fatalf("%q is written %s, not %s", s, js, want)
		}
	})
}

// H04: the helpers on big numbers do what they say and change only what they say.
func TestH04_big(t *testing.T) {
	two := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	h.Check(t, "a number of more than 64 bits", h.N{Quick: 150000, Thorough: 4000000}, func(rt *rapid.T, c *h.C) {
		x, y := drawSigned(rt, 300), drawSigned(rt, 300)
		if h.OneIn(rt, 5, "same") {
			y = new(big.Int).Set(x)
		}
		c.Op("%v %v", x, y)
		c.NonTrivial(x.BitLen() > 64)
		kx, ky := new(big.Int).Set(x), new(big.Int).Set(y)
		same := func(what string) {
			if x.Cmp(kx) != 0 || y.Cmp(ky) != 0 {
				rt.Fatalf("%s changed its operands to %v %v", what, x, y)
			}
		}
		mod := new(big.Int).Mod(kx, two(256))
		if z := cmath.U256(new(big.Int).Set(x)); z.Cmp(mod) != 0 {
			rt.Fatalf("U256(%v) = %v", x, z)
		}
		w := make([]byte, 32)
		mod.FillBytes(w)
		if z := cmath.U256Bytes(new(big.Int).Set(x)); string(z) != string(w) {
			rt.Fatalf("U256Bytes(%v) = %x", x, z)
		}
		sx := new(big.Int).Set(mod)
		if mod.Bit(255) == 1 {
			sx.Sub(mod, two(256))
		}
		km := new(big.Int).Set(mod)
		if z := cmath.S256(mod); z.Cmp(sx) != 0 || mod.Cmp(km) != 0 {
			rt.Fatalf("S256(%v) = %v", mod, z)
		}
		// bytes of the absolute value
		abs := new(big.Int).Abs(kx)
		n := h.Int(rt, 0, 44, "n")
		want := abs.Bytes()
		if len(want) < n {
			want = append(make([]byte, n-len(want)), want...)
		}
		if z := cmath.PaddedBigBytes(x, n); string(z) != string(want) {
			rt.Fatalf("PaddedBigBytes(%v, %d) = %x", x, n, z)
		}
		same("PaddedBigBytes")
		buf := make([]byte, n)
		cmath.ReadBits(x, buf)
		all := append(make([]byte, n), abs.Bytes()...)
		if string(buf) != string(all[len(all)-n:]) {
			rt.Fatalf("ReadBits(%v) into %d bytes gives %x", x, n, buf)
		}
		same("ReadBits")
		pad := h.Int(rt, 0, 40, "pad")
		k := h.Int(rt, 0, 44, "k")
		var wb byte
		if k < pad {
			wb = byte(new(big.Int).Rsh(abs, uint(8*(pad-1-k))).Uint64())
		}
		if z := cmath.Byte(x, pad, k); z != wb {
			rt.Fatalf("Byte(%v, %d, %d) = %x, not %x", x, pad, k, z, wb)
		}
		first := 0
		for abs.Sign() > 0 && abs.Bit(first) == 0 {
			first++
		}
		if z := cmath.FirstBitSet(x); z != first {
			rt.Fatalf("FirstBitSet(%v) = %d", x, z)
		}
		// powers
		e := drawBig(rt, 260)
		if h.Bool(rt, "small") {
			e = big.NewInt(int64(h.Int(rt, 0, 40, "e")))
		}
		ke := new(big.Int).Set(e)
		if z := cmath.Exp(x, e); z.Cmp(new(big.Int).Exp(mod, ke, two(256))) != 0 || e.Cmp(ke) != 0 {
			rt.Fatalf("Exp(%v, %v) = %v", x, e, z)
		}
		same("Exp")
		a, b := int64(h.Int(rt, -20, 20, "a")), int64(h.Int(rt, 0, 30, "b"))
		p := big.NewInt(1)
		for i := int64(0); i < b; i++ {
			p.Mul(p, big.NewInt(a))
		}
		if z := cmath.BigPow(a, b); z.Cmp(p) != 0 {
			rt.Fatalf("BigPow(%d, %d) = %v", a, b, z)
		}
		max, min := x, y
		if x.Cmp(y) < 0 {
			max, min = y, x
		}
		if cmath.BigMax(x, y).Cmp(max) != 0 || cmath.BigMin(x, y).Cmp(min) != 0 {
			rt.Fatalf("max %v min %v of %v and %v", cmath.BigMax(x, y), cmath.BigMin(x, y), x, y)
		}
		same("max and min")
		// printed numbers denote the number
		ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(h.Int(rt, 0, 30, "exp"))), nil)
		for _, v := range []*big.Int{x, new(big.Int).Mul(big.NewInt(int64(h.Int(rt, -1500, 1500, "mant"))), ten)} {
			s := cmath.BigIntForPrint(v)
			r, ok := new(big.Rat).SetString(s)
			if !ok || r.Cmp(new(big.Rat).SetInt(v)) != 0 {
				rt.Fatalf("%v prints as %q", v, s)
			}
			f := cmath.BigForPrint(v)
			if f != v.String() && f != v.String()+" ("+s+")" {
				rt.Fatalf("%v prints as %q", v, f)
			}
			if s := cmath.BigStringForPrint("+" + new(big.Int).Abs(v).String()); len(s) > 0 {
				r, ok := new(big.Rat).SetString(s)
				if !ok || r.Cmp(new(big.Rat).SetInt(new(big.Int).Abs(v))) != 0 {
					rt.Fatalf("+%v prints as %q", new(big.Int).Abs(v), s)
				}
			}
		}
		same("printing")
	})
}

// ---- H05 -----------------------------------------------------------------------------------

func drawNilBig(rt *rapid.T) *big.Int {
	if h.OneIn(rt, 5, "nil") {
		return nil
	}
	if h.OneIn(rt, 4, "zero") {
		return new(big.Int)
	}
	return drawSigned(rt, rapid.SampledFrom([]int{8, 70, 130}).Draw(rt, "bits"))
}

func num(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

func cp(x *big.Int) *big.Int {
	if x == nil {
		return nil
	}
	return new(big.Int).Set(x)
}

// H05: sums, differences, products and comparisons of numbers that may be nil.
func TestH05_bigint(t *testing.T) {
	type B = *cmath.BigInt
	h.Check(t, "at least three operations on operands of which one is nil or negative", h.N{Quick: 100000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		x := drawNilBig(rt)
		b := cmath.NewBigInt(x)
		if x != nil && (*big.Int)(b) == x {
			rt.Fatalf("NewBigInt shares its number")
		}
		m := new(big.Int).Set(num(x)) // model of b: nil counts as zero
		odd := x == nil || x.Sign() < 0
		n := h.Int(rt, 1, 8, "ops")
		check := func(what string, got *cmath.BigInt, want *big.Int) {
			if got.MustInt().Cmp(want) != 0 {
				rt.Fatalf("%s gives %v, not %v", what, got.MustInt(), want)
			}
		}
		c.Op("start %v", x)
		var given, kept []*big.Int
		for i := 0; i < n; i++ {
			a := drawNilBig(rt)
			ka := cp(a)
			given, kept = append(given, a), append(kept, ka)
			odd = odd || a == nil || a.Sign() < 0
			am := num(a)
			op := h.Int(rt, 0, 11, "op")
			asB := h.Bool(rt, "type")
			c.Op("op %d with %v", op, a)
			switch op {
			case 0:
				if asB {
					b = b.Add(B(a))
				} else {
					b = b.AddInt(a)
				}
				m.Add(m, am)
				check("adding", b, m)
			case 1:
				if asB {
					b = b.Sub(B(a))
				} else {
					b = b.SubInt(a)
				}
				m.Sub(m, am)
				check("subtracting", b, m)
			case 2:
				if asB {
					b = b.Mul(B(a))
				} else {
					b = b.MulInt(a)
				}
				m.Mul(m, am)
				check("multiplying", b, m)
			case 3:
				if am.Sign() == 0 {
					if !panics(func() { b.Clone().Div(B(a)) }) || !panics(func() { b.Clone().DivInt(a) }) {
						rt.Fatalf("division by zero gives a number")
					}
					break
				}
				if asB {
					b = b.Div(B(a))
				} else {
					b = b.DivInt(a)
				}
				m.Div(m, am)
				check("dividing", b, m)
			case 4:
				a2 := drawNilBig(rt)
				b = b.AddInts(a, a2, nil)
				m.Add(m, am).Add(m, num(a2))
				check("adding several", b, m)
			case 5:
				left, sub := b.SubIntNotLessZero(a)
				switch {
				case am.Sign() <= 0 || m.Sign() <= 0:
					check("left", left, m)
					check("taken", sub, new(big.Int))
				case m.Cmp(am) > 0:
					check("left", left, new(big.Int).Sub(m, am))
					check("taken", sub, am)
				default:
					check("left", left, new(big.Int))
					check("taken", sub, m)
				}
				check("taking away changed the number; it", b, m)
				if sub != nil { // what was taken is a number of its own
					sub.AddInt(big.NewInt(1))
					check("changing what was taken changed the number; it", b, m)
					if a != nil && a.Cmp(am) != 0 {
						rt.Fatalf("changing what was taken changed the subtrahend %v to %v", am, a)
					}
				}
			case 6:
				want := m.Cmp(am)
				if b.Compare(B(a)) != want || b.CompareInt(a) != want {
					rt.Fatalf("%v compared with %v gives %d and %d", m, a, b.Compare(B(a)), b.CompareInt(a))
				}
				if B(a).Compare(b) != -want {
					rt.Fatalf("%v compared with %v gives %d", a, m, B(a).Compare(b))
				}
			case 7:
				r := drawRat(rt)
				b = b.MulRat(r)
				if r == nil {
					m.SetInt64(0)
				} else {
					m.Mul(m, r.Num())
					m.Div(m, r.Denom())
				}
				check("times "+fmt.Sprint(r), b, m)
			case 8:
				cl := b.Clone()
				check("the copy", cl, m)
				if cl != nil {
					cl.AddInt(big.NewInt(1))
					check("changing a copy changed the number; it", b, m)
				}
			case 9:
				if b.Sign() != m.Sign() || b.IsZero() != (m.Sign() == 0) || b.Positive() != (m.Sign() > 0) || b.Negative() != (m.Sign() < 0) {
					rt.Fatalf("%v: sign %d zero %t positive %t negative %t", m, b.Sign(), b.IsZero(), b.Positive(), b.Negative())
				}
				if (b.MustPositive() != nil) != (m.Sign() > 0) || (b.Int() != nil) != (m.Sign() != 0) {
					rt.Fatalf("%v: MustPositive %v, Int %v", m, b.MustPositive(), b.Int())
				}
				if m.Sign() != 0 {
					check("Int", cmath.NewBigInt(b.Int()), m)
				}
				u, ok := b.ToUint64()
				if b != nil && (ok != m.IsUint64() || ok && u != m.Uint64()) {
					rt.Fatalf("%v: ToUint64 %d %t", m, u, ok)
				}
			case 10:
				want := strings.TrimPrefix(fmt.Sprintf("%x", m), "-")
				if len(want)%2 == 1 && want != "0" {
					want = "0" + want
				}
				if m.Sign() < 0 {
					want = "-" + want
				}
				if b.HexString() != want {
					rt.Fatalf("%v in hex is %q, not %q", m, b.HexString(), want)
				}
				if s := b.String(); b != nil {
					r, ok := new(big.Rat).SetString(s)
					if !ok || r.Cmp(new(big.Rat).SetInt(m)) != 0 {
						rt.Fatalf("%v prints as %q", m, s)
					}
				} else if s != "" {
					rt.Fatalf("nil prints as %q", s)
				}
			case 11:
				b = b.SetInt(a)
				m.Set(am)
				check("set", b, m)
			}
			for j := range given {
				if kept[j] != nil && given[j].Cmp(kept[j]) != 0 {
					rt.Fatalf("operation %d changed the operand of %d from %v to %v", i, j, kept[j], given[j])
				}
			}
		}
		c.NonTrivial(n >= 3 && odd)
	})
}

func drawRat(rt *rapid.T) *big.Rat {
	if h.OneIn(rt, 10, "nilrat") {
		return nil
	}
	d := drawBig(rt, rapid.SampledFrom([]int{4, 64, 100}).Draw(rt, "dbits"))
	if d.Sign() == 0 {
		d = big.NewInt(1)
	}
	return new(big.Rat).SetFrac(drawSigned(rt, rapid.SampledFrom([]int{6, 64, 130}).Draw(rt, "nbits")), d)
}

// H05: rounding is exact.
func TestH05_rational(t *testing.T) {
	h.Check(t, "a fraction, or a number of at least 53 bits", h.N{Quick: 200000, Thorough: 5000000}, func(rt *rapid.T, c *h.C) {
		r := drawRat(rt)
		if r == nil {
			r = new(big.Rat)
		}
		if h.Bool(rt, "near") { // close to an integer at the limits
			i := new(big.Int).SetInt64(rapid.SampledFrom([]int64{1<<63 - 1, -1 << 63, 1 << 53, -1 << 53, 1<<62 + 1, 0}).Draw(rt, "int"))
			i.Add(i, big.NewInt(int64(h.Int(rt, -2, 2, "d"))))
			r = new(big.Rat).SetInt(i)
			r.Add(r, big.NewRat(int64(h.Int(rt, -1, 1, "frac")), rapid.SampledFrom([]int64{2, 3, 1 << 40, 1<<63 - 1}).Draw(rt, "den")))
		}
		c.Op("%v", r)
		c.NonTrivial(!r.IsInt() || r.Num().BitLen() >= 53)
		keep := new(big.Rat).Set(r)
		fl := new(big.Int).Div(r.Num(), r.Denom())
		ce := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(r.Num()), r.Denom()))
		x, bad := cmath.RatToInt64(r)
		if bad == ce.IsInt64() || !bad && x != ce.Int64() {
			rt.Fatalf("RatToInt64(%v) = %d, %t, not %v", r, x, bad, ce)
		}
		x, bad = cmath.RatToInt64Floor(r)
		if bad == fl.IsInt64() || !bad && x != fl.Int64() {
			rt.Fatalf("RatToInt64Floor(%v) = %d, %t, not %v", r, x, bad, fl)
		}
		// a share of an amount
		if r.Sign() >= 0 && r.Cmp(big.NewRat(1, 1)) <= 0 {
			i := rapid.Int64().Draw(rt, "amount")
			p := new(big.Int).Mul(big.NewInt(i), r.Num())
			want := new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(p), r.Denom()))
			if x := cmath.Int64MulRat(i, r); x != want.Int64() {
				rt.Fatalf("Int64MulRat(%d, %v) = %d, not %v", i, r, x, want)
			}
			c.Class("share")
		}
		o := drawRat(rt)
		want := -2
		if o != nil {
			want = r.Cmp(o)
		} else {
			want = 1
		}
		if z := cmath.CompareBigRat(r, o); z != want || cmath.CompareBigRat(o, r) != -want || cmath.CompareBigRat(nil, nil) != 0 {
			rt.Fatalf("CompareBigRat(%v, %v) = %d", r, o, z)
		}
		cl := cmath.CopyBigRat(r)
		cl.Add(cl, big.NewRat(1, 2))
		if cmath.CopyBigRat(nil) != nil {
			rt.Fatalf("the copy of nil is something")
		}
		if r.Cmp(keep) != 0 {
			rt.Fatalf("%v was changed to %v", keep, r)
		}
	})
}

// H05: the plain helpers keep nil apart and copies separate.
func TestH05_helpers(t *testing.T) {
	h.Check(t, "one of the numbers is nil, or both are not zero", h.N{Quick: 60000, Thorough: 600000}, func(rt *rapid.T, c *h.C) {
		a, b := drawNilBig(rt), drawNilBig(rt)
		c.Op("%v %v", a, b)
		c.NonTrivial(a == nil || b == nil || a.Sign() != 0 && b.Sign() != 0)
		ka, kb := cp(a), cp(b)
		want := 0
		switch {
		case a == nil && b == nil:
		case a == nil:
			want = -1
		case b == nil:
			want = 1
		default:
			want = a.Cmp(b)
		}
		if z := cmath.CompareBigInt(a, b); z != want {
			rt.Fatalf("CompareBigInt(%v, %v) = %d", a, b, z)
		}
		cl := cmath.CopyBigInt(a)
		if (cl == nil) != (a == nil) || cl != nil && (cl == a || cl.Cmp(a) != 0) {
			rt.Fatalf("the copy of %v is %v", a, cl)
		}
		if cmath.MustBigInt(a).Cmp(num(a)) != 0 {
			rt.Fatalf("MustBigInt(%v) = %v", a, cmath.MustBigInt(a))
		}
		if p := cmath.MustPositiveInt(a); (p != nil) != (num(a).Sign() > 0) || p != nil && p.Cmp(a) != 0 {
			rt.Fatalf("MustPositiveInt(%v) = %v", a, p)
		}
		cr := cmath.MustCreatedBigInt(a, false)
		if cr.Cmp(num(a)) != 0 || cr == a {
			rt.Fatalf("MustCreatedBigInt(%v) = %v", a, cr)
		}
		cr.Add(cr, big.NewInt(1))
		if a != nil && a.Cmp(ka) != 0 {
			rt.Fatalf("MustCreatedBigInt shares its number")
		}
		sum := cmath.AddBigInt(a, b)
		if a == nil && b == nil {
			if sum != nil {
				rt.Fatalf("nil + nil = %v", sum)
			}
		} else if sum.Cmp(new(big.Int).Add(num(ka), num(kb))) != 0 || b != nil && (b.Cmp(kb) != 0 || sum == b) {
			rt.Fatalf("AddBigInt(%v, %v) = %v", ka, kb, sum)
		}
	})
}
