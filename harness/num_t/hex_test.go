package num_t

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common/hexutil"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

var (
	reBytes = regexp.MustCompile(`^0[xX](?:[0-9a-fA-F]{2})*$`)
	reNum   = regexp.MustCompile(`^0[xX](?:0|[1-9a-fA-F][0-9a-fA-F]*)$`)
)

func hexVal(c byte) byte {
	switch {
	case c <= '9':
		return c - '0'
	case c <= 'F':
		return c - 'A' + 10
	}
	return c - 'a' + 10
}

// bytesOf reads the text of a byte string, nil if it is none.
func bytesOf(s string) ([]byte, bool) {
	if !reBytes.MatchString(s) {
		return nil, false
	}
	out := []byte{}
	for i := 2; i < len(s); i += 2 {
		out = append(out, hexVal(s[i])<<4|hexVal(s[i+1]))
	}
	return out, true
}

// numOf reads the text of a number of at most bits bits.
func numOf(s string, bits int) (*big.Int, bool) {
	if !reNum.MatchString(s) {
		return nil, false
	}
	n := new(big.Int)
	for i := 2; i < len(s); i++ {
		n.Lsh(n, 4).Add(n, big.NewInt(int64(hexVal(s[i]))))
	}
	return n, n.BitLen() <= bits
}

// textOf writes a number the documented way.
func textOf(n *big.Int) string {
	const digits = "0123456789abcdef"
	if n.Sign() == 0 {
		return "0x0"
	}
	var out []byte
	for m := new(big.Int).Set(n); m.Sign() > 0; m.Rsh(m, 4) {
		out = append([]byte{digits[m.Uint64()&15]}, out...)
	}
	return "0x" + string(out)
}

func drawBig(rt *rapid.T, max int) *big.Int {
	n := big.NewInt(0)
	switch h.Int(rt, 0, 4, "num") {
	case 0:
		n = big.NewInt(int64(h.Int(rt, 0, 300, "small")))
	case 1, 2:
		n.Lsh(big.NewInt(1), uint(h.Int(rt, 0, max, "bits")))
		n.Add(n, big.NewInt(int64(h.Int(rt, -2, 2, "d"))))
	default:
		n.SetBytes(h.Bytes(rt, 0, (max+7)/8, "bytes"))
	}
	return n.Abs(n)
}

// drawText makes texts of every kind near the valid ones.
func drawText(rt *rapid.T) string {
	var s string
	switch h.Int(rt, 0, 5, "text") {
	case 0:
		b := h.Roomy(h.Bytes(rt, 0, 40, "b"))
		s = fmt.Sprintf("0x%x", b)
	case 1, 2:
		s = textOf(drawBig(rt, 300))
	case 3:
		s = "0x" + strings.Repeat("0", h.Int(rt, 0, 3, "zeros")) + textOf(drawBig(rt, 70))[2:]
	case 4:
		s = rapid.SampledFrom([]string{"", "0", "0x", "0X", "0x0", "0x00", "x", "0xg", "00x1", "0x-1", "-0x1", "0x+1", " 0x1", "0x1 ", "0x_1", "0x1_0", "0xffffffffffffffff", "0x10000000000000000", "1", "12", "ab"}).Draw(rt, "odd")
	default:
		s = string(h.Bytes(rt, 0, 12, "raw"))
	}
	if h.OneIn(rt, 4, "upper") {
		s = strings.ToUpper(s)
	}
	if h.OneIn(rt, 3, "alter") && len(s) > 0 {
		b := []byte(s)
		p := h.Int(rt, 0, len(b)-1, "at")
		c := rapid.SampledFrom([]byte("0x1aFfGg/:@`-_ \x00\xff")).Draw(rt, "c")
		switch h.Int(rt, 0, 2, "how") {
		case 0:
			b[p] = c
		case 1:
			b = append(b[:p:p], b[p+1:]...)
		default:
			b = append(b[:p:p], append([]byte{c}, b[p:]...)...)
		}
		s = string(b)
	}
	return s
}

// H01: hex texts.
func TestH01_text(t *testing.T) {
	h.Check(t, "a text that is one of bytes or of a number", h.N{Quick: 300000, Thorough: 8000000}, func(rt *rapid.T, c *h.C) {
		s := drawText(rt)
		c.Op("%q", s)
		wb, okB := bytesOf(s)
		wn, okN := numOf(s, 256)
		w64, ok64 := numOf(s, 64)
		c.NonTrivial(okB || okN)
		c.Class(fmt.Sprintf("bytes=%t number=%t 64=%t", okB, okN, ok64))

		b, err := hexutil.Decode(s)
		if (err == nil) != okB || okB && !bytes.Equal(b, wb) {
			rt.Fatalf("Decode(%q) gives %x, %v", s, b, err)
		}
		if okB && hexutil.Encode(b) != strings.ToLower(s) {
			rt.Fatalf("%q comes back as %q", s, hexutil.Encode(b))
		}
		n, err := hexutil.DecodeBig(s)
		if (err == nil) != okN || okN && n.Cmp(wn) != 0 {
			rt.Fatalf("DecodeBig(%q) gives %v, %v", s, n, err)
		}
		if okN && hexutil.EncodeBig(n) != strings.ToLower(s) {
			rt.Fatalf("%q comes back as %q", s, hexutil.EncodeBig(n))
		}
		if okN && n.Sign() == 0 && (len(n.Bits()) != 0 || n.Cmp(new(big.Int).Neg(n)) != 0) {
			rt.Fatalf("the zero of %q is not normal", s)
		}
		u, err := hexutil.DecodeUint64(s)
		if (err == nil) != ok64 || ok64 && u != w64.Uint64() {
			rt.Fatalf("DecodeUint64(%q) gives %d, %v", s, u, err)
		}
		if ok64 && hexutil.EncodeUint64(u) != strings.ToLower(s) {
			rt.Fatalf("%q comes back as %q", s, hexutil.EncodeUint64(u))
		}
		for _, m := range []struct {
			f  func()
			ok bool
			n  string
		}{{func() { hexutil.MustDecode(s) }, okB, "MustDecode"}, {func() { hexutil.MustDecodeBig(s) }, okN, "MustDecodeBig"}, {func() { hexutil.MustDecodeUint64(s) }, ok64, "MustDecodeUint64"}} {
			if p := panics(m.f); p == m.ok {
				rt.Fatalf("%s(%q) panics: %t", m.n, s, p)
			}
		}
	})
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// H01: values to text and back.
func TestH01_value(t *testing.T) {
	h.Check(t, "a value of at least two bytes", h.N{Quick: 150000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		b := h.Roomy(h.Bytes(rt, 0, 70, "b"))
		n := drawBig(rt, 256)
		if n.BitLen() > 256 {
			n.Rsh(n, 1)
		}
		u := new(big.Int).And(drawBig(rt, 64), new(big.Int).SetUint64(^uint64(0))).Uint64()
		c.Op("%x %s %d", b, n, u)
		c.NonTrivial(len(b) > 1 || n.BitLen() > 8)
		s := hexutil.Encode(b)
		if s != fmt.Sprintf("0x%x", b) {
			rt.Fatalf("Encode(%x) = %q", b, s)
		}
		if back, err := hexutil.Decode(s); err != nil || !bytes.Equal(back, b) {
			rt.Fatalf("%q decodes to %x, %v", s, back, err)
		}
		keep := new(big.Int).Set(n)
		if s := hexutil.EncodeBig(n); s != textOf(n) || n.Cmp(keep) != 0 {
			rt.Fatalf("EncodeBig(%v) = %q", n, s)
		}
		if back, err := hexutil.DecodeBig(textOf(n)); err != nil || back.Cmp(n) != 0 {
			rt.Fatalf("%v comes back as %v, %v", n, back, err)
		}
		if s := hexutil.EncodeUint64(u); s != textOf(new(big.Int).SetUint64(u)) {
			rt.Fatalf("EncodeUint64(%d) = %q", u, s)
		}
		if back, err := hexutil.DecodeUint64(hexutil.EncodeUint64(u)); err != nil || back != u {
			rt.Fatalf("%d comes back as %d, %v", u, back, err)
		}
	})
}

type doc struct {
	B  hexutil.Bytes
	N  *hexutil.Big
	U  hexutil.Uint64
	V  hexutil.Uint
	M  map[hexutil.Uint64]hexutil.Bytes
	L  []hexutil.Bytes
	NP *hexutil.Uint64
}

// H02: documents of hex values come back; the text of each is the documented one.
func TestH02_json(t *testing.T) {
	h.Check(t, "always", h.N{Quick: 60000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		mask := new(big.Int).SetUint64(^uint64(0))
		u64 := func() uint64 { return new(big.Int).And(drawBig(rt, 64), mask).Uint64() }
		n := drawBig(rt, 256)
		if n.BitLen() > 256 {
			n.Rsh(n, 1)
		}
		d := doc{B: h.Bytes(rt, 0, 40, "b"), N: (*hexutil.Big)(n), U: hexutil.Uint64(u64()), V: hexutil.Uint(u64()), M: map[hexutil.Uint64]hexutil.Bytes{}, L: []hexutil.Bytes{}}
		for i := h.Int(rt, 0, 3, "m"); i > 0; i-- {
			d.M[hexutil.Uint64(u64())] = h.Bytes(rt, 0, 3, "mv")
			d.L = append(d.L, h.Bytes(rt, 0, 3, "lv"))
		}
		if h.Bool(rt, "np") {
			x := hexutil.Uint64(u64())
			d.NP = &x
		}
		js, err := json.Marshal(d)
		c.Op("%s", js)
		c.NonTrivial(true)
		if err != nil {
			rt.Fatalf("marshalling %+v: %v", d, err)
		}
		var plain map[string]interface{}
		if err := json.Unmarshal(js, &plain); err != nil {
			rt.Fatalf("%s: %v", js, err)
		}
		if plain["B"] != fmt.Sprintf("0x%x", []byte(d.B)) || plain["N"] != textOf(n) || plain["U"] != textOf(new(big.Int).SetUint64(uint64(d.U))) || plain["V"] != textOf(new(big.Int).SetUint64(uint64(d.V))) {
			rt.Fatalf("%+v has the text %s", d, js)
		}
		if d.B.String() != plain["B"] || d.N.String() != plain["N"] || d.U.String() != plain["U"] || d.V.String() != plain["V"] {
			rt.Fatalf("%s: printed as %s %s %s %s", js, d.B, d.N, d.U, d.V)
		}
		var back doc
		if err := json.Unmarshal(js, &back); err != nil {
			rt.Fatalf("%s is refused: %v", js, err)
		}
		if !bytes.Equal(back.B, d.B) || back.N.ToInt().Cmp(n) != 0 || back.U != d.U || back.V != d.V || len(back.M) != len(d.M) || len(back.L) != len(d.L) || (back.NP == nil) != (d.NP == nil) || d.NP != nil && *d.NP != *back.NP {
			rt.Fatalf("%s comes back as %+v", js, back)
		}
		for k, v := range d.M {
			if w, ok := back.M[k]; !ok || !bytes.Equal(v, w) {
				rt.Fatalf("%s comes back as %+v", js, back)
			}
		}
		for i := range d.L {
			if !bytes.Equal(d.L[i], back.L[i]) {
				rt.Fatalf("%s comes back as %+v", js, back)
			}
		}
	})
}

// H02: any input is read exactly if it is one of the type; otherwise the value stays as it was.
func TestH02_input(t *testing.T) {
	h.Check(t, "an input that is read, or is a string", h.N{Quick: 200000, Thorough: 5000000}, func(rt *rapid.T, c *h.C) {
		s := drawText(rt)
		in := []byte(`"` + s + `"`)
		isStr := true
		switch h.Int(rt, 0, 9, "quotes") {
		case 0:
			in, isStr = []byte(s), len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"'
		case 1:
			in = []byte(rapid.SampledFrom([]string{"null", "1", "{}", "[]", `"`, "", `"0x1`, `0x1"`, "true"}).Draw(rt, "no"))
			isStr = false
		}
		text := ""
		if isStr {
			text = string(in[1 : len(in)-1])
		}
		c.Op("%s", in)
		wb, okB := bytesOf(text)
		if text == "" {
			wb, okB = []byte{}, true
		}
		wn, okN := numOf(text, 256)
		if text == "" {
			wn, okN = new(big.Int), true
		}
		w64, ok64 := numOf(text, 64)
		if text == "" {
			w64, ok64 = new(big.Int), true
		}
		c.NonTrivial(isStr)
		c.Class(fmt.Sprintf("string=%t bytes=%t number=%t", isStr, okB, okN))
		keepIn := append([]byte{}, in...)

		b := hexutil.Bytes{1, 2, 3}
		err := b.UnmarshalJSON(in)
		if (err == nil) != (isStr && okB) || err == nil && !bytes.Equal(b, wb) || err != nil && !bytes.Equal(b, []byte{1, 2, 3}) {
			rt.Fatalf("bytes of %s: %x, %v", in, []byte(b), err)
		}
		if err == nil && len(b) > 0 {
			b[0] ^= 0xff
		}
		n := (*hexutil.Big)(big.NewInt(77))
		err = n.UnmarshalJSON(in)
		if (err == nil) != (isStr && okN) || err == nil && n.ToInt().Cmp(wn) != 0 || err != nil && n.ToInt().Int64() != 77 {
			rt.Fatalf("number of %s: %s, %v", in, n, err)
		}
		u := hexutil.Uint64(77)
		err = u.UnmarshalJSON(in)
		if (err == nil) != (isStr && ok64) || err == nil && uint64(u) != w64.Uint64() || err != nil && u != 77 {
			rt.Fatalf("uint64 of %s: %s, %v", in, u, err)
		}
		v := hexutil.Uint(77)
		err = v.UnmarshalJSON(in)
		if (err == nil) != (isStr && ok64) || err == nil && uint64(v) != w64.Uint64() || err != nil && v != 77 {
			rt.Fatalf("uint of %s: %s, %v", in, v, err)
		}
		// fixed sizes
		size := h.Int(rt, 0, 8, "size")
		if isStr && okB && h.Bool(rt, "fit") {
			size = len(wb)
		}
		out := bytes.Repeat([]byte{0xEE}, size)
		keep := append([]byte{}, out...)
		err = hexutil.UnmarshalFixedJSON(reflect.TypeOf(""), in, out)
		ok := isStr && okB && len(wb) == size
		if (err == nil) != ok || ok && !bytes.Equal(out, wb) || !ok && !bytes.Equal(out, keep) {
			rt.Fatalf("%d bytes of %s: %x, %v", size, in, out, err)
		}
		if isStr {
			copy(out, keep)
			pb, okP := bytesOf("0x" + text)
			if okB {
				pb, okP = wb, true
			}
			ok = okP && len(pb) == size
			err = hexutil.UnmarshalFixedUnprefixedText("x", []byte(text), out)
			if (err == nil) != ok || ok && !bytes.Equal(out, pb) || !ok && !bytes.Equal(out, keep) {
				rt.Fatalf("%d bytes of %q without prefix: %x, %v", size, text, out, err)
			}
			copy(out, keep)
			ok = okB && len(wb) == size
			err = hexutil.UnmarshalFixedText("x", []byte(text), out)
			if (err == nil) != ok || ok && !bytes.Equal(out, wb) || !ok && !bytes.Equal(out, keep) {
				rt.Fatalf("%d bytes of %q: %x, %v", size, text, out, err)
			}
		}
		if !bytes.Equal(in, keepIn) {
			rt.Fatalf("the input %s was changed to %s", keepIn, in)
		}
	})
}
