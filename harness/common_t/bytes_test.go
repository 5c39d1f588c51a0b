package common_t

import (
	"bytes"
	"encoding/hex"
	"math"
	"math/big"
	"sort"
	"strings"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"pgregory.net/rapid"

	"verifharness/h"
)

func drawSlices(rt *rapid.T, label string) [][]byte {
	if h.OneIn(rt, 8, label+"nil") {
		return nil
	}
	n := h.Len(rt, 6, label+"n")
	r := make([][]byte, n)
	for i := range r {
		switch {
		case h.OneIn(rt, 8, "nil"):
		case i > 0 && h.OneIn(rt, 4, "dup"):
			r[i] = append([]byte{}, r[h.Int(rt, 0, i-1, "which")]...)
		default:
			r[i] = h.Roomy(h.Bytes(rt, 0, 3, "b"))
			if h.Bool(rt, "few") {
				for j := range r[i] {
					r[i][j] &= 1
				}
			}
		}
	}
	return r
}

func cpSlices(a [][]byte) [][]byte {
	if a == nil {
		return nil
	}
	r := make([][]byte, len(a))
	for i := range a {
		if a[i] != nil {
			r[i] = append([]byte{}, a[i]...)
		}
	}
	return r
}

func sameSlices(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// C06: bits and bytes cut out of strings.
func TestC06_bits(t *testing.T) {
	h.Check(t, "more than one byte, and the cut is not at a byte border", h.N{Quick: 150000, Thorough: 5000000}, func(rt *rapid.T, c *h.C) {
		bs := c.Roomy(h.Bytes(rt, 0, 12, "bs"))
		keep := append([]byte{}, bs...)
		bits := len(bs) * 8
		from := h.Int(rt, -1, bits+9, "from")
		size := h.Int(rt, -1, bits+9, "size")
		if h.OneIn(rt, 20, "huge") {
			size = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 7, math.MaxInt32, math.MinInt}).Draw(rt, "size")
		}
		c.Op("%x from %d size %d", bs, from, size)
		c.NonTrivial(len(bs) > 1 && (from%8 != 0 || size%8 != 0))
		got, err := common.SubBytes(bs, from, size)
		switch {
		case from < 0 || size <= 0:
			if err == nil {
				rt.Fatalf("from %d size %d is accepted", from, size)
			}
			c.Class("refused")
		case err != nil:
			rt.Fatalf("from %d size %d of %d bits: %v", from, size, bits, err)
		case from >= bits:
			if len(got) != 0 {
				rt.Fatalf("bits behind the end are %x", got)
			}
		default:
			n := size
			if n > bits-from {
				n = bits - from
			}
			x := new(big.Int).Rsh(new(big.Int).SetBytes(bs), uint(from))
			x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
			want := x.FillBytes(make([]byte, (n+7)/8))
			if !bytes.Equal(got, want) {
				rt.Fatalf("bits %d to %d of %x are %x, not %x", from, from+n, bs, got, want)
			}
		}
		// two bytes
		b0, b1 := byte(h.Int(rt, 0, 255, "b0")), byte(h.Int(rt, 0, 255, "b1"))
		sh, l := h.Int(rt, 0, 7, "shift"), h.Int(rt, 1, 8, "len")
		word := uint(b1)<<8 | uint(b0)
		if r := common.ShiftBits(b0, b1, uint8(sh), uint8(l)); uint(r) != word>>sh&(1<<l-1) {
			rt.Fatalf("ShiftBits(%x, %x, %d, %d) = %x", b0, b1, sh, l, r)
		}
		if r := common.ShiftBits(b0, b1, uint8(sh)); uint(r) != word>>sh&255 {
			rt.Fatalf("ShiftBits(%x, %x, %d) = %x", b0, b1, sh, r)
		}
		// padding, splitting
		n := h.Int(rt, -1, 16, "n")
		lp, rp := common.LeftPadBytes(bs, n), common.RightPadBytes(bs, n)
		pad := []byte{}
		if n > len(bs) {
			pad = make([]byte, n-len(bs))
		}
		if !bytes.Equal(lp, append(append([]byte{}, pad...), keep...)) || !bytes.Equal(rp, append(append([]byte{}, keep...), pad...)) {
			rt.Fatalf("%x padded to %d is %x and %x", bs, n, lp, rp)
		}
		if n >= -1 {
			parts, err := common.SplitBytes(bs, n)
			if (err != nil) != (n <= 0 || len(bs)%n != 0) {
				rt.Fatalf("splitting %d bytes by %d: %v", len(bs), n, err)
			}
			if err == nil {
				for _, p := range parts {
					if len(p) != n {
						rt.Fatalf("a part of %d bytes", len(p))
					}
				}
				if !bytes.Equal(common.ConcatenateBytes(parts), keep) {
					rt.Fatalf("%x split is %x", keep, parts)
				}
				for _, p := range parts {
					p[0] ^= 1
				}
			}
		}
		if !bytes.Equal(bs, keep) {
			rt.Fatalf("%x was changed to %x", keep, bs)
		}
		// copies and reversal
		for i, f := range []func([]byte) []byte{common.CopyBytes, common.CloneByteSlice} {
			cl := f(bs)
			if !bytes.Equal(cl, keep) || cl == nil || f(nil) != nil {
				rt.Fatalf("copy %d of %x is %x", i, bs, cl)
			}
			if len(cl) > 0 {
				cl[0] ^= 1
			}
			_ = append(cl, 7)
			if !bytes.Equal(bs, keep) {
				rt.Fatalf("copy %d shares memory", i)
			}
		}
		if z := common.BytesForRLP(nil); z == nil || len(z) != 0 {
			rt.Fatalf("BytesForRLP(nil) = %v", z)
		}
		rev := common.ReverseBytes(append([]byte{}, bs...))
		for i := range bs {
			if rev[len(bs)-1-i] != bs[i] {
				rt.Fatalf("%x reversed is %x", bs, rev)
			}
		}
	})
}

// C06: lists of byte strings.
func TestC06_slices(t *testing.T) {
	h.Check(t, "both lists have elements, some of them equal", h.N{Quick: 100000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		a, b := drawSlices(rt, "a"), drawSlices(rt, "b")
		if h.OneIn(rt, 5, "equal") {
			b = cpSlices(a)
		}
		ka, kb := cpSlices(a), cpSlices(b)
		c.Op("%x %x", a, b)
		inA := map[string]struct{}{}
		for _, s := range a {
			inA[string(s)] = struct{}{}
		}
		want := map[string]bool{}
		for _, s := range b {
			if _, ok := inA[string(s)]; ok {
				want[string(s)] = true
			}
		}
		c.NonTrivial(len(want) > 0)
		for i, got := range [][][]byte{common.BytesIntersection(a, b), common.BytesIntersectionMap(inA, b)} {
			seen := map[string]bool{}
			for _, s := range got {
				if seen[string(s)] || !want[string(s)] {
					rt.Fatalf("%d: what %x and %x share is %x", i, a, b, got)
				}
				seen[string(s)] = true
			}
			if len(seen) != len(want) {
				rt.Fatalf("%d: what %x and %x share is %x", i, a, b, got)
			}
		}
		if common.BytesSliceEqual(a, b) != sameSlices(a, b) {
			rt.Fatalf("%x equals %x: %t", a, b, common.BytesSliceEqual(a, b))
		}
		var all []byte
		for _, s := range a {
			all = append(all, s...)
		}
		if got := common.ConcatenateBytes(a); got == nil || !bytes.Equal(got, all) {
			rt.Fatalf("%x joined is %x", a, got)
		}
		cl := common.CopyBytesSlice(a)
		if (cl == nil) != (a == nil) || !sameSlices(cl, a) {
			rt.Fatalf("the copy of %x is %x", a, cl)
		}
		for i := range cl {
			if (cl[i] == nil) != (a[i] == nil) {
				rt.Fatalf("element %d of the copy of %x is %v", i, a, cl[i])
			}
			if len(cl[i]) > 0 {
				cl[i][0] ^= 1
			}
			cl[i] = nil
		}
		if !sameSlices(a, ka) || !sameSlices(b, kb) {
			rt.Fatalf("the lists were changed to %x %x", a, b)
		}
		// order of lists: shorter first, then by the first difference
		cmp := func(x, y interface{}) int { return bytes.Compare(x.([]byte), y.([]byte)) }
		w := 0
		switch {
		case a == nil || b == nil:
			w = map[bool]int{true: 1}[a != nil] - map[bool]int{true: 1}[b != nil]
		case len(a) != len(b):
			w = 1
			if len(a) < len(b) {
				w = -1
			}
		default:
			for i := 0; i < len(a) && w == 0; i++ {
				w = bytes.Compare(a[i], b[i])
			}
		}
		if got := common.CompareSlices(a, b, cmp); got != w {
			rt.Fatalf("%x and %x compare as %d, not %d", a, b, got, w)
		}
		// sorting pointers: nil first
		nps := h.Int(rt, 0, 6, "ps")
		if h.OneIn(rt, 40, "many pointers") {
			nps = 33
		}
		ps := make([]*int, nps)
		nils := 0
		for i := range ps {
			if h.OneIn(rt, 3, "nilp") {
				nils++
				continue
			}
			v := h.Int(rt, 0, 3, "v")
			ps[i] = &v
		}
		for i := -1; i <= len(ps); i++ {
			for j := -1; j <= len(ps); j++ {
				less, more := common.PointerSliceLess(ps, i, j)
				wl, wm := false, false
				if i != j && i >= 0 && j >= 0 && i < len(ps) && j < len(ps) {
					wl, wm = ps[i] == nil && ps[j] != nil, ps[i] != nil && ps[j] != nil
				}
				if more != wm || less != wl {
					rt.Fatalf("PointerSliceLess of %d %d (%v)=%t,%t", i, j, ps, less, more)
				}
			}
		}
		for _, x := range []interface{}{nil, 7, []*int(nil), []int{1, 2}, "ab"} {
			if less, more := common.PointerSliceLess(x, 0, 1); less || more {
				rt.Fatalf("PointerSliceLess(%v)=%t,%t", x, less, more)
			}
		}
		sort.Slice(ps, func(i, j int) bool {
			if less, more := common.PointerSliceLess(ps, i, j); !more {
				return less
			}
			return *ps[i] < *ps[j]
		})
		for i := range ps {
			if (ps[i] == nil) != (i < nils) || i > nils && *ps[i] < *ps[i-1] {
				rt.Fatalf("pointers are not sorted")
			}
			if i > 0 {
				x, more := common.PointerCompare(ps[i-1], ps[i])
				if more != (i-1 >= nils) || !more && x != map[bool]int{true: -1}[i >= nils] {
					rt.Fatalf("pointers %d %d compare as %d %t", i-1, i, x, more)
				}
			}
		}
	})
}

// C06: hex helpers.
func TestC06_hex(t *testing.T) {
	h.Check(t, "the text is not empty and not plain hex", h.N{Quick: 100000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		s := hex.EncodeToString(h.Bytes(rt, 0, 6, "bs"))
		if h.Bool(rt, "upper") {
			s = strings.ToUpper(s)
		}
		if h.OneIn(rt, 3, "odd") && len(s) > 0 {
			s = s[1:]
		}
		valid := true
		if h.OneIn(rt, 3, "bad") {
			i := h.Int(rt, 0, len(s), "at")
			s = s[:i] + rapid.SampledFrom([]string{"g", " ", "x", "é", "-", "@", "`", "/", ":", "\x00"}).Draw(rt, "ch") + s[i:]
			valid = false
		}
		prefix := rapid.SampledFrom([]string{"", "", "0x", "0X"}).Draw(rt, "prefix")
		full := prefix + s
		c.Op("%q", full)
		c.NonTrivial(full != "" && (!valid || prefix != "" || len(s)%2 == 1))
		if common.IsHex(s) != (valid && len(s)%2 == 0) {
			rt.Fatalf("%q is hex: %t", s, common.IsHex(s))
		}
		has := len(full) >= 2 && (full[:2] == "0x" || full[:2] == "0X")
		if common.HasHexPrefix(full) != has {
			rt.Fatalf("%q has a prefix: %t", full, !has)
		}
		got, err := common.DecodeHex(full)
		rest := full
		if has {
			rest = full[2:]
		}
		want, werr := hex.DecodeString(rest)
		if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(got, want) {
			rt.Fatalf("%q decodes to %x, %v", full, got, err)
		}
		if valid {
			p := s
			if len(p)%2 == 1 {
				p = "0" + p
			}
			w, _ := hex.DecodeString(p)
			if g := common.FromHex(full); !bytes.Equal(g, w) {
				rt.Fatalf("FromHex(%q) = %x, not %x", full, g, w)
			}
			if len(s)%2 == 0 {
				if !strings.EqualFold(common.Bytes2Hex(w), s) || !bytes.Equal(common.Hex2Bytes(s), w) {
					rt.Fatalf("%q gives %x", s, common.Hex2Bytes(s))
				}
				n := h.Int(rt, 0, 9, "fixed")
				f := common.Hex2BytesFixed(s, n)
				x := new(big.Int).SetBytes(w)
				x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1)))
				if len(f) != n || new(big.Int).SetBytes(f).Cmp(x) != 0 {
					rt.Fatalf("%q in %d bytes is %x", s, n, f)
				}
			}
		}
	})
}
