package common_t

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func keccak(bs ...[]byte) []byte {
	k := sha3.NewLegacyKeccak256()
	for _, b := range bs {
		k.Write(b)
	}
	return k.Sum(nil)
}

// drawU64 draws words near the places where arithmetic on epochs of b blocks turns.
func drawU64(rt *rapid.T, b uint64, label string) uint64 {
	switch h.Int(rt, 0, 6, label) {
	case 0:
		return math.MaxUint64 - uint64(h.Int(rt, 0, 3, "top"))
	case 1:
		return uint64(h.Int(rt, 0, 5, "small"))
	case 2:
		return math.MaxUint64/b + uint64(int64(h.Int(rt, -2, 2, "q")))
	case 3:
		return math.MaxUint64/b*b + uint64(int64(h.Int(rt, -2, 2, "q")))
	case 4:
		return uint64(h.Int(rt, 0, 100, "e"))*b + uint64(int64(h.Int(rt, -2, 2, "q")))
	case 5:
		return uint64(1)<<uint(h.Int(rt, 0, 63, "sh")) + uint64(int64(h.Int(rt, -2, 2, "d")))
	}
	return rapid.Uint64().Draw(rt, "any")
}

func ubig(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

// val is the place of a number in the order: nil counts as -1.
func val(u uint64) *big.Int {
	if u == math.MaxUint64 {
		return big.NewInt(-1)
	}
	return ubig(u)
}

func isInt(h *big.Int) bool { return h.IsUint64() && h.Uint64() != math.MaxUint64 }

// C01: heights, epochs, blocks and eras against unlimited arithmetic.
func TestC01_arith(t *testing.T) {
	oldB, oldE := common.BlocksInEpoch, common.EpochsInEra
	defer func() { common.BlocksInEpoch, common.EpochsInEra = oldB, oldE }()
	h.Check(t, "a number is nil, at an epoch border or beyond 2^32", h.N{Quick: 200000, Thorough: 10000000}, func(rt *rapid.T, c *h.C) {
		common.BlocksInEpoch, common.EpochsInEra = oldB, oldE
		if h.OneIn(rt, 3, "conf") {
			common.BlocksInEpoch = rapid.SampledFrom([]uint64{1, 2, 7, 64, 1000, 4096, 100000}).Draw(rt, "B")
			common.EpochsInEra = rapid.SampledFrom([]uint64{1, 3, 36}).Draw(rt, "E")
		}
		B := common.BlocksInEpoch
		hu, ou := drawU64(rt, B, "h"), drawU64(rt, B, "o")
		if h.OneIn(rt, 6, "same") {
			ou = hu
		}
		hh, oh := common.Height(hu), common.Height(ou)
		c.Op("B %d h %d o %d", B, hu, ou)
		c.NonTrivial(hh.IsNil() || oh.IsNil() || hu%B <= 1 || hu%B == B-1 || hu > math.MaxUint32)
		if hh.IsNil() != (hu == math.MaxUint64) {
			rt.Fatalf("%d: IsNil %t", hu, hh.IsNil())
		}
		// splitting and joining
		e, b := hh.Split()
		if hh.IsNil() {
			if !e.IsNil() || !b.IsNil() || !hh.EpochNum().IsNil() || !hh.BlockNum().IsNil() || hh.EraNum() != common.NilEra ||
				hh.UsefulEpoch() != 0 || hh.UsefulBlock() != 0 || hh.IsFirstOfEpoch() || hh.IsLastOfEpoch() || common.ToHeight(e, b) != hh {
				rt.Fatalf("the parts of nil are %v %v", e, b)
			}
			c.Class("nil")
		} else {
			if uint64(e) != hu/B || uint64(b) != hu%B || hh.EpochNum() != e || hh.BlockNum() != b || hh.UsefulEpoch() != e || hh.UsefulBlock() != b {
				rt.Fatalf("%d has parts %v %v, %v %v", hu, e, b, hh.EpochNum(), hh.BlockNum())
			}
			if back := common.ToHeight(e, b); back != hh {
				rt.Fatalf("%d taken apart and joined is %d", hu, back)
			}
			if uint64(hh.EraNum()) != hu/(B*common.EpochsInEra) {
				rt.Fatalf("%d is in era %d", hu, hh.EraNum())
			}
			if hh.IsFirstOfEpoch() != (hu%B == 0) || hh.IsLastOfEpoch() != (hu%B == B-1) ||
				b.IsFirstOfEpoch() != (hu%B == 0) || b.IsLastOfEpoch() != (hu%B == B-1) || !b.IsValid() {
				rt.Fatalf("%d: first %t %t last %t %t", hu, hh.IsFirstOfEpoch(), b.IsFirstOfEpoch(), hh.IsLastOfEpoch(), b.IsLastOfEpoch())
			}
			if f := e.FirstHeight(); f.IsNil() || f > hh || uint64(hh-f) != hu%B || !f.IsFirstOfEpoch() {
				rt.Fatalf("the epoch of %d starts at %d", hu, f)
			}
			l := e.LastHeight()
			want := new(big.Int).Add(new(big.Int).Mul(ubig(uint64(e)), ubig(B)), ubig(B-1))
			if !isInt(want) && !l.IsNil() || isInt(want) && uint64(l) != want.Uint64() {
				rt.Fatalf("the epoch of %d ends at %d, not %v", hu, l, want)
			}
		}
		// joining any
		en := common.EpochNum(ou)
		bn := common.BlockNum(drawU64(rt, B, "b"))
		want := new(big.Int).Add(new(big.Int).Mul(ubig(ou), ubig(B)), ubig(uint64(bn)))
		g := common.ToHeight(en, bn)
		if ou == math.MaxUint64 || uint64(bn) >= B || !isInt(want) {
			if !g.IsNil() {
				rt.Fatalf("epoch %d block %d is height %d", ou, bn, g)
			}
			c.Class("no height")
		} else if uint64(g) != want.Uint64() {
			rt.Fatalf("epoch %d block %d is height %d, not %v", ou, bn, g, want)
		}
		if bn.IsValid() != (uint64(bn) < B) || bn.IsNil() != (bn == math.MaxUint32) || bn.IsLastOfEpoch() != (uint64(bn) == B-1) {
			rt.Fatalf("block %d: valid %t nil %t", bn, bn.IsValid(), bn.IsNil())
		}
		f, l := en.FirstHeight(), en.LastHeight()
		for i, x := range []struct {
			got  common.Height
			plus uint64
		}{{f, 0}, {l, B - 1}} {
			want := new(big.Int).Add(new(big.Int).Mul(ubig(ou), ubig(B)), ubig(x.plus))
			if (en.IsNil() || !isInt(want)) != x.got.IsNil() || !x.got.IsNil() && uint64(x.got) != want.Uint64() {
				rt.Fatalf("border %d of epoch %d is %d", i, ou, x.got)
			}
		}
		// multiples
		n := common.Height(drawU64(rt, B, "n"))
		m := hh.RemoveRemainder(n)
		switch {
		case n <= 1 || hh.IsNil():
			if m != hh {
				rt.Fatalf("%d without remainder of %d is %d", hu, n, m)
			}
		case uint64(m) != hu-hu%uint64(n):
			rt.Fatalf("%d without remainder of %d is %d", hu, n, m)
		}
		// order
		cmp := val(hu).Cmp(val(ou))
		diff := new(big.Int).Sub(val(hu), val(ou))
		diff.Abs(diff)
		if d, x := hh.Diff(oh); x != cmp || ubig(d).Cmp(diff) != 0 {
			rt.Fatalf("the difference of %d and %d is %d, %d", hu, ou, d, x)
		}
		if d, x := common.EpochNum(hu).Diff(en); x != cmp || ubig(d).Cmp(diff) != 0 {
			rt.Fatalf("the difference of epochs %d and %d is %d, %d", hu, ou, d, x)
		}
		he, heo := common.EraNum(hu), common.EraNum(ou)
		hep := common.EpochNum(hu)
		if hh.Compare(oh) != cmp || hep.Compare(en) != cmp || he.Compare(heo) != cmp || (&hep).Cmp(&en) != cmp || (&he).Cmp(&heo) != cmp {
			rt.Fatalf("%d and %d compare as %d %d %d %d %d, not %d", hu, ou, hh.Compare(oh), hep.Compare(en), he.Compare(heo), (&hep).Cmp(&en), (&he).Cmp(&heo), cmp)
		}
		if (&hh).Equal(&oh) != (hu == ou) || (&he).Equal(&heo) != (hu == ou) {
			rt.Fatalf("%d equals %d: %t", hu, ou, (&hh).Equal(&oh))
		}
		var nh *common.Height
		var ne *common.EraNum
		var np *common.EpochNum
		if nh.Equal(&hh) || (&hh).Equal(nh) || !nh.Equal(nil) || ne.Cmp(&he) != -1 || (&he).Cmp(ne) != 1 || ne.Cmp(nil) != 0 || np.Cmp(&hep) != -1 || (&hep).Cmp(np) != 1 ||
			nh.Clone() != nil || nh.Slice() != nil || ne.Value() != common.NilEra || ne.Slice() != nil || nh.String() != "" || np.ToString() != "" {
			rt.Fatalf("a missing number does not come before %d", hu)
		}
		// bytes
		var be [8]byte
		binary.BigEndian.PutUint64(be[:], hu)
		if !bytes.Equal(hh.Bytes(), be[:]) || !bytes.Equal(hep.Bytes(), be[:]) || !bytes.Equal(he.Bytes(), be[:]) || !bytes.Equal((&hh).Slice(), be[:]) || !bytes.Equal((&he).Slice(), be[:]) ||
			!bytes.Equal(bn.Bytes(), []byte{byte(bn >> 24), byte(bn >> 16), byte(bn >> 8), byte(bn)}) {
			rt.Fatalf("the bytes of %d are %x", hu, hh.Bytes())
		}
		front := h.Bytes(rt, 0, 6, "front")
		if x := common.BytesToHeight(append(append([]byte{}, front...), be[:]...)); x != hh {
			rt.Fatalf("the height in %x is %d", be, x)
		}
		if x := common.BytesToHeight(front); uint64(x) != new(big.Int).SetBytes(front).Uint64() {
			rt.Fatalf("the height in %x is %d", front, x)
		}
		cl := (&hh).Clone()
		*cl++
		if uint64(hh) != hu {
			rt.Fatalf("the copy of %d is the same", hu)
		}
		dec := fmt.Sprint(hu)
		if hu == math.MaxUint64 {
			dec = "<nil>"
		}
		if (&hh).String() != dec || hep.String() != dec || (&he).String() != dec {
			rt.Fatalf("%d is written %s %s %s", hu, (&hh).String(), hep, (&he).String())
		}
		// from big numbers
		x := ubig(hu)
		switch h.Int(rt, 0, 3, "big") {
		case 0:
			x.Add(x, ubig(ou))
		case 1:
			x.Neg(x)
		case 2:
			x.Rsh(x, uint(h.Int(rt, 0, 60, "rsh")))
		}
		if g, ok := hh.FromBig(x); ok != x.IsUint64() || ok && uint64(g) != x.Uint64() || !ok && !g.IsNil() {
			rt.Fatalf("%v is height %d, %t", x, g, ok)
		}
		if g, ok := common.MainChainID.FromBig(x); ok != (x.IsUint64() && x.Uint64() <= math.MaxUint32) || ok && uint64(g) != x.Uint64() || !ok && !g.IsNil() {
			rt.Fatalf("%v is chain %d, %t", x, g, ok)
		}
		if g, ok := hh.FromBig(nil); ok || !g.IsNil() {
			rt.Fatalf("nil is height %d", g)
		}
	})
}

// C01: blocks of an epoch are shared out completely; chain ids.
func TestC01_share(t *testing.T) {
	oldB := common.BlocksInEpoch
	defer func() { common.BlocksInEpoch = oldB }()
	h.Check(t, "blocks do not divide evenly", h.N{Quick: 3000, Thorough: 60000}, func(rt *rapid.T, c *h.C) {
		common.BlocksInEpoch = rapid.SampledFrom([]uint64{oldB, oldB, 1, 17, 360, 4096}).Draw(rt, "B")
		size := h.Int(rt, 1, 400, "size")
		c.Op("B %d size %d", common.BlocksInEpoch, size)
		c.NonTrivial(common.BlocksInEpoch%uint64(size) != 0)
		want := make([]int, size)
		for b := 0; b < int(common.BlocksInEpoch); b++ {
			want[b%size]++
		}
		for i := range want {
			if n := common.CommID(i).ShouldPropose(size); n != want[i] {
				rt.Fatalf("member %d of %d should propose %d of %d blocks, not %d", i, size, want[i], common.BlocksInEpoch, n)
			}
		}
	})
}

func drawChain(rt *rapid.T, label string) common.ChainID {
	switch h.Int(rt, 0, 3, label) {
	case 0:
		return common.ChainID(h.Int(rt, 0, 4, "c"))
	case 1:
		return common.ChainID(int(common.ReservedMaxChainID) + h.Int(rt, -2, 2, "c"))
	case 2:
		return common.ChainID(math.MaxUint32 - uint32(h.Int(rt, 0, 2, "c")))
	}
	return common.ChainID(rapid.Uint32().Draw(rt, "c"))
}

// C01: chain ids.
func TestC01_chain(t *testing.T) {
	h.Check(t, "an id is nil, reserved or beyond 2^20", h.N{Quick: 100000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		a, b := drawChain(rt, "a"), drawChain(rt, "b")
		c.Op("%d %d", a, b)
		c.NonTrivial(uint32(a) >= common.ReservedMaxChainID || a == 0)
		rank := func(x common.ChainID) int64 {
			if uint32(x) == common.ReservedMaxChainID {
				return -1
			}
			return int64(x)
		}
		want := 0
		if rank(a) < rank(b) {
			want = -1
		} else if rank(a) > rank(b) {
			want = 1
		}
		if a.Compare(b) != want || (common.ChainIDs{a, b}).Less(0, 1) != (want < 0) {
			rt.Fatalf("%d and %d compare as %d", a, b, a.Compare(b))
		}
		isNil := uint32(a) == common.ReservedMaxChainID
		if a.IsNil() != isNil || a.IsMain() != (a == 0) || a.IsSub() != (a != 0 && !isNil) || a.IsReserved() != (uint32(a) < common.ReservedMaxChainID) || a.IsUserDefined() != (uint32(a) > common.ReservedMaxChainID) {
			rt.Fatalf("%d: nil %t main %t sub %t reserved %t user %t", a, a.IsNil(), a.IsMain(), a.IsSub(), a.IsReserved(), a.IsUserDefined())
		}
		front := h.Bytes(rt, 0, 3, "front")
		if x := common.BytesToChainID(append(append([]byte{}, front...), a.Bytes()...)); x != a || len(a.Bytes()) != 4 {
			rt.Fatalf("%d in bytes and back is %d", a, x)
		}
		if x := common.BytesToChainID(front); uint64(x) != new(big.Int).SetBytes(front).Uint64() {
			rt.Fatalf("%x is chain %d", front, x)
		}
		if !bytes.Equal(a.Formalize(), a.Bytes()) || a.FromFormalize(a.Formalize()) != a {
			rt.Fatalf("%d formalized and back is %d", a, a.FromFormalize(a.Formalize()))
		}
		// positions of headers
		hh := common.Height(drawU64(rt, 1000, "h"))
		idx := byte(h.Int(rt, 0, 255, "index"))
		buf := common.ToHeaderPosHashBuffer(a, hh)
		pos := append(append(append([]byte{}, a.Bytes()...), hh.Bytes()...), idx)
		if got := common.HeaderIndexHash(buf, idx); !bytes.Equal(got, keccak(pos)) {
			rt.Fatalf("the hash of position %d of chain %d height %d is %x", idx, a, hh, got)
		}
	})
}

// C07: the gas in a pool is what was put in less what was taken, and never wraps.
func TestC07_gas(t *testing.T) {
	h.Check(t, "at least two operations of which one is refused", h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		start := drawU64(rt, 1000, "start")
		gp := common.GasPool(start)
		want := start
		n := h.Int(rt, 1, 12, "n")
		refused := false
		c.Op("start %d", start)
		for i := 0; i < n; i++ {
			amount := drawU64(rt, 1000, "amount")
			switch h.Int(rt, 0, 4, "near") {
			case 0:
				amount = want + uint64(int64(h.Int(rt, -1, 1, "d")))
			case 1:
				amount = math.MaxUint64 - want + uint64(int64(h.Int(rt, -1, 1, "d")))
			}
			if h.Bool(rt, "add") {
				c.Op("add %d", amount)
				p, _ := h.NoPanic(func() { gp.AddGas(amount) })
				over := amount > math.MaxUint64-want
				if (p != nil) != over {
					rt.Fatalf("adding %d to %d: panic %v", amount, want, p)
				}
				refused = refused || over
				if !over {
					want += amount
				}
			} else {
				c.Op("sub %d", amount)
				err := gp.SubGas(amount)
				if (err != nil) != (amount > want) {
					rt.Fatalf("taking %d from %d: %v", amount, want, err)
				}
				refused = refused || err != nil
				if err == nil {
					want -= amount
				}
			}
			if gp.Gas() != want || gp.String() != fmt.Sprint(want) {
				rt.Fatalf("the pool holds %d, not %d", gp.Gas(), want)
			}
		}
		c.NonTrivial(n >= 2 && refused)
	})
}

// C07: version numbers.
func TestC07_version(t *testing.T) {
	part := func(rt *rapid.T, l string) uint64 {
		if h.OneIn(rt, 4, l) {
			return rapid.SampledFrom([]uint64{0, 999, 1000, 1001, math.MaxUint64, 1 << 40, 1 << 63}).Draw(rt, "edge")
		}
		return uint64(h.Int(rt, 0, 999, "v"))
	}
	h.Check(t, "a part is at or beyond the limit, or none is zero", h.N{Quick: 60000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		a, b, p := part(rt, "a"), part(rt, "b"), part(rt, "p")
		a2, b2, p2 := part(rt, "a2"), part(rt, "b2"), part(rt, "p2")
		c.Op("%d.%d.%d %d.%d.%d", a, b, p, a2, b2, p2)
		c.NonTrivial(a >= 999 || b >= 999 || p >= 999 || a*b*p != 0)
		v, err := common.NewNodeVersion(a, b, p)
		if (err != nil) != (a > 999 || b > 999 || p > 999) {
			rt.Fatalf("version %d.%d.%d: %v", a, b, p, err)
		}
		if err != nil {
			c.Class("refused")
			return
		}
		if v.Major() != a || v.Minor() != b || v.Patch() != p || v.String() != fmt.Sprintf("%d.%d.%d", a, b, p) {
			rt.Fatalf("version %d.%d.%d reads %s", a, b, p, v)
		}
		if w, err := common.NewNodeVersion(a2, b2, p2); err == nil {
			less := a < a2 || a == a2 && (b < b2 || b == b2 && p < p2)
			if (v < w) != less {
				rt.Fatalf("%s before %s: %t", v, w, v < w)
			}
		}
	})
}
