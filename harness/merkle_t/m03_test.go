package merkle_t

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"
	"pgregory.net/rapid"

	"verifharness/h"
)

func drawHeader(rt *rapid.T) (trie.NodeHeader, []byte) {
	var hd trie.NodeHeader
	var want []byte
	nibs := h.Int(rt, 0, 7, "prefix")
	kids := h.Bool(rt, "children")
	value := h.Bool(rt, "value")
	if value {
		hd.NT |= 0x20
	}
	var enc []byte
	if nibs > 0 {
		hd.NT |= 0x80
		if nibs%2 == 1 {
			hd.NT |= 0x10 | trie.NodeType(h.Int(rt, 0, 15, "first"))
		}
		hd.KeyString = trie.KeyPart{} // as the trie makes it: never nil with a prefix
		for i := 0; i < nibs/2; i++ {
			hd.KeyString = append(hd.KeyString, rapid.Byte().Draw(rt, "k"))
		}
		enc, _ = rtl.Marshal([]byte(hd.KeyString))
	}
	if kids {
		hd.NT |= 0x40
		hd.ChildrenFlag = trie.ChildFlag{rapid.Byte().Draw(rt, "f0"), byte(h.Int(rt, 1, 255, "f1"))}
	}
	want = append([]byte{byte(hd.NT)}, enc...)
	if kids {
		want = append(want, hd.ChildrenFlag[:]...)
	}
	return hd, want
}

func drawNodeProof(rt *rapid.T, c *h.C, last bool) (*trie.NodeProof, []item, bool) {
	kind := h.Int(rt, 0, 5, "kind")
	hd, hbytes := trie.NodeHeader{}, []byte{0}
	var ptype trie.ProofType
	mp, list := drawProofs(rt, c, 5)
	var vh *common.Hash
	if h.Bool(rt, "valueHash") {
		x := common.Hash(mkItem(drawHash(rt), false).v)
		vh = &x
	}
	if h.OneIn(rt, 5, "nilproofs") {
		mp, list = nil, nil
	}
	var items []item
	ok := true
	nilOr := func(v *common.Hash) []byte {
		if v == nil {
			return nilHash()
		}
		return v[:]
	}
	hdHash := func() []byte {
		x, err := hd.HashValue()
		if err != nil || !bytes.Equal(x, keccak(hbytes)) {
			rt.Fatalf("header hash %x %v, want that of %x", x, err, hbytes)
		}
		return x
	}
	switch kind {
	case 0:
		ptype = trie.ProofMerkleOnly
		items = list
	case 1:
		ptype = trie.ProofType(h.Int(rt, 0, 15, "child"))
		hd, hbytes = drawHeader(rt)
		items = append(append([]item{}, list...), mkItem(keccak(hdHash(), nilOr(vh)), true))
	case 2:
		ptype = trie.ProofValue
		hd, hbytes = drawHeader(rt)
		if mp != nil && h.Int(rt, 0, 3, "one") > 0 {
			// at most one hash, on the right side
			mp = common.NewMerkleProofs()
			list = []item{mkItem(drawHash(rt), false)}
			mp.Append(common.Hash(list[0].v), false)
		}
		items = []item{mkItem(hdHash(), true)}
		vh = nil
		if len(list) == 1 {
			items = append(items, mkItem(list[0].v[:], false))
		} else if mp != nil && len(mp.Hashs) > 1 {
			ok = false
		} else if mp != nil && len(mp.Hashs) == 1 {
			items = append(items, mkItem(list[0].v[:], false))
		}
	case 3:
		ptype = trie.ProofHdsSummary
		ok = vh != nil
		if ok {
			items = append([]item{mkItem(vh[:], true)}, list...)
		}
	case 4:
		ptype = rapid.SampledFrom([]trie.ProofType{trie.ProofHeaderDeltas, trie.ProofHeaderHistory, trie.ProofHeaderStateRoot,
			trie.ProofHeaderVCCRoot, trie.ProofHeaderCCCRoot, trie.ProofHeaderHdsRoot, trie.ProofHeaderBase, trie.ProofHeaderBase + 79}).Draw(rt, "header")
		ok = vh != nil && len(list) > 0
		if ok {
			items = append([]item{mkItem(vh[:], true)}, list...)
		}
	case 5:
		ptype = trie.ProofExistence
		hd, hbytes = drawHeader(rt)
		ok = false
	}
	c.Op("%s", ptype)
	return trie.NewNodeProof(ptype, hd, vh, mp), items, ok
}

func TestM03_chain(t *testing.T) {
	h.Check(t, ">=2 steps of different kinds", h.N{Quick: 10000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		var chain trie.ProofChain
		var items []item
		ok := true
		kinds := map[trie.ProofType]bool{}
		key, pos := new(big.Int), 0
		for i := h.Int(rt, 1, 5, "steps"); i > 0; i-- {
			np, it, good := drawNodeProof(rt, c, false)
			if !good && h.Int(rt, 0, 4, "keepbad") > 0 {
				continue
			}
			chain = append(chain, np)
			items = append(items, it...)
			ok = ok && good
			kinds[np.PType] = true
			if np.ChildProofs != nil {
				for j := 0; j < np.ChildProofs.Len(); j++ {
					key.SetBit(key, pos, np.ChildProofs.Paths.Bit(j))
					pos++
				}
			}
		}
		c.NonTrivial(len(kinds) >= 2)
		if ok {
			c.Class("valid chain")
		}
		leaf := drawHash(rt)
		want := fold(leaf, items)
		check := func(ch trie.ProofChain, what string) {
			got, err := ch.Proof(common.BytesToHash(leaf))
			if (err == nil) != ok {
				rt.Fatalf("%s: Proof: %v, expected success: %t", what, err, ok)
			}
			its, ierr := ch.ToItems()
			mp, merr := ch.ToMerkles()
			if (ierr == nil) != ok || (merr == nil) != ok {
				rt.Fatalf("%s: ToItems: %v, ToMerkles: %v, expected success: %t", what, ierr, merr, ok)
			}
			if ch.BigKey().Cmp(key) != 0 {
				rt.Fatalf("%s: BigKey()=%s, want %s", what, ch.BigKey(), key)
			}
			if ok {
				if !bytes.Equal(got, want) {
					rt.Fatalf("%s: Proof leads to %x, want %x", what, got, want)
				}
				if len(ch) > 0 {
					if !same(its, items) {
						rt.Fatalf("%s: ToItems()=%v", what, its)
					}
					if m, err := mp.Proof(common.BytesToHash(leaf)); err != nil || !bytes.Equal(m, want) {
						rt.Fatalf("%s: ToMerkles().Proof leads to %x (%v), want %x", what, m, err, want)
					}
				}
				step := leaf
				for _, np := range ch {
					var err error
					if step, err = np.Proof(common.BytesToHash(step)); err != nil {
						rt.Fatalf("%s: %v", what, err)
					}
				}
				if !bytes.Equal(step, want) {
					rt.Fatalf("%s: step by step leads to %x, want %x", what, step, want)
				}
			}
			if trie.VerifyProofChain(common.BytesToHash(leaf), ch, want) != ok {
				rt.Fatalf("%s: VerifyProofChain is %t", what, !ok)
			}
			bad := append([]byte{}, want...)
			bad[h.Int(rt, 0, 31, "flip")] ^= 1
			if trie.VerifyProofChain(common.BytesToHash(leaf), ch, bad) {
				rt.Fatalf("%s: VerifyProofChain accepts another root", what)
			}
			lh := common.BytesToHash(leaf)
			r, err := trie.Proof{ToBeProof: &lh, Proofs: ch}.Proof()
			if (err == nil) != ok || (ok && !bytes.Equal(r, want)) {
				rt.Fatalf("%s: evidence leads to %x %v", what, r, err)
			}
			if ok && len(ch) > 0 && key.IsUint64() {
				hv := common.Height(key.Uint64())
				if !hv.IsNil() {
					r, err := ch.HistoryProof(hv, leaf)
					if err != nil || !bytes.Equal(r, want) {
						rt.Fatalf("%s: HistoryProof: %x %v", what, r, err)
					}
				}
				if o := hv + 1; !o.IsNil() {
					if _, err := ch.HistoryProof(o, leaf); err == nil {
						rt.Fatalf("%s: HistoryProof accepts another height", what)
					}
				}
			}
			if ok && len(ch) > 0 && !key.IsUint64() {
				low := new(big.Int).And(key, new(big.Int).SetUint64(1<<64-1))
				for _, hv := range []common.Height{common.Height(low.Uint64()), 0, 1<<64 - 2} {
					if _, err := ch.HistoryProof(hv, leaf); err == nil && !hv.IsNil() {
						rt.Fatalf("%s: HistoryProof of key %s accepts height %d", what, key, hv)
					}
				}
			}
			_ = ch.String()
			_ = ch.InfoString(0)
		}
		check(chain, "built")
		enc, err := rtl.Marshal(chain)
		if err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		var b1 trie.ProofChain
		if err := rtl.Unmarshal(enc, &b1); err != nil {
			rt.Fatalf("Unmarshal: %v", err)
		}
		check(b1, "from rtl")
		if !chain.Equal(b1) || !b1.Equal(chain) {
			rt.Fatalf("rtl round trip is not Equal")
		}
		js, err := json.Marshal(chain)
		if err != nil {
			rt.Fatalf("json: %v", err)
		}
		var b2 trie.ProofChain
		if err := json.Unmarshal(js, &b2); err != nil {
			rt.Fatalf("json: %v\n%s", err, js)
		}
		check(b2, "from json")
		if !chain.Equal(b2) || !b2.Equal(chain) {
			rt.Fatalf("json round trip is not Equal: %s", js)
		}
		// clones are equal, independent
		cl := chain.Clone()
		if !cl.Equal(chain) {
			rt.Fatalf("clone is not Equal")
		}
		if len(cl) == 0 {
			return
		}
		at := h.Int(rt, 0, len(cl)-1, "at")
		np := cl[at]
		changed := true
		switch h.Int(rt, 0, 4, "change") {
		case 0:
			np.PType ^= 1
		case 1:
			if np.ValueHash == nil {
				np.ValueHash = &common.Hash{3}
			} else {
				np.ValueHash[5] ^= 1
			}
		case 2:
			if np.ChildProofs == nil || len(np.ChildProofs.Hashs) == 0 {
				np.ChildProofs = common.NewMerkleProofs()
				np.ChildProofs.Append(common.Hash{1}, true)
			} else {
				np.ChildProofs.Hashs[0][0] ^= 1
			}
		case 3:
			if len(np.Header.KeyString) > 0 {
				np.Header.KeyString[0] ^= 1
			} else {
				np.Header.NT ^= 0x20
			}
		case 4:
			if np.ChildProofs != nil && np.ChildProofs.Len() > 0 {
				np.ChildProofs.Paths.SetBit(np.ChildProofs.Paths, 0, 1-np.ChildProofs.Paths.Bit(0))
			} else {
				changed = false
			}
		}
		if changed && (cl.Equal(chain) || chain.Equal(cl)) {
			rt.Fatalf("Equal of a changed clone")
		}
		check(chain, "origin of a changed clone")
		if cl[:at].Equal(chain) {
			rt.Fatalf("Equal of chains of different length")
		}
	})
}

// A header proof names the chain, height and field it is for.
func TestM03_binding(t *testing.T) {
	h.Check(t, "always", h.N{Quick: 20000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		ids := []uint32{0, 1, 2, 256, 0x01000000, 0xffffffff, 0x102}
		hts := []uint64{0, 1, 2, 255, 256, 1 << 32, 1<<63 + 5}
		types := []trie.ProofType{trie.ProofHdsSummary, trie.ProofHeaderDeltas, trie.ProofHeaderHistory, trie.ProofHeaderStateRoot,
			trie.ProofHeaderVCCRoot, trie.ProofHeaderCCCRoot, trie.ProofHeaderHdsRoot, trie.ProofValue, trie.ProofMerkleOnly, trie.ProofExistence, 3,
			trie.ProofHeaderBase, trie.ProofHeaderBase + 1, trie.ProofHeaderBase + 12, trie.ProofHeaderBase + 79}
		index := map[trie.ProofType]int{trie.ProofHeaderDeltas: 12, trie.ProofHeaderHistory: 1, trie.ProofHeaderStateRoot: 13,
			trie.ProofHeaderVCCRoot: 16, trie.ProofHeaderCCCRoot: 17, trie.ProofHeaderHdsRoot: 20, trie.ProofHeaderBase: 0,
			trie.ProofHeaderBase + 1: 1, trie.ProofHeaderBase + 12: 12, trie.ProofHeaderBase + 79: 79}
		id, id2 := rapid.SampledFrom(ids).Draw(rt, "id"), rapid.SampledFrom(ids).Draw(rt, "id2")
		ht, ht2 := rapid.SampledFrom(hts).Draw(rt, "ht"), rapid.SampledFrom(hts).Draw(rt, "ht2")
		pt := rapid.SampledFrom(types).Draw(rt, "type")
		i := rapid.SampledFrom([]int{0, 1, 12, 13, 16, 17, 20, 79}).Draw(rt, "idx")
		if h.Bool(rt, "same") {
			id2 = id
		}
		if h.Bool(rt, "same2") {
			ht2 = ht
		}
		if x, ok := index[pt]; ok && h.Bool(rt, "same3") {
			i = x
		}
		c.Op("type %s of chain %d height %d field %d, asked for %d %d", pt, id, ht, i, id2, ht2)
		c.NonTrivial(true)
		pos := make([]byte, 12)
		binary.BigEndian.PutUint32(pos, id)
		binary.BigEndian.PutUint64(pos[4:], ht)
		isHeader := false
		fi, okIdx := index[pt]
		gi, gok := pt.IsProofHeaderProperty()
		if gok != okIdx || gi != fi {
			rt.Fatalf("%x.IsProofHeaderProperty()=%d,%t", byte(pt), gi, gok)
		}
		isHeader = okIdx
		samePos := id == id2 && ht == ht2
		mk := func(v []byte) *trie.NodeProof {
			vh := common.BytesToHash(v)
			return &trie.NodeProof{PType: pt, ValueHash: &vh}
		}
		np := mk(keccak(pos, []byte{byte(i)}))
		if got := np.IsHeaderOf(common.ChainID(id2), common.Height(ht2)); got != (isHeader && samePos && i == fi) {
			rt.Fatalf("IsHeaderOf is %t", got)
		}
		np = mk(keccak(pos))
		if got := np.IsHeaderPropertyOf(common.ChainID(id2), common.Height(ht2), i); got != (isHeader && samePos && i == fi) {
			rt.Fatalf("IsHeaderPropertyOf(%d) is %t", i, got)
		}
		if got := np.IsHdsSummaryOf(common.ChainID(id2), common.Height(ht2)); got != (pt == trie.ProofHdsSummary && samePos) {
			rt.Fatalf("IsHdsSummaryOf is %t", got)
		}
		var none *trie.NodeProof
		if none.IsHeaderOf(0, 0) || none.IsHdsSummaryOf(0, 0) || none.IsHeaderPropertyOf(0, 0, 0) || (&trie.NodeProof{PType: pt}).IsHeaderOf(0, 0) {
			rt.Fatalf("a nil proof is of something")
		}
		if got := common.HeaderIndexHash(common.ToHeaderPosHashBuffer(common.ChainID(id), common.Height(ht)), byte(i)); !bytes.Equal(got, keccak(pos, []byte{byte(i)})) {
			rt.Fatalf("HeaderIndexHash=%x", got)
		}
	})
}

// A chain read from altered bytes fails cleanly wherever it is used.
func TestM03_hostile(t *testing.T) {
	h.Check(t, "altered bytes which were still read as a chain", h.N{Quick: 15000, Thorough: 400000}, func(rt *rapid.T, c *h.C) {
		var chain trie.ProofChain
		for i := h.Int(rt, 1, 3, "steps"); i > 0; i-- {
			np, _, _ := drawNodeProof(rt, c, false)
			chain = append(chain, np)
			if h.OneIn(rt, 10, "nilstep") {
				chain = append(chain, nil)
			}
		}
		bs, err := rtl.Marshal(chain)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		var x trie.ProofChain
		for i := h.Int(rt, 0, 4, "mutations"); i > 0; i-- {
			at := h.Int(rt, 0, len(bs)-1, "at")
			switch h.Int(rt, 0, 3, "how") {
			case 0:
				bs[at] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0x81, 0xc0, 0xff}).Draw(rt, "b")
			case 1:
				bs[at] ^= 1 << uint(h.Int(rt, 0, 7, "bit"))
			case 2:
				bs = append(bs[:at], bs[at+1:]...)
				if len(bs) == 0 {
					return
				}
			case 3:
				bs = append(bs[:at+1], bs[at:]...)
			}
		}
		c.Op("%x", bs)
		if rtl.Unmarshal(bs, &x) != nil {
			return
		}
		c.NonTrivial(true)
		leaf := common.Hash{1}
		r1, err1 := x.Proof(leaf)
		its, err2 := x.ToItems()
		_, err3 := x.ToMerkles()
		if (err1 == nil) != (err2 == nil) || (err1 == nil) != (err3 == nil) {
			rt.Fatalf("Proof: %v, ToItems: %v, ToMerkles: %v", err1, err2, err3)
		}
		if err1 == nil {
			var list []item
			for _, it := range its {
				list = append(list, item{v: it.Val, left: it.Order})
			}
			if !bytes.Equal(r1, fold(leaf[:], list)) {
				rt.Fatalf("Proof and ToItems disagree")
			}
		}
		_ = x.BigKey()
		for _, k := range [][]byte{{}, {1}, {0xff, 0xff, 0xff}, {0x12, 0x34}} {
			_, _ = x.IsExist(k)
		}
		_, _ = x.ExistenceHash()
		_, _ = x.HistoryProof(3, leaf[:])
		_ = x.String()
		if !x.Clone().Equal(x) {
			rt.Fatalf("clone of a decoded chain is not Equal")
		}
		if enc, err := rtl.Marshal(x); err == nil {
			// the bytes may have been a loose form of the chain; what comes out must only not panic
			var y trie.ProofChain
			_ = rtl.Unmarshal(enc, &y)
		}
	})
}

// M02: lists of repetitions against the positions they stand for.
func TestM02_times(t *testing.T) {
	h.Check(t, "at least two positions, one of them repeated", h.N{Quick: 20000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		var ms common.MoreTimes
		model := map[int]int{}
		last, total := -1, 0
		for i := h.Int(rt, 0, 12, "appends"); i > 0; i-- {
			at := last + h.Int(rt, -1, 2, "step")
			if h.OneIn(rt, 3, "again") {
				at = last
			}
			c.Op("append %d", at)
			ms = ms.Append(at)
			if at >= 0 && at >= last {
				model[at]++
				total++
				last = at
			}
		}
		c.NonTrivial(len(model) > 1 && total > len(model))
		if ms.Count() != total || len(ms) != len(model) || !ms.IsValid() {
			rt.Fatalf("%v stands for %d repetitions at %d positions, valid %t", ms, ms.Count(), len(ms), ms.IsValid())
		}
		var full []int
		for i := 0; i <= last+3; i++ {
			times, ok := ms.Find(i)
			if ok != (model[i] > 0) || times != model[i] {
				rt.Fatalf("Find(%d) of %v: %d %t", i, ms, times, ok)
			}
			for j := 0; j <= model[i]; j++ {
				full = append(full, i)
			}
		}
		for i, want := range full {
			if got := ms.GetHashsIndex(i); got != want {
				rt.Fatalf("hash %d of all is number %d of those kept, not %d: %v", i, got, want, ms)
			}
		}
		cp := ms.Clone()
		if !cp.Equal(ms) || !ms.Equal(cp) || (cp == nil) != (ms == nil) {
			rt.Fatalf("copy %v of %v", cp, ms)
		}
		if len(cp) == 0 {
			return
		}
		k := h.Int(rt, 0, len(cp)-1, "k")
		old := ms[k]
		if h.Bool(rt, "times") {
			cp[k].Times++
		} else {
			cp[k].Index += 1000
		}
		if ms[k] != old || cp.Equal(ms) || ms.Equal(cp) || ms[k].Equal(cp[k]) {
			rt.Fatalf("copy changed to %v, original %v", cp, ms)
		}
		if ms.Equal(nil) || common.MoreTimes(nil).Equal(ms) || ms.Equal(ms[:len(ms)-1]) || !common.MoreTimes(nil).IsValid() || (common.MoreTimes{}).IsValid() {
			rt.Fatal("lists of other lengths")
		}
		// lists out of order, or with no or negative repetitions, are not valid
		bad := ms.Clone()
		switch h.Int(rt, 0, 3, "bad") {
		case 0:
			bad[k].Times = -h.Int(rt, 0, 3, "t")
		case 1:
			bad[k].Index = -1 - h.Int(rt, 0, 3, "i")
		case 2:
			bad = append(bad, bad[k])
		case 3:
			bad = append(bad, common.MoreTime{Index: bad[len(bad)-1].Index - h.Int(rt, 0, 1, "d"), Times: 1})
		}
		if bad.IsValid() {
			rt.Fatalf("%v is called valid", bad)
		}
	})
}
