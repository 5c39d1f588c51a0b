package trie_t

import (
	"bytes"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"
	"pgregory.net/rapid"

	"verifharness/h"
)

// refChain evaluates a list of (hash, on the left?) items from a start value, independently.
func refChain(start []byte, items []common.HashItem) []byte {
	cur := start
	for _, it := range items {
		if it.Order {
			cur = keccak(it.Val[:], cur)
		} else {
			cur = keccak(cur, it.Val[:])
		}
	}
	return cur
}

func checkValueProof(rt *rapid.T, c *codec, chain trie.ProofChain, vh, root []byte, what string) {
	h0 := common.BytesToHash(vh)
	if !trie.VerifyProofChain(h0, chain, root) {
		rt.Fatalf("%s: the proof does not verify against the root %x", what, root)
	}
	got, err := (trie.Proof{ToBeProof: &h0, Proofs: chain}).Proof()
	if err != nil || !bytes.Equal(got, root) {
		rt.Fatalf("%s: Proof.Proof() = %x,%v want %x", what, got, err, root)
	}
	items, err := chain.ToItems()
	if err != nil || !bytes.Equal(refChain(vh, items), root) {
		rt.Fatalf("%s: ToItems (%v) does not lead to the root", what, err)
	}
	ms, err := chain.ToMerkles()
	if err != nil {
		rt.Fatalf("%s: ToMerkles: %v", what, err)
	}
	if r, err := ms.Proof(h0); err != nil || !bytes.Equal(r, root) {
		rt.Fatalf("%s: ToMerkles does not lead to the root: %x %v", what, r, err)
	}
	if cl := chain.Clone(); !cl.Equal(chain) || !trie.VerifyProofChain(h0, cl, root) {
		rt.Fatalf("%s: the clone of the proof differs", what)
	}
	bs, err := rtl.Marshal(chain)
	if err != nil {
		rt.Fatalf("%s: encode proof: %v", what, err)
	}
	var back trie.ProofChain
	if err := rtl.Unmarshal(bs, &back); err != nil {
		rt.Fatalf("%s: decode proof %x: %v", what, bs, err)
	}
	if !trie.VerifyProofChain(h0, back, root) {
		rt.Fatalf("%s: the proof does not verify after a round trip over the wire", what)
	}
}

func checkExistence(rt *rapid.T, w *world, chain trie.ProofChain, k []byte, root []byte, fixed bool, what string) {
	want, exist := w.m[string(k)]
	r, err := chain.ExistenceHash()
	if err != nil || !bytes.Equal(r, root) {
		rt.Fatalf("%s: ExistenceHash=%x,%v, the root is %x", what, r, err, root)
	}
	got, err := chain.IsExist(k)
	if err == common.ErrNil && len(k) == 0 {
		// and so is the empty key
		return
	}
	if err != nil {
		// a key which ends at an inner node is outside what existence proofs support
		if fixed || exist || err != trie.ErrMissingValue {
			rt.Fatalf("%s: IsExist(%x): %v", what, k, err)
		}
		return
	}
	if got != exist {
		rt.Fatalf("%s: IsExist(%x)=%t, want %t", what, k, got, exist)
	}
	vh, err := trie.Proof{Proofs: chain}.Exist(nibbles(string(k)))
	if err != nil || (vh != nil) != exist {
		rt.Fatalf("%s: Exist(%x) = %v,%v, want exist=%t", what, k, vh, err, exist)
	}
	if exist && !bytes.Equal(vh[:], w.c.hash(want)) {
		rt.Fatalf("%s: Exist(%x) gives %x, the value has hash %x", what, k, vh[:], w.c.hash(want))
	}
}

func TestT06_complete(t *testing.T) {
	h.Check(t, "the trie holds >=3 values and both a present and an absent key were proved", h.N{Quick: 25000, Thorough: 700000},
		func(rt *rapid.T, c *h.C) {
			w := newWorld(rt, c, true)
			for i := h.Int(rt, 1, 30, "ops"); i > 0; i-- {
				w.step(rt, c)
			}
			root := refRoot(w.m, w.c)
			fixed := w.g.mode == 1
			present, absent := 0, 0
			for i := 0; i < 4; i++ {
				w.g.draw(rt)
			}
			for _, k := range w.g.used {
				val, chain, ok := w.t.GetProof(k)
				want, exist := w.m[string(k)]
				if ok != exist {
					rt.Fatalf("GetProof(%x) ok=%t, want %t", k, ok, exist)
				}
				if exist {
					present++
					if w.c.str(val) != w.c.str(want) {
						rt.Fatalf("GetProof(%x) returned another value", k)
					}
					checkValueProof(rt, w.c, chain, w.c.hash(want), root, "value proof")
				} else {
					absent++
				}
				ex, echain, err := w.t.GetExistenceProof(k)
				if err != nil {
					rt.Fatalf("GetExistenceProof(%x): %v", k, err)
				}
				if ex != exist {
					rt.Fatalf("GetExistenceProof(%x) exist=%t, want %t", k, ex, exist)
				}
				if len(w.m) > 0 {
					checkExistence(rt, w, echain, k, root, fixed, "existence proof")
					bs, err := rtl.Marshal(echain)
					if err != nil {
						rt.Fatalf("encode: %v", err)
					}
					var back trie.ProofChain
					if err := rtl.Unmarshal(bs, &back); err != nil {
						rt.Fatalf("decode existence proof %x: %v", bs, err)
					}
					checkExistence(rt, w, back, k, root, fixed, "existence proof after a round trip")
				}
			}
			if got := mustRoot(rt, w.t.HashValue); !bytes.Equal(got, root) {
				rt.Fatalf("root %x after making proofs, want %x", got, root)
			}
			w.check(rt, "after making proofs")
			c.NonTrivial(len(w.m) >= 3 && present > 0 && absent > 0)
			classes(c, w)
		})
}

// ---- T07 ---------------------------------------------------------------------------------

// fixedTrie draws a trie of fixed-length keys with distinct values, and absent keys to ask for.
func fixedTrie(rt *rapid.T, c *h.C) (*world, [][]byte) {
	w := &world{c: drawCodec(rt), g: drawKeyGen(rt, false), d: db.NewMemDB(), m: model{}, fresh: true}
	w.t = w.c.openOn(w.d, nil)
	for i := h.Int(rt, 1, 18, "keys"); i > 0; i-- {
		k := w.g.draw(rt)
		v := w.c.mk(k, append([]byte("value of "), k...))
		w.t.Put(k, v)
		w.m[string(k)] = v
	}
	if w.g.bushy && h.Bool(rt, "many") {
		for _, k := range w.g.drawMany(rt) {
			v := w.c.mk(k, append([]byte("value of "), k...))
			w.t.Put(k, v)
			w.m[string(k)] = v
		}
	}
	for i := h.Int(rt, 1, 8, "absentKeys"); i > 0; i-- {
		w.g.draw(rt)
	}
	c.Op("trie with %d keys %x, asked %x", len(w.m), w.m.keys(), w.g.used)
	return w, w.g.used
}

func flipBit(rt *rapid.T, b []byte) {
	i := h.Int(rt, 0, len(b)*8-1, "bit")
	b[i/8] ^= 1 << (i % 8)
}

// rebuild makes a container out of items.
func rebuild(items []common.HashItem) *common.MerkleProofs {
	p := common.NewMerkleProofs()
	for _, it := range items {
		p.Append(it.Val, it.Order)
	}
	return p
}

func itemsOf(p *common.MerkleProofs) []common.HashItem {
	if p == nil {
		return nil
	}
	items, err := p.ToItems()
	if err != nil {
		panic(err)
	}
	return items
}

// alter makes a change to the content of a value proof which must be noticed.
func alter(rt *rapid.T, c *h.C, chain trie.ProofChain) (trie.ProofChain, bool) {
	cl := chain.Clone()
	i := h.Int(rt, 0, len(cl)-1, "node")
	n := cl[i]
	switch op := h.Int(rt, 0, 9, "alter"); op {
	case 0, 1, 2:
		items := itemsOf(n.ChildProofs)
		if len(items) == 0 {
			return nil, false
		}
		j := h.Int(rt, 0, len(items)-1, "item")
		switch op {
		case 0:
			c.Op("node %d: flip a bit of hash %d", i, j)
			flipBit(rt, items[j].Val[:])
		case 1:
			if n.PType.IsProofValue() {
				return nil, false // the only hash is always on the right
			}
			c.Op("node %d: flip side of hash %d", i, j)
			items[j].Order = !items[j].Order
		case 2:
			c.Op("node %d: drop hash %d", i, j)
			items = append(items[:j], items[j+1:]...)
		}
		n.ChildProofs = rebuild(items)
	case 3:
		if n.PType.IsProofValue() {
			return nil, false
		}
		c.Op("node %d: other value hash", i)
		if n.ValueHash == nil {
			v := common.BytesToHash(h.Bytes(rt, 32, 32, "vh"))
			n.ValueHash = &v
		} else if h.Bool(rt, "nilValue") {
			n.ValueHash = nil
		} else {
			flipBit(rt, n.ValueHash[:])
		}
	case 4:
		if !n.Header.HasChildren() {
			return nil, false
		}
		c.Op("node %d: flip a child flag", i)
		flipBit(rt, n.Header.ChildrenFlag[:])
	case 5:
		if !n.Header.NT.HasPrefix() || len(n.Header.KeyString) == 0 {
			return nil, false
		}
		c.Op("node %d: flip a prefix bit", i)
		flipBit(rt, n.Header.KeyString)
	case 6:
		c.Op("node %d: flip a type bit of the header", i)
		n.Header.NT ^= 1 << h.Int(rt, 0, 7, "ntbit")
	case 7:
		c.Op("drop node %d", i)
		cl = append(cl[:i], cl[i+1:]...)
	case 8:
		j := h.Int(rt, 0, len(cl)-1, "node2")
		if i == j || cl[i].Equal(cl[j]) {
			return nil, false
		}
		c.Op("swap nodes %d and %d", i, j)
		cl[i], cl[j] = cl[j], cl[i]
	case 9:
		c.Op("repeat node %d", i)
		cl = append(cl[:i+1:i+1], cl[i:]...)
	}
	return cl, true
}

func TestT07_tamper(t *testing.T) {
	h.Check(t, "a content change was made to a genuine proof, or a proof was asked to prove something else", h.N{Quick: 40000, Thorough: 1000000},
		func(rt *rapid.T, c *h.C) {
			w, asked := fixedTrie(rt, c)
			root := mustRoot(rt, w.t.HashValue)
			var present [][]byte
			for _, k := range asked {
				if _, ok := w.m[string(k)]; ok {
					present = append(present, k)
				}
			}
			k := rapid.SampledFrom(present).Draw(rt, "proved")
			c.Op("proof of %x", k)
			_, chain, ok := w.t.GetProof(k)
			if !ok {
				rt.Fatalf("GetProof(%x) failed", k)
			}
			vh := common.BytesToHash(w.c.hash(w.m[string(k)]))
			// another value
			other := common.BytesToHash(w.c.hash(w.c.mk(k, []byte("not this"))))
			if trie.VerifyProofChain(other, chain, root) {
				rt.Fatalf("the proof of %x verifies a value which is not in the trie", k)
			}
			for k2, v2 := range w.m {
				if k2 != string(k) && trie.VerifyProofChain(common.BytesToHash(w.c.hash(v2)), chain, root) {
					rt.Fatalf("the proof of %x verifies the value of %x", k, k2)
				}
			}
			// another root
			bad := append([]byte{}, root...)
			flipBit(rt, bad)
			if trie.VerifyProofChain(vh, chain, bad) {
				rt.Fatalf("the proof verifies against another root")
			}
			nt := false
			for i := h.Int(rt, 1, 4, "tries"); i > 0; i-- {
				x, ok := alter(rt, c, chain)
				if !ok {
					continue
				}
				nt = true
				if trie.VerifyProofChain(vh, x, root) {
					rt.Fatalf("an altered proof of %x still verifies: %s", k, x)
				}
				if trie.VerifyProofChain(other, x, root) {
					rt.Fatalf("an altered proof of %x verifies a value which is not in the trie", k)
				}
			}
			c.NonTrivial(nt)
			c.Class("value proof")
		})
}

// forge changes an existence proof without caring for its hash.
func forge(rt *rapid.T, c *h.C, chains []trie.ProofChain) trie.ProofChain {
	cl := chains[h.Int(rt, 0, len(chains)-1, "which")].Clone()
	for n := h.Int(rt, 1, 3, "forgeries"); n > 0; n-- {
		if len(cl) == 0 {
			break
		}
		i := h.Int(rt, 0, len(cl)-1, "node")
		switch h.Int(rt, 0, 10, "forge") {
		case 0, 1, 2, 3:
			p := trie.ProofType(h.Int(rt, 0, 15, "childType"))
			if h.OneIn(rt, 8, "otherType") {
				p = rapid.SampledFrom([]trie.ProofType{trie.ProofValue, trie.ProofExistence, trie.ProofMerkleOnly, trie.ProofHdsSummary, trie.ProofHeaderBase}).Draw(rt, "ptype")
			}
			c.Op("node %d: type %s", i, p)
			cl[i].PType = p
		case 4, 5, 6:
			// skip a level: the path of node i becomes a part of the path of node i+1
			if i+1 >= len(cl) || !cl[i].PType.IsProofChild() || !cl[i+1].PType.IsProofChild() {
				continue
			}
			one := trie.ProofChain{cl[i]}
			items, err := one.ToItems()
			if err != nil {
				continue
			}
			c.Op("skip node %d", i)
			cl[i+1].ChildProofs = rebuild(append(items, itemsOf(cl[i+1].ChildProofs)...))
			cl = append(cl[:i], cl[i+1:]...)
		case 7:
			// hide a part of the path in a bare merkle node
			items := itemsOf(cl[i].ChildProofs)
			if len(items) == 0 || !cl[i].PType.IsProofChild() {
				continue
			}
			m := h.Int(rt, 1, len(items), "cut")
			c.Op("node %d: move %d hashes of the path into a node of their own", i, m)
			cl[i].ChildProofs = rebuild(items[m:])
			bare := trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, rebuild(items[:m]))
			cl = append(cl[:i:i], append(trie.ProofChain{bare}, cl[i:]...)...)
		case 8:
			if cl[i].ValueHash == nil {
				v := common.BytesToHash(common.NilHashSlice)
				cl[i].ValueHash = &v
				c.Op("node %d: explicit nil value", i)
			} else {
				cl[i].ValueHash = nil
				c.Op("node %d: no value", i)
			}
		case 9:
			c.Op("node %d: header bit", i)
			hd := &cl[i].Header
			switch h.Int(rt, 0, 2, "hd") {
			case 0:
				flipBit(rt, hd.ChildrenFlag[:])
			case 1:
				hd.NT ^= 1 << h.Int(rt, 0, 7, "ntbit")
			case 2:
				if len(hd.KeyString) > 0 {
					flipBit(rt, hd.KeyString)
				} else {
					hd.KeyString = trie.KeyPart{1}
				}
			}
		case 10:
			// the bottom of another proof under this one
			o := chains[h.Int(rt, 0, len(chains)-1, "from")]
			j := h.Int(rt, 0, len(o)-1, "upTo")
			c.Op("bottom %d nodes of another proof under node %d", j+1, i)
			cl = append(o[:j+1].Clone(), cl[i:]...)
		}
	}
	return cl
}

func TestT07_forgeExistence(t *testing.T) {
	h.Check(t, "a forged existence proof, different from every genuine one, still leads to the genuine root (a verifier accepts it)", h.N{Quick: 60000, Thorough: 2000000},
		func(rt *rapid.T, c *h.C) {
			w, asked := fixedTrie(rt, c)
			root := mustRoot(rt, w.t.HashValue)
			var chains []trie.ProofChain
			for _, k := range asked {
				_, chain, err := w.t.GetExistenceProof(k)
				if err != nil {
					rt.Fatalf("GetExistenceProof(%x): %v", k, err)
				}
				chains = append(chains, chain)
			}
			// every genuine proof is truthful about every key it speaks of
			verify := func(x trie.ProofChain, what string) bool {
				r, err := x.ExistenceHash()
				if err != nil || !bytes.Equal(r, root) {
					return false
				}
				for _, k := range asked {
					_, truth := w.m[string(k)]
					got, err := x.IsExist(k)
					if err == nil && got != truth {
						rt.Fatalf("%s leads to the root but says exist(%x)=%t: %s", what, k, got, x)
					}
					if err != nil || !got {
						continue
					}
					vh, err := x.Exist(nibbles(string(k)))
					if err != nil || vh == nil || !bytes.Equal(vh[:], w.c.hash(w.m[string(k)])) {
						rt.Fatalf("%s leads to the root but gives another value of %x", what, k)
					}
				}
				return true
			}
			for _, x := range chains {
				verify(x, "a genuine proof")
			}
			nt := false
			for i := h.Int(rt, 1, 5, "tries"); i > 0; i-- {
				x := forge(rt, c, chains)
				same := false
				for _, g := range chains {
					same = same || g.Equal(x)
				}
				if verify(x, "a forged proof") && !same {
					nt = true
				}
			}
			c.NonTrivial(nt)
		})
}
