package trie_t

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"
	"pgregory.net/rapid"

	"verifharness/h"
)

// refHist is the reference: a 64-level binary Merkle tree filled from the left, in which a
// missing right child counts as the nil hash. peak[l] is the root of the complete subtree of
// height l which is not yet a part of a bigger complete one.
type refHist struct {
	n    uint64 // number of values = next key
	peak [64][]byte
}

func (r *refHist) append(v []byte) {
	cur := append([]byte{}, v...)
	l := 0
	for ; r.n>>uint(l)&1 == 1; l++ {
		cur = keccak(r.peak[l], cur)
		r.peak[l] = nil
	}
	r.peak[l] = cur
	r.n++
}

func (r *refHist) root() []byte {
	if r.n == 0 {
		return nilHash()
	}
	var cur []byte
	for l := 0; l < 64; l++ {
		switch {
		case r.n>>uint(l)&1 == 1 && cur == nil:
			cur = keccak(r.peak[l], nilHash())
		case r.n>>uint(l)&1 == 1:
			cur = keccak(r.peak[l], cur)
		case cur != nil:
			cur = keccak(cur, nilHash())
		}
	}
	return cur
}

// proof of the last value v of a tree in which r are the values before it.
func (r *refHist) lastProof() trie.ProofChain {
	mp := common.NewMerkleProofs()
	for l := uint(0); l < 64; l++ {
		if r.n>>l&1 == 1 {
			mp.Append(common.BytesToHash(r.peak[l]), true)
		} else {
			mp.Append(common.BytesToHash(nilHash()), false)
		}
	}
	return trie.ProofChain{trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, mp)}
}

func histVal(seed int, key uint64) []byte {
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], key)
	binary.BigEndian.PutUint64(b[8:], uint64(seed))
	return keccak([]byte("h"), b[:])
}

type histGetter interface {
	Get(key uint64) ([]byte, bool)
	GetProof(key uint64) ([]byte, trie.ProofChain, bool)
	HashValue() ([]byte, error)
	Expecting() uint64
	Has(key uint64) bool
}

// checkHistProof: the proof of key leads from val to root and is bound to key.
func checkHistProof(rt *rapid.T, key uint64, val, root []byte, chain trie.ProofChain, what string) {
	hv := common.BytesToHash(val)
	if !trie.VerifyProofChain(hv, chain, root) {
		r, err := chain.Proof(hv)
		rt.Fatalf("%s: proof of %d leads to %x,%v, the root is %x", what, key, r, err, root)
	}
	if bk := chain.BigKey(); bk.Cmp(new(big.Int).SetUint64(key)) != 0 {
		rt.Fatalf("%s: proof of %d has BigKey %s", what, key, bk)
	}
	if r, err := chain.HistoryProof(common.Height(key), val); err != nil || !bytes.Equal(r, root) {
		rt.Fatalf("%s: HistoryProof(%d) = %x,%v", what, key, r, err)
	}
	if _, err := chain.HistoryProof(common.Height(key+1), val); err == nil {
		rt.Fatalf("%s: the proof of %d passes as a proof of %d", what, key, key+1)
	}
	// a chain which goes on above the root names a key which no height is
	above := common.NewMerkleProofs()
	for i := key % 3; i > 0; i-- {
		above.Append(hv, false)
	}
	above.Append(hv, true)
	long := append(chain.Clone(), trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, above))
	if r, err := long.HistoryProof(common.Height(key), val); err == nil {
		rt.Fatalf("%s: a proof of a key above 2^64 passes as one of %d, leading to %x", what, key, r)
	}
	items, err := chain.ToItems()
	if err != nil || len(items) != 64 || !bytes.Equal(refChain(val, items), root) {
		rt.Fatalf("%s: items of the proof of %d (%d, %v) do not lead to the root", what, key, len(items), err)
	}
	for i, it := range items {
		if it.Order != (key>>uint(i)&1 == 1) {
			rt.Fatalf("%s: proof of %d: side of level %d does not match the key", what, key, i)
		}
	}
	bs, err := rtl.Marshal(chain)
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	var back trie.ProofChain
	if err := rtl.Unmarshal(bs, &back); err != nil || !back.Equal(chain) {
		rt.Fatalf("%s: proof of %d does not survive the wire: %v", what, key, err)
	}
}

func drawCount(rt *rapid.T, label string) int {
	max := 40
	switch h.Int(rt, 0, 9, label+"Size") {
	case 0, 1:
		max = 300
	case 2:
		if h.Thorough() {
			max = 4300
		} else {
			max = 1100
		}
	}
	n := h.Int(rt, 0, max, label)
	if n > 10 && h.Bool(rt, label+"Edge") {
		// near a border of the nodes
		for _, e := range []int{4096, 1024, 512, 256, 32, 16} {
			if n >= e {
				return e + h.Int(rt, -1, 1, label+"At")
			}
		}
	}
	return n
}

func TestT12_history(t *testing.T) {
	h.Check(t, ">=17 values (more than one node) and a commit, reopening, collapse or copy in between", h.N{Quick: 3000, Thorough: 60000},
		func(rt *rapid.T, c *h.C) {
			d := db.NewMemDB()
			prefix := h.Bytes(rt, 0, 3, "prefix")
			tr, err := trie.NewHistoryTree(d, prefix, nil, h.Bool(rt, "checkNil"))
			if err != nil {
				rt.Fatalf("NewHistoryTree: %v", err)
			}
			ref := &refHist{}
			var vals [][]byte
			type ver struct {
				n    int
				root []byte
			}
			var vers []ver
			seed := h.Int(rt, 0, 9, "values")
			other := 0
			check := func(x histGetter, n int, what string) {
				if x.Expecting() != uint64(n) {
					rt.Fatalf("%s: Expecting()=%d, want %d", what, x.Expecting(), n)
				}
				for i := 0; i < 6; i++ {
					k := uint64(h.Int(rt, 0, n+20, "ask"))
					if i == 0 && n > 0 {
						k = uint64(n - 1)
					}
					if i == 1 {
						k = uint64(n)
					}
					v, ok := x.Get(k)
					if ok != (k < uint64(n)) || (ok && !bytes.Equal(v, vals[k])) {
						rt.Fatalf("%s: Get(%d)=%x,%t with %d values", what, k, v, ok, n)
					}
					if ok {
						v[0] ^= 1 // the caller owns what it was given
					}
					if x.Has(k) != ok {
						rt.Fatalf("%s: Has(%d)=%t", what, k, !ok)
					}
				}
				if v, ok := x.Get(1 << 63); ok {
					rt.Fatalf("%s: Get(2^63)=%x", what, v)
				}
			}
			for i := h.Int(rt, 1, 14, "ops"); i > 0; i-- {
				switch h.Int(rt, 0, 11, "op") {
				case 0, 1, 2, 3, 4:
					n := drawCount(rt, "append")
					c.Op("append %d", n)
					for j := 0; j < n; j++ {
						v := histVal(seed, ref.n)
						if err := tr.Append(ref.n, v); err != nil {
							rt.Fatalf("Append(%d): %v", ref.n, err)
						}
						ref.append(v)
						vals = append(vals, append([]byte{}, v...))
						v[3] ^= 1 // the tree must not keep the caller's slice
					}
				case 5:
					k := ref.n + uint64(h.Int(rt, -3, 5, "badKey"))
					if k == ref.n {
						c.Op("append nothing")
						if tr.Append(k, nil) == nil {
							rt.Fatalf("Append of an empty value did not fail")
						}
					} else {
						c.Op("append out of order %d", k)
						if tr.Append(k, histVal(1, k)) == nil {
							rt.Fatalf("Append(%d) did not fail, %d values", k, ref.n)
						}
					}
				case 6:
					c.Op("commit")
					other++
					root := mustRoot(rt, tr.CommitAndHash)
					vers = append(vers, ver{int(ref.n), root})
				case 7:
					c.Op("reopen")
					other++
					root := mustRoot(rt, tr.CommitAndHash)
					tr, err = trie.NewHistoryTree(d, prefix, root, h.Bool(rt, "checkNil"))
					if err != nil {
						rt.Fatalf("NewHistoryTree(%x) with %d values: %v", root, ref.n, err)
					}
				case 8:
					c.Op("clone")
					other++
					old := tr
					if tr = tr.Clone(); tr == nil {
						rt.Fatalf("Clone() is nil")
					}
					if h.Bool(rt, "changeOld") {
						_ = old.Append(old.Expecting(), histVal(77, 1))
					}
				case 9:
					// collapse what lies before a key, mostly after a commit
					if h.OneIn(rt, 3, "uncommitted") {
						c.Op("no commit before")
					} else if err := tr.Commit(); err != nil {
						rt.Fatalf("Commit: %v", err)
					}
					if ref.n > 0 {
						k := uint64(h.Int(rt, 0, int(ref.n), "collapseBefore"))
						if h.Bool(rt, "border") {
							k &^= 15
						}
						c.Op("collapse before %d", k)
						other++
						_ = tr.CollapseBefore(k)
					}
				case 10:
					c.Op("rebase")
					other++
					if tr, err = tr.Rebase(d); err != nil {
						rt.Fatalf("Rebase: %v", err)
					}
				case 11:
					c.Op("check")
					check(tr, int(ref.n), "mid-history")
				}
				if h.OneIn(rt, 3, "root") {
					if got, want := mustRoot(rt, tr.HashValue), ref.root(); !bytes.Equal(got, want) {
						rt.Fatalf("%d values: root %x, want %x", ref.n, got, want)
					}
				}
			}
			if got, want := mustRoot(rt, tr.HashValue), ref.root(); !bytes.Equal(got, want) {
				rt.Fatalf("%d values at the end: root %x, want %x", ref.n, got, want)
			}
			check(tr, int(ref.n), "end")
			for _, v := range vers {
				o, err := trie.NewHistoryTree(d, prefix, v.root, true)
				if err != nil {
					rt.Fatalf("open version of %d values: %v", v.n, err)
				}
				check(o, v.n, fmt.Sprintf("version of %d values", v.n))
				if got := mustRoot(rt, o.HashValue); !bytes.Equal(got, v.root) {
					rt.Fatalf("version of %d values has root %x, want %x", v.n, got, v.root)
				}
			}
			c.NonTrivial(ref.n >= 17 && other > 0)
			switch {
			case ref.n > 4096:
				c.Class(">4096 values")
			case ref.n > 256:
				c.Class(">256 values")
			case ref.n > 16:
				c.Class(">16 values")
			}
		})
}

func TestT13_historyProofs(t *testing.T) {
	h.Check(t, ">=17 values", h.N{Quick: 3000, Thorough: 60000}, func(rt *rapid.T, c *h.C) {
		d := db.NewMemDB()
		tr, err := trie.NewHistoryTree(d, []byte("p"), nil, true)
		if err != nil {
			rt.Fatalf("NewHistoryTree: %v", err)
		}
		if _, _, ok := tr.GetProof(0); ok {
			rt.Fatalf("GetProof of an empty tree")
		}
		ref := &refHist{}
		seed := h.Int(rt, 0, 9, "values")
		for round := h.Int(rt, 1, 3, "rounds"); round > 0; round-- {
			n := drawCount(rt, "append")
			c.Op("append %d", n)
			for j := 0; j < n; j++ {
				v := histVal(seed, ref.n)
				if err := tr.Append(ref.n, v); err != nil {
					rt.Fatalf("Append(%d): %v", ref.n, err)
				}
				ref.append(v)
			}
			switch h.Int(rt, 0, 3, "then") {
			case 0:
				root := mustRoot(rt, tr.CommitAndHash)
				c.Op("reopen")
				if tr, err = trie.NewHistoryTree(d, []byte("p"), root, true); err != nil {
					rt.Fatalf("reopen: %v", err)
				}
			case 1:
				c.Op("commit and collapse")
				if err := tr.Commit(); err != nil {
					rt.Fatalf("Commit: %v", err)
				}
				_ = tr.CollapseBefore(ref.n &^ 15)
			}
			root := ref.root()
			for i := 0; i < 5; i++ {
				k := uint64(h.Int(rt, 0, int(ref.n)+1, "key"))
				if i == 0 && ref.n > 0 {
					k = ref.n - 1
				}
				v, chain, ok := tr.GetProof(k)
				if ok != (k < ref.n) {
					rt.Fatalf("GetProof(%d) ok=%t with %d values", k, ok, ref.n)
				}
				if !ok {
					continue
				}
				want := histVal(seed, k)
				if !bytes.Equal(v, want) {
					rt.Fatalf("GetProof(%d) returned value %x, want %x", k, v, want)
				}
				v[i] ^= 0x40 // the caller owns what it was given
				if v, _, ok := tr.GetProof(k); !ok || !bytes.Equal(v, want) {
					rt.Fatalf("GetProof(%d) returned value %x after what was returned before was changed, want %x", k, v, want)
				}
				checkHistProof(rt, k, want, root, chain, fmt.Sprintf("%d values", ref.n))
				// not of another value, and not after a change
				if trie.VerifyProofChain(common.BytesToHash(histVal(seed+1, k)), chain, root) {
					rt.Fatalf("proof of %d verifies another value", k)
				}
				items, _ := chain.ToItems()
				j := h.Int(rt, 0, 63, "item")
				if h.Bool(rt, "flipSide") {
					items[j].Order = !items[j].Order
				} else {
					flipBit(rt, items[j].Val[:])
				}
				bad := trie.ProofChain{trie.NewMerkleOnlyProof(trie.ProofMerkleOnly, rebuild(items))}
				if trie.VerifyProofChain(common.BytesToHash(want), bad, root) {
					rt.Fatalf("a proof of %d altered at level %d still verifies", k, j)
				}
			}
			if got := mustRoot(rt, tr.HashValue); !bytes.Equal(got, root) {
				rt.Fatalf("root after proofs %x, want %x", got, root)
			}
		}
		c.NonTrivial(ref.n >= 17)
	})
}

// ---- T14: partial trees ---------------------------------------------------------------------

func drawBigKey(rt *rapid.T) uint64 {
	switch h.Int(rt, 0, 4, "keyKind") {
	case 0:
		return uint64(h.Int(rt, 0, 40, "small"))
	case 1:
		return uint64(h.Int(rt, 0, 70000, "mid"))
	case 2:
		e := uint(h.Int(rt, 1, 62, "exp"))
		return uint64(1)<<e + uint64(h.Int(rt, 0, 4, "around")) - 2
	case 3:
		return rapid.Uint64Range(0, 1<<63).Draw(rt, "any")
	default:
		return ^uint64(0) - uint64(h.Int(rt, 200, 300, "nearMax"))
	}
}

func TestT14_restored(t *testing.T) {
	h.Check(t, "a tree restored from the proof of one value was appended to and crossed into another node", h.N{Quick: 6000, Thorough: 150000},
		func(rt *rapid.T, c *h.C) {
			d := db.NewMemDB()
			key := drawBigKey(rt)
			seed := h.Int(rt, 0, 9, "values")
			// the unknown past: any hash may stand for a complete subtree
			ref := &refHist{n: key}
			for l := uint(0); l < 64; l++ {
				if key>>l&1 == 1 {
					ref.peak[l] = histVal(100+seed, uint64(l))
				}
			}
			chain := ref.lastProof()
			val := histVal(seed, key)
			ref.append(val)
			root := ref.root()
			checkHistProof(rt, key, val, root, chain, "reference proof")
			c.Op("restore from the proof of %d", key)
			tr, err := trie.RestoreTreeFromProofs(d, []byte("p"), key, val, chain)
			if err != nil {
				rt.Fatalf("RestoreTreeFromProofs(%d): %v", key, err)
			}
			if got := mustRoot(rt, tr.HashValue); !bytes.Equal(got, root) {
				rt.Fatalf("restored tree of key %d has root %x, want %x", key, got, root)
			}
			known := []uint64{key}
			check := func(what string) {
				root := ref.root()
				if got := mustRoot(rt, tr.HashValue); !bytes.Equal(got, root) {
					rt.Fatalf("%s: root %x, want %x", what, got, root)
				}
				if tr.Expecting() != ref.n {
					rt.Fatalf("%s: Expecting()=%d, want %d", what, tr.Expecting(), ref.n)
				}
				for i := 0; i < 4; i++ {
					k := known[h.Int(rt, 0, len(known)-1, "known")]
					v, ok := tr.Get(k)
					if !ok || !bytes.Equal(v, histVal(seed, k)) {
						rt.Fatalf("%s: Get(%d)=%x,%t", what, k, v, ok)
					}
					v, ch, ok := tr.GetProof(k)
					if !ok || !bytes.Equal(v, histVal(seed, k)) {
						rt.Fatalf("%s: GetProof(%d)=%x,%t", what, k, v, ok)
					}
					checkHistProof(rt, k, v, root, ch, what)
				}
				if _, ok := tr.Get(ref.n); ok {
					rt.Fatalf("%s: Get(%d) of a key not appended yet", what, ref.n)
				}
				if got := mustRoot(rt, tr.HashValue); !bytes.Equal(got, root) {
					rt.Fatalf("%s: reading changed the root to %x, want %x", what, got, root)
				}
			}
			check("restored")
			crossed := false
			for i := h.Int(rt, 1, 8, "ops"); i > 0; i-- {
				switch h.Int(rt, 0, 6, "op") {
				case 0, 1, 2:
					n := h.Int(rt, 1, 40, "append")
					c.Op("append %d", n)
					for j := 0; j < n; j++ {
						v := histVal(seed, ref.n)
						if err := tr.Append(ref.n, v); err != nil {
							rt.Fatalf("Append(%d): %v", ref.n, err)
						}
						known = append(known, ref.n)
						ref.append(v)
					}
					crossed = crossed || ref.n>>4 != key>>4
				case 3:
					c.Op("commit and reopen")
					r := mustRoot(rt, tr.CommitAndHash)
					if tr, err = trie.NewHistoryTree(d, []byte("p"), r, false); err != nil {
						rt.Fatalf("reopen a partial tree: %v", err)
					}
				case 4:
					c.Op("clone")
					if tr = tr.Clone(); tr == nil {
						rt.Fatalf("Clone() is nil")
					}
				case 5:
					if err := tr.Commit(); err != nil {
						rt.Fatalf("Commit: %v", err)
					}
					k := ref.n
					if h.Bool(rt, "border") {
						k &^= 15
					}
					c.Op("collapse before %d", k)
					_ = tr.CollapseBefore(k)
				case 6:
					// a key from the unknown past: not available, and asking does no harm
					if key > 0 {
						k := rapid.Uint64Range(0, key-1).Draw(rt, "past")
						if h.Bool(rt, "near") {
							k = key - 1 - uint64(h.Int(rt, 0, int(min64(key-1, 20)), "dist"))
						}
						c.Op("ask for %d", k)
						// a sibling leaf of a known one may be known
						if v, ok := tr.Get(k); ok && !(k^1 == key && bytes.Equal(v, ref0(seed))) {
							rt.Fatalf("Get(%d)=%x of a value which was never given to the tree", k, v)
						}
					}
				}
				check("after an operation")
			}
			c.NonTrivial(crossed)
			if key >= 1<<32 {
				c.Class("key >= 2^32")
			}
		})
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// ref0 is the hash which stands for the left sibling leaf.
func ref0(seed int) []byte { return histVal(100+seed, 0) }

func sortedKeys(m map[uint64]bool) []uint64 {
	ks := make([]uint64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func TestT14_merge(t *testing.T) {
	h.Check(t, "proofs of >=2 other values were merged into a tree restored from one proof", h.N{Quick: 3000, Thorough: 80000},
		func(rt *rapid.T, c *h.C) {
			seed := h.Int(rt, 0, 9, "values")
			full, err := trie.NewHistoryTree(db.NewMemDB(), []byte("f"), nil, true)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			ref := &refHist{}
			n := drawCount(rt, "count") + 1
			c.Op("%d values", n)
			for j := 0; j < n; j++ {
				v := histVal(seed, ref.n)
				if err := full.Append(ref.n, v); err != nil {
					rt.Fatalf("Append: %v", err)
				}
				ref.append(v)
			}
			root := ref.root()
			d := db.NewMemDB()
			last := ref.n - 1
			_, chain, ok := full.GetProof(last)
			if !ok {
				rt.Fatalf("GetProof(%d)", last)
			}
			tr, err := trie.RestoreTreeFromProofs(d, []byte("p"), last, histVal(seed, last), chain)
			if err != nil {
				rt.Fatalf("RestoreTreeFromProofs(%d): %v", last, err)
			}
			// the same values and one more: another tree
			_, err = full.CommitAndHash()
			if err != nil {
				rt.Fatalf("Commit: %v", err)
			}
			other, err := trie.NewHistoryTree(db.NewMemDB(), []byte("o"), nil, true)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			for j := uint64(0); j < ref.n+1 && ref.n < 400; j++ {
				if err := other.Append(j, histVal(seed, j)); err != nil {
					rt.Fatalf("Append: %v", err)
				}
			}
			known := map[uint64]bool{last: true}
			merged, reopened := 0, false
			for i := h.Int(rt, 1, 8, "merges"); i > 0; i-- {
				k := uint64(h.Int(rt, 0, int(last), "key"))
				if h.Bool(rt, "near") {
					k = last - min64(last, uint64(h.Int(rt, 0, 40, "dist")))
				}
				v, ch, ok := full.GetProof(k)
				if !ok {
					rt.Fatalf("GetProof(%d)", k)
				}
				switch h.Int(rt, 0, 7, "bad") {
				case 0:
					c.Op("merge a wrong value of %d", k)
					if tr.MergeProof(k, histVal(seed+1, k), ch) == nil {
						rt.Fatalf("MergeProof(%d) of another value did not fail", k)
					}
				case 1:
					c.Op("merge the proof of %d as %d", k, k+1)
					if tr.MergeProof(k+1, v, ch) == nil {
						rt.Fatalf("MergeProof(%d) with the proof of %d did not fail", k+1, k)
					}
				case 2:
					if other.Expecting() == 0 {
						break
					}
					c.Op("merge the proof of %d in another tree", k)
					v, ch, ok := other.GetProof(k)
					if !ok {
						rt.Fatalf("GetProof(%d)", k)
					}
					if tr.MergeProof(k, v, ch) == nil {
						rt.Fatalf("MergeProof(%d) with the proof of another tree did not fail", k)
					}
				default:
					c.Op("merge %d", k)
					if err := tr.MergeProof(k, v, ch); err != nil {
						rt.Fatalf("MergeProof(%d) into a tree which knows %v: %v", k, sortedKeys(known), err)
					}
					if !known[k] {
						merged++
					}
					known[k] = true
				}
				if h.OneIn(rt, 4, "reopen") {
					c.Op("commit and reopen")
					r := mustRoot(rt, tr.CommitAndHash)
					// opening looks for the end of the tree behind the first known
					// value (documented): a tree with gaps can fail to open, or
					// opens at the wrong end
					gaps := int(last)-int(sortedKeys(known)[0]) >= len(known)
					x, err := trie.NewHistoryTree(d, []byte("p"), r, false)
					if err != nil {
						if !gaps {
							rt.Fatalf("reopen: %v", err)
						}
						continue
					}
					if !gaps && x.Expecting() != ref.n {
						rt.Fatalf("reopened: Expecting()=%d, want %d", x.Expecting(), ref.n)
					}
					tr = x
					reopened = reopened || gaps
				}
				if got := mustRoot(rt, tr.HashValue); !bytes.Equal(got, root) {
					rt.Fatalf("root %x after merging, want %x", got, root)
				}
				for _, k := range sortedKeys(known) {
					v, ok := tr.Get(k)
					if !ok || !bytes.Equal(v, histVal(seed, k)) {
						rt.Fatalf("Get(%d)=%x,%t of a merged value", k, v, ok)
					}
					v, ch, ok := tr.GetProof(k)
					if !ok {
						rt.Fatalf("GetProof(%d) of a merged value failed", k)
					}
					checkHistProof(rt, k, v, root, ch, "merged tree")
				}
			}
			// and the tree goes on
			for i := h.Int(rt, 0, 20, "append"); i > 0 && !reopened; i-- {
				v := histVal(seed, ref.n)
				if err := tr.Append(ref.n, v); err != nil {
					rt.Fatalf("Append(%d): %v", ref.n, err)
				}
				ref.append(v)
			}
			if got := mustRoot(rt, tr.HashValue); !bytes.Equal(got, ref.root()) {
				rt.Fatalf("%d values after merging: root %x, want %x", ref.n, got, ref.root())
			}
			c.NonTrivial(merged >= 2)
		})
}

func TestT14_chop(t *testing.T) {
	h.Check(t, "a tree was chopped inside it and used on", h.N{Quick: 3000, Thorough: 80000}, func(rt *rapid.T, c *h.C) {
		seed := h.Int(rt, 0, 9, "values")
		d := db.NewMemDB()
		tr, err := trie.NewHistoryTree(d, []byte("f"), nil, true)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		ref := &refHist{}
		n := drawCount(rt, "count") + 2
		at := uint64(h.Int(rt, 0, n-1, "chopAt"))
		if h.Bool(rt, "border") {
			at |= 15
			if at >= uint64(n) {
				at = uint64(n) - 1
			}
		}
		c.Op("%d values, chop after %d", n, at)
		var cut refHist
		for j := 0; j < n; j++ {
			v := histVal(seed, ref.n)
			if err := tr.Append(ref.n, v); err != nil {
				rt.Fatalf("Append: %v", err)
			}
			ref.append(v)
			if ref.n == at+1 {
				cut = *ref
			}
		}
		switch h.Int(rt, 0, 2, "prepare") {
		case 0:
			if err := tr.Commit(); err != nil {
				rt.Fatalf("Commit: %v", err)
			}
		case 1:
			c.Op("reopen first")
			r := mustRoot(rt, tr.CommitAndHash)
			if tr, err = trie.NewHistoryTree(d, []byte("f"), r, true); err != nil {
				rt.Fatalf("reopen: %v", err)
			}
		case 2:
			if err := tr.Commit(); err != nil {
				rt.Fatalf("Commit: %v", err)
			}
			mustRoot(rt, tr.HashValue)
			c.Op("collapse first")
			_ = tr.CollapseBefore(uint64(h.Int(rt, 0, n, "collapse")) &^ 15)
		}
		x, err := tr.Chop(at)
		if err != nil {
			rt.Fatalf("Chop(%d): %v", at, err)
		}
		if _, err := tr.Chop(ref.n); err == nil {
			rt.Fatalf("Chop(%d) of %d values did not fail", ref.n, n)
		}
		check := func(x histGetter, r *refHist, s int, from uint64, what string) {
			root := r.root()
			if got := mustRoot(rt, x.HashValue); !bytes.Equal(got, root) {
				rt.Fatalf("%s: root %x, want %x", what, got, root)
			}
			if x.Expecting() != r.n {
				rt.Fatalf("%s: Expecting()=%d, want %d", what, x.Expecting(), r.n)
			}
			for i := 0; i < 5; i++ {
				k := uint64(h.Int(rt, 0, int(r.n)-1, "key"))
				want := histVal(seed, k)
				if k >= from {
					want = histVal(s, k)
				}
				if v, ok := x.Get(k); !ok || !bytes.Equal(v, want) {
					rt.Fatalf("%s: Get(%d)=%x,%t", what, k, v, ok)
				}
				v, ch, ok := x.GetProof(k)
				if !ok || !bytes.Equal(v, want) {
					rt.Fatalf("%s: GetProof(%d) ok=%t", what, k, ok)
				}
				checkHistProof(rt, k, v, root, ch, what)
			}
			for k := r.n; k < r.n+3; k++ {
				if _, ok := x.Get(k); ok {
					rt.Fatalf("%s: Get(%d) found, %d values", what, k, r.n)
				}
			}
		}
		check(x, &cut, seed, at+1, "chopped")
		cutRoot := cut.root()
		c2 := cut
		mode := h.Int(rt, 0, 3, "after")
		switch mode {
		case 0:
			c.Op("clone the chopped tree")
			if x = x.Clone(); x == nil {
				rt.Fatalf("Clone() of the chopped tree is nil")
			}
		case 1:
			c.Op("commit and reopen the chopped tree")
			r := mustRoot(rt, x.CommitAndHash)
			if x, err = trie.NewHistoryTree(d, []byte("f"), r, true); err != nil {
				rt.Fatalf("reopen the chopped tree: %v", err)
			}
		}
		check(x, &c2, seed, at+1, "chopped, used on")
		// another continuation
		for i := h.Int(rt, 0, 40, "append"); i > 0; i-- {
			v := histVal(50+seed, c2.n)
			if err := x.Append(c2.n, v); err != nil {
				rt.Fatalf("Append(%d) to the chopped tree: %v", c2.n, err)
			}
			c2.append(v)
		}
		check(x, &c2, 50+seed, at+1, "chopped and appended")
		check(tr, ref, seed, ref.n, "the source of the chopped tree")
		if h.Bool(rt, "persist") {
			r := mustRoot(rt, x.CommitAndHash)
			y, err := trie.NewHistoryTree(d, []byte("f"), r, true)
			if err != nil {
				rt.Fatalf("reopen: %v", err)
			}
			check(y, &c2, 50+seed, at+1, "chopped, appended and reopened")
			if mode <= 1 {
				y, err = trie.NewHistoryTree(d, []byte("f"), cutRoot, true)
				if err != nil {
					rt.Fatalf("reopen at the chop: %v", err)
				}
				check(y, &cut, seed, at+1, "reopened at the chop")
			}
		}
		c.NonTrivial(at+1 < uint64(n))
	})
}

func TestT14_revertable(t *testing.T) {
	h.Check(t, "appends were rolled back and others committed", h.N{Quick: 4000, Thorough: 80000}, func(rt *rapid.T, c *h.C) {
		d := db.NewMemDB()
		base, err := trie.NewHistoryTree(d, []byte("r"), nil, true)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		seed := h.Int(rt, 0, 9, "values")
		origin := &refHist{}
		var vals [][]byte
		for i := drawCount(rt, "initial") % 60; i > 0; i-- {
			v := histVal(seed, origin.n)
			_ = base.Append(origin.n, v)
			origin.append(v)
			vals = append(vals, v)
		}
		if err := base.Commit(); err != nil {
			rt.Fatalf("Commit: %v", err)
		}
		c.Op("%d initial values", origin.n)
		r := &trie.RevertableHistoryTree{Origin: base}
		var live *refHist
		var pend [][]byte
		rolled, committed := false, false
		for i := h.Int(rt, 2, 14, "ops"); i > 0; i-- {
			switch h.Int(rt, 0, 9, "op") {
			case 8:
				if live != nil || origin.n == 0 {
					continue
				}
				c.Op("merge a proof")
				k := uint64(h.Int(rt, 0, int(origin.n)-1, "key"))
				v, ch, ok := r.GetProof(k)
				if !ok {
					rt.Fatalf("GetProof(%d)", k)
				}
				if err := r.MergeProof(k, v, ch); err != nil {
					rt.Fatalf("MergeProof(%d) of the tree's own proof: %v", k, err)
				}
				if err := r.MergeProof(k, histVal(77, 77), ch); err == nil {
					rt.Fatalf("MergeProof(%d) of another value did not fail", k)
				}
				l := *origin
				live = &l
			case 0, 1, 2:
				if live == nil {
					l := *origin
					live = &l
				}
				n := h.Int(rt, 1, 20, "append")
				c.Op("append %d", n)
				for j := 0; j < n; j++ {
					v := histVal(i*100+seed, live.n)
					if err := r.Append(live.n, v); err != nil {
						rt.Fatalf("Append(%d): %v", live.n, err)
					}
					live.append(v)
					pend = append(pend, v)
				}
				if r.Append(live.n+1, histVal(1, 1)) == nil {
					rt.Fatalf("Append out of order did not fail")
				}
			case 3:
				c.Op("rollback")
				rolled = rolled || len(pend) > 0
				r.Rollback()
				live, pend = nil, nil
			case 4:
				c.Op("commit")
				var root []byte
				if h.Bool(rt, "andHash") {
					root = mustRoot(rt, r.CommitAndHash)
				} else {
					if err := r.Commit(); err != nil {
						rt.Fatalf("Commit: %v", err)
					}
					root = mustRoot(rt, r.HashValue)
				}
				committed = committed || len(pend) > 0
				if live != nil {
					origin = live
				}
				vals = append(vals, pend...)
				live, pend = nil, nil
				o, err := trie.NewHistoryTree(d, []byte("r"), root, true)
				if err != nil || o.Expecting() != origin.n {
					rt.Fatalf("reopen after commit: %v", err)
				}
			case 5:
				c.Op("precommit")
				want := origin
				if live != nil {
					want = live
				}
				if got := mustRoot(rt, r.PreCommit); !bytes.Equal(got, want.root()) {
					rt.Fatalf("PreCommit root %x, want %x", got, want.root())
				}
			case 6:
				c.Op("collapse")
				if live == nil {
					_ = r.CollapseBefore(origin.n &^ 15)
				} else {
					if _, err := r.PreCommit(); err != nil {
						rt.Fatalf("PreCommit: %v", err)
					}
					_ = r.PreCollapseBefore(live.n &^ 15)
				}
			case 7:
				c.Op("rebase")
				nr, err := r.Rebase(d)
				if err != nil {
					rt.Fatalf("Rebase: %v", err)
				}
				if got := mustRoot(rt, nr.HashValue); !bytes.Equal(got, origin.root()) {
					rt.Fatalf("rebased root %x, want %x", got, origin.root())
				}
				if h.Bool(rt, "use") {
					r, live, pend = nr, nil, nil
				}
			}
			// the committed view never shows what is pending
			if got := mustRoot(rt, r.HashValue); !bytes.Equal(got, origin.root()) {
				rt.Fatalf("committed root %x, want %x (%d values, %d pending)", got, origin.root(), origin.n, len(pend))
			}
			want := origin
			if live != nil {
				want = live
			}
			if got := mustRoot(rt, r.PreHashValue); !bytes.Equal(got, want.root()) {
				rt.Fatalf("live root %x, want %x", got, want.root())
			}
			if r.Expecting() != origin.n {
				rt.Fatalf("Expecting()=%d, %d values committed", r.Expecting(), origin.n)
			}
			for i := 0; i < 4; i++ {
				k := uint64(h.Int(rt, 0, len(vals)+3, "key"))
				v, ok := r.Get(k)
				if ok != (k < origin.n) || (ok && !bytes.Equal(v, vals[k])) || r.Has(k) != ok {
					rt.Fatalf("Get(%d)=%x,%t with %d committed values", k, v, ok, origin.n)
				}
				if ok {
					v, ch, ok := r.GetProof(k)
					if !ok {
						rt.Fatalf("GetProof(%d)", k)
					}
					checkHistProof(rt, k, v, origin.root(), ch, "committed view")
				}
			}
		}
		c.NonTrivial(rolled && committed)
	})
}
