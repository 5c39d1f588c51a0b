package trie_t

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"pgregory.net/rapid"

	"verifharness/h"
)

type concTrie interface {
	Get(key []byte) (value interface{}, ok bool)
	Put(key []byte, value interface{}) bool
	Delete(key []byte) (changed bool, oldValue interface{})
	HashValue() ([]byte, error)
	Commit() error
	GetProof(key []byte) (value interface{}, proof trie.ProofChain, ok bool)
	GetExistenceProof(key []byte) (exist bool, proofs trie.ProofChain, err error)
	PutValue(value trie.TrieValue) bool
	ValueIterator() trie.ValueIterator
	IsDirty() bool
}

// mapTrie is a trie which is a plain map: nothing but the SyncTrie around it keeps goroutines
// from using it together.
type mapTrie struct {
	m     map[string]interface{}
	calls int
}

func (t *mapTrie) HashValue() ([]byte, error) { t.calls++; return nil, nil }
func (t *mapTrie) Commit() error              { t.calls++; return nil }
func (t *mapTrie) IsDirty() bool              { t.calls++; return true }
func (t *mapTrie) Get(key []byte) (interface{}, bool) {
	t.calls++
	v, ok := t.m[string(key)]
	return v, ok
}
func (t *mapTrie) Put(key []byte, value interface{}) bool {
	t.calls++
	t.m[string(key)] = value
	return true
}
func (t *mapTrie) PutValue(value trie.TrieValue) bool { return t.Put(value.Key(), value) }
func (t *mapTrie) Delete(key []byte) (bool, interface{}) {
	t.calls++
	v, ok := t.m[string(key)]
	delete(t.m, string(key))
	return ok, v
}
func (t *mapTrie) GetProof(key []byte) (interface{}, trie.ProofChain, bool) {
	v, ok := t.Get(key)
	return v, trie.ProofChain{nil}, ok
}
func (t *mapTrie) GetExistenceProof(key []byte) (bool, trie.ProofChain, error) {
	_, ok := t.Get(key)
	return ok, nil, nil
}

type mapIter struct {
	keys []string
	vals []interface{}
	at   int
}

func (it *mapIter) Next() bool { it.at++; return it.at <= len(it.keys) }
func (it *mapIter) Current() ([]byte, interface{}) {
	return []byte(it.keys[it.at-1]), it.vals[it.at-1]
}
func (t *mapTrie) ValueIterator() trie.ValueIterator {
	t.calls++
	it := &mapIter{}
	for k, v := range t.m {
		it.keys, it.vals = append(it.keys, k), append(it.vals, v)
	}
	return it
}

// liveTrie is the live side of a RevertableTrie.
type liveTrie struct{ *trie.RevertableTrie }

func (t liveTrie) Get(key []byte) (interface{}, bool) { return t.GetLive(key) }
func (t liveTrie) GetProof(key []byte) (interface{}, trie.ProofChain, bool) {
	// the proof is of the committed side
	t.RevertableTrie.GetProof(key)
	v, ok := t.GetLive(key)
	return v, trie.ProofChain{nil}, ok
}
func (t liveTrie) GetExistenceProof(key []byte) (bool, trie.ProofChain, error) {
	_, ch, err := t.RevertableTrie.GetExistenceProof(key)
	_, ok := t.GetLive(key)
	return ok, ch, err
}
func (t liveTrie) ValueIterator() trie.ValueIterator {
	t.RevertableTrie.ValueIterator()
	return t.LiveValueIterator()
}
func (t liveTrie) IsDirty() bool {
	_, _ = t.PreHashValue()
	return t.RevertableTrie.IsDirty()
}

// Goroutines share one trie; their operations must look as if run one at a time.
func TestT15_tries(t *testing.T) {
	h.Check(t, ">=2 goroutines with a write to a key another one touches", h.N{Quick: 1500, Thorough: 40000},
		func(rt *rapid.T, c *h.C) {
			cd, g := rtlCodec, drawKeyGen(rt, true)
			d := db.NewMemDB()
			tr, m := cd.openOn(d, nil), model{}
			for i := h.Int(rt, 0, 12, "initial"); i > 0; i-- {
				k := g.draw(rt)
				v := cd.mk(k, []byte(fmt.Sprintf("i%d", i)))
				tr.Put(k, v)
				m[string(k)] = v
			}
			g.draw(rt)
			if h.Bool(rt, "reopen") {
				root, err := tr.CommitAndHash()
				if err != nil {
					rt.Fatalf("%v", err)
				}
				tr = cd.openOn(d, root)
				c.Op("%d keys, reopened", len(m))
			} else {
				c.Op("%d keys", len(m))
			}
			var x concTrie = tr
			kind := h.Int(rt, 0, 4, "kind")
			switch kind {
			case 1:
				x = trie.NewSyncTrie(tr)
			case 2:
				mt := &mapTrie{m: map[string]interface{}{}}
				for k, v := range m {
					mt.m[k] = v
				}
				x = trie.NewSyncTrie(mt)
			case 3:
				x = liveTrie{&trie.RevertableTrie{Origin: tr}}
			}
			name := []string{"trie", "sync trie", "sync trie around a map", "revertable trie", "trie"}[kind]
			c.Op("%s", name)
			c.Class(name)
			initial := map[string]string{}
			for k, v := range m {
				initial[k] = cd.str(v)
			}
			type op struct {
				kind int
				k    []byte
				v    string
			}
			n := h.Int(rt, 2, 4, "goroutines")
			plan := make([][]op, n)
			touched := map[string]map[int]bool{}
			written := map[string]bool{}
			for i := range plan {
				for j := h.Int(rt, 1, 6, "ops"); j > 0; j-- {
					o := op{kind: h.Int(rt, 0, 13, "op"), k: rapid.SampledFrom(g.used).Draw(rt, "key")}
					o.v = fmt.Sprintf("g%d.%d", i, j)
					plan[i] = append(plan[i], o)
					name := "get"
					switch o.kind {
					case 0, 1, 2, 12:
						name = "put " + o.v
						if o.kind == 12 {
							name = "put value " + o.v
						}
						written[string(o.k)] = true
					case 3, 4:
						name = "delete"
						written[string(o.k)] = true
					case 6:
						name = "hash"
					case 7:
						name = "commit"
					case 8:
						name = "proof"
					case 9:
						name = "iterate"
					case 10:
						name = "dirty"
					case 11:
						name = "existence"
					case 13:
						name = "print/clone"
					}
					c.Op("g%d %s %x", i, name, o.k)
					if touched[string(o.k)] == nil {
						touched[string(o.k)] = map[int]bool{}
					}
					touched[string(o.k)][i] = true
				}
			}
			for k := range written {
				c.NonTrivial(len(touched[k]) >= 2)
			}
			hs := &h.History{}
			var fns []func() error
			for i := range plan {
				i := i
				fns = append(fns, func() error {
					for _, o := range plan[i] {
						o, key := o, fmt.Sprintf("%x", o.k)
						var err error
						switch o.kind {
						case 0, 1, 2, 12:
							val := cd.mk(o.k, []byte(o.v))
							hs.Do(i, h.KVIn{Op: "put", Key: key, Val: cd.str(val)}, func() h.KVOut {
								if o.kind == 12 {
									x.PutValue(val.(trie.TrieValue))
								} else {
									x.Put(o.k, val)
								}
								return h.KVOut{Any: true}
							})
						case 10:
							x.IsDirty()
						case 11:
							hs.Do(i, h.KVIn{Op: "has", Key: key}, func() h.KVOut {
								ok, _, e := x.GetExistenceProof(o.k)
								err = e
								return h.KVOut{OK: ok}
							})
						case 13:
							switch {
							case kind == 0 || kind == 4:
								if len(o.v)%2 == 0 {
									_ = tr.PrintValues()
								}
								_ = tr.String()
								it := tr.ReversedValueIterator()
								for it.Next() {
									it.Current()
								}
								_, _ = tr.CommitAndHash()
								_ = tr.Inherit(nil)
								_ = tr.Clone()
								_, _ = tr.Rebase(db.NewMemDB())
							case kind == 3:
								rv := x.(liveTrie).RevertableTrie
								_ = rv.Copy()
								_, _ = rv.PreCommit()
								_, _ = rv.PreHashValue()
								_, _, _ = rv.CheckPoint()
								_, _ = rv.Get(o.k)
							}
						case 3, 4:
							hs.Do(i, h.KVIn{Op: "del", Key: key}, func() h.KVOut {
								ch, old := x.Delete(o.k)
								r := h.KVOut{OK: ch}
								if ch {
									r.Val = cd.str(old)
								}
								return r
							})
						case 6:
							_, err = x.HashValue()
						case 7:
							err = x.Commit()
						case 8:
							hs.Do(i, h.KVIn{Op: "get", Key: key}, func() h.KVOut {
								v, chain, ok := x.GetProof(o.k)
								r := h.KVOut{OK: ok}
								if ok {
									r.Val = cd.str(v)
									if len(chain) == 0 {
										err = errors.New("empty proof")
									}
								}
								return r
							})
						case 9:
							// a snapshot: one read of every key
							got := map[string]string{}
							for _, k := range g.used {
								k := k
								hs.Do(i, h.KVIn{Op: "get", Key: fmt.Sprintf("%x", k)}, func() h.KVOut {
									for k := range got {
										delete(got, k)
									}
									it := x.ValueIterator()
									for it.Next() {
										k, v := it.Current()
										got[string(k)] = cd.str(v)
									}
									v, ok := got[string(k)]
									return h.KVOut{Val: v, OK: ok}
								})
							}
						default:
							hs.Do(i, h.KVIn{Op: "get", Key: key}, func() h.KVOut {
								v, ok := x.Get(o.k)
								r := h.KVOut{OK: ok}
								if ok {
									r.Val = cd.str(v)
								}
								return r
							})
						}
						if err != nil {
							return err
						}
					}
					return nil
				})
			}
			if err := h.Together(fns...); err != nil {
				rt.Fatalf("%v", err)
			}
			// the final contents, read by a last client
			final := model{}
			for _, k := range g.used {
				k := k
				hs.Do(n, h.KVIn{Op: "get", Key: fmt.Sprintf("%x", k)}, func() h.KVOut {
					v, ok := x.Get(k)
					if ok {
						final[string(k)] = v
						return h.KVOut{Val: cd.str(v), OK: true}
					}
					return h.KVOut{}
				})
			}
			init := map[string]string{}
			for k, v := range initial {
				init[fmt.Sprintf("%x", k)] = v
			}
			if s := hs.Check(init); s != "" {
				rt.Fatalf("%s", s)
			}
			if err := x.Commit(); err != nil {
				rt.Fatalf("Commit: %v", err)
			}
			if kind == 2 {
				return
			}
			root := mustRoot(rt, x.HashValue)
			if !bytes.Equal(root, refRoot(final, cd)) {
				rt.Fatalf("root %x is not that of the contents", root)
			}
			checkOpened(rt, "reopened", cd, cd.openOn(d, root), final, g.used)
		})
}

// Goroutines share one combined trie and the tries in it.
func TestT15_combined(t *testing.T) {
	h.Check(t, ">=2 goroutines with a write to a key another one touches", h.N{Quick: 800, Thorough: 20000},
		func(rt *rapid.T, c *h.C) {
			cd := rtlCodec
			d := db.NewMemDB()
			comb := trie.NewCombinedTrie(db.NewKeyPrefixedDataAdapter(db.NewMemDB(), []byte("c")))
			names := []string{"a", "ab", "b", "\x00", "zz"}[:h.Int(rt, 2, 5, "names")]
			var mu sync.Mutex
			ids := map[*trie.Trie]string{}
			hashes := map[string][]byte{}
			mk := func(id string) *trie.Trie {
				t := cd.openOn(d, nil)
				k := []byte(id)
				v := cd.mk(k, k)
				t.Put(k, v)
				mu.Lock()
				defer mu.Unlock()
				ids[t] = id
				hashes[id] = refRoot(model{id: v}, cd)
				return t
			}
			str := func(v interface{}) string {
				mu.Lock()
				defer mu.Unlock()
				s, ok := ids[v.(*trie.Trie)]
				if !ok {
					return "a trie never put"
				}
				return s
			}
			init := map[string]string{}
			for i, k := range names {
				if h.Bool(rt, "initial") {
					id := fmt.Sprintf("i%d", i)
					comb.Put([]byte(k), mk(id))
					init[k] = id
				}
			}
			c.Op("initially %v", init)
			type op struct {
				kind int
				k    string
				t    *trie.Trie
			}
			n := h.Int(rt, 2, 4, "goroutines")
			plan := make([][]op, n)
			touched := map[string]map[int]bool{}
			written := map[string]bool{}
			for i := range plan {
				for j := h.Int(rt, 1, 6, "ops"); j > 0; j-- {
					o := op{kind: h.Int(rt, 0, 11, "op"), k: rapid.SampledFrom(names).Draw(rt, "name")}
					what := []string{"put", "put", "put", "delete", "delete", "get", "get", "proof", "hash", "commit", "dirty", "walk"}[o.kind]
					if o.kind <= 2 {
						id := fmt.Sprintf("g%d.%d", i, j)
						o.t = mk(id)
						what += " " + id
					}
					if o.kind <= 4 {
						written[o.k] = true
					}
					if o.kind <= 7 {
						if touched[o.k] == nil {
							touched[o.k] = map[int]bool{}
						}
						touched[o.k][i] = true
					}
					plan[i] = append(plan[i], o)
					c.Op("g%d %s %q", i, what, o.k)
				}
			}
			for k := range written {
				c.NonTrivial(len(touched[k]) >= 2)
			}
			hs := &h.History{}
			var fns []func() error
			for i := range plan {
				i := i
				fns = append(fns, func() error {
					for _, o := range plan[i] {
						o := o
						var err error
						switch o.kind {
						case 0, 1, 2:
							hs.Do(i, h.KVIn{Op: "put", Key: o.k, Val: str(o.t)}, func() h.KVOut {
								comb.Put([]byte(o.k), o.t)
								return h.KVOut{Any: true}
							})
						case 3, 4:
							hs.Do(i, h.KVIn{Op: "del", Key: o.k}, func() h.KVOut {
								ok, old := comb.Delete([]byte(o.k))
								r := h.KVOut{OK: ok}
								if ok {
									r.Val = str(old)
								}
								return r
							})
						case 5, 6:
							hs.Do(i, h.KVIn{Op: "get", Key: o.k}, func() h.KVOut {
								v, ok := comb.Get([]byte(o.k))
								r := h.KVOut{OK: ok}
								if ok {
									r.Val = str(v)
									v.(*trie.Trie).Get([]byte(r.Val))
								}
								return r
							})
						case 7:
							hs.Do(i, h.KVIn{Op: "get", Key: o.k}, func() h.KVOut {
								v, ch, ok := comb.GetProof([]byte(o.k))
								r := h.KVOut{OK: ok}
								if ok {
									r.Val = str(v)
									if len(ch) == 0 {
										err = errors.New("empty proof")
									}
								}
								return r
							})
						case 8:
							_, err = comb.HashValue()
						case 9:
							// there is nothing to commit in an empty one, which is an error
							if err = comb.Commit(); errors.Is(err, common.ErrNil) {
								err = nil
							}
						case 10:
							comb.IsDirty()
						case 11:
							ks := comb.Keys()
							if !sort.StringsAreSorted(ks) {
								err = fmt.Errorf("Keys()=%q", ks)
							}
							for j := 1; j < len(ks); j++ {
								if ks[j] == ks[j-1] {
									err = fmt.Errorf("Keys()=%q", ks)
								}
							}
							it := comb.ValueIterator()
							for it.Next() {
								if k, v := it.Current(); k != nil {
									str(v)
								}
							}
						}
						if err != nil {
							return err
						}
					}
					return nil
				})
			}
			if err := h.Together(fns...); err != nil {
				rt.Fatalf("%v", err)
			}
			var left [][]byte
			for _, k := range sortedNames(names) {
				k := k
				hs.Do(n, h.KVIn{Op: "get", Key: k}, func() h.KVOut {
					v, ok := comb.Get([]byte(k))
					if !ok {
						return h.KVOut{}
					}
					left = append(left, hashes[str(v)])
					return h.KVOut{Val: str(v), OK: true}
				})
			}
			if s := hs.Check(init); s != "" {
				rt.Fatalf("%s", s)
			}
			if err := comb.Commit(); err != nil && len(left) > 0 {
				rt.Fatalf("Commit: %v", err)
			}
			want := nilHash()
			if len(left) > 0 {
				want = refMerkle(left)
			}
			if got := mustRoot(rt, comb.HashValue); !bytes.Equal(got, want) || len(comb.Keys()) != len(left) {
				rt.Fatalf("root %x of %q, want %x", got, comb.Keys(), want)
			}
		})
}

func sortedNames(names []string) []string {
	r := append([]string{}, names...)
	sort.Strings(r)
	return r
}

// One goroutine appends to a history tree which others read.
func TestT15_history(t *testing.T) {
	h.Check(t, "every reader read while >=3 values were appended", h.N{Quick: 800, Thorough: 20000},
		func(rt *rapid.T, c *h.C) {
			seed := h.Int(rt, 0, 9, "values")
			d := db.NewMemDB()
			tr, err := trie.NewHistoryTree(d, []byte("h"), nil, true)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			n0, n := h.Int(rt, 1, 40, "initial"), h.Int(rt, 3, 30, "appended")
			ref := &refHist{}
			roots := map[string]uint64{}
			for ref.n < uint64(n0+n) {
				v := histVal(seed, ref.n)
				if ref.n < uint64(n0) {
					if err := tr.Append(ref.n, v); err != nil {
						rt.Fatalf("%v", err)
					}
				}
				ref.append(v)
				roots[string(ref.root())] = ref.n
			}
			c.Op("%d values, %d appended", n0, n)
			commitEvery := h.Int(rt, 0, 8, "commitEvery")
			fns := []func() error{func() error {
				for i := 0; i < n; i++ {
					k := uint64(n0 + i)
					if err := tr.Append(k, histVal(seed, k)); err != nil {
						return fmt.Errorf("Append(%d): %v", k, err)
					}
					if commitEvery > 0 && i%commitEvery == 0 {
						if err := tr.Commit(); err != nil {
							return err
						}
					}
				}
				return nil
			}}
			for r := h.Int(rt, 1, 3, "readers"); r > 0; r-- {
				var ks []uint64
				var kinds []int
				for i := h.Int(rt, 3, 20, "reads"); i > 0; i-- {
					ks = append(ks, uint64(h.Int(rt, 0, n0+n-1, "key")))
					kinds = append(kinds, h.Int(rt, 0, 4, "kind"))
				}
				c.Op("reader %v %v", ks, kinds)
				fns = append(fns, func() error {
					for i, k := range ks {
						before := tr.Expecting()
						switch kinds[i] {
						case 0, 1:
							v, ok := tr.Get(k)
							after := tr.Expecting()
							if ok && (k >= after || !bytes.Equal(v, histVal(seed, k))) {
								return fmt.Errorf("Get(%d)=%x with at most %d values", k, v, after)
							}
							if !ok && k < before {
								return fmt.Errorf("Get(%d) not found with at least %d values", k, before)
							}
						case 2:
							root, err := tr.HashValue()
							after := tr.Expecting()
							if err != nil {
								return err
							}
							if at, ok := roots[string(root)]; !ok || at < before || at > after {
								return fmt.Errorf("root %x is that of no length in [%d,%d]", root, before, after)
							}
						case 3:
							v, chain, ok := tr.GetProof(k)
							after := tr.Expecting()
							if ok != (k < before) && !(ok && k < after) && !(!ok && k >= before) {
								return fmt.Errorf("GetProof(%d) ok=%t with %d..%d values", k, ok, before, after)
							}
							if ok {
								var hv [32]byte
								copy(hv[:], v)
								root, err := chain.Proof(hv)
								if err != nil {
									return err
								}
								if at, ok := roots[string(root)]; !ok || at < before || at > after {
									return fmt.Errorf("proof of %d leads to %x, the root of no length in [%d,%d]", k, root, before, after)
								}
							}
						case 4:
							_ = tr.CollapseBefore(before &^ 15)
						}
					}
					return nil
				})
			}
			if err := h.Together(fns...); err != nil {
				rt.Fatalf("%v", err)
			}
			root, err := tr.CommitAndHash()
			if err != nil || !bytes.Equal(root, ref.root()) {
				rt.Fatalf("final root %x (%v), want %x", root, err, ref.root())
			}
			c.NonTrivial(true)
		})
}
