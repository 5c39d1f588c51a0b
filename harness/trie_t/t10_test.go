package trie_t

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"pgregory.net/rapid"

	"verifharness/h"
)

type ckpt struct {
	idx  int
	root []byte
	m    model
}

// revWorld is a RevertableTrie with its model: the committed and the live contents.
type revWorld struct {
	c      *codec
	g      *keyGen
	d      db.Database
	r      *trie.RevertableTrie
	origin model
	live   model // nil: nothing pending
	cks    []ckpt

	reverts, rollbacks, commits, cps, puts, dels int
}

func (w *revWorld) cur() model {
	if w.live != nil {
		return w.live
	}
	return w.origin
}

func (w *revWorld) edit() model {
	if w.live == nil {
		w.live = w.origin.clone()
	}
	return w.live
}

func (w *revWorld) step(rt *rapid.T, c *h.C) {
	switch op := h.Int(rt, 0, 99, "op"); {
	case op < 38:
		k := w.g.draw(rt)
		v := w.c.mk(k, drawContent(rt))
		c.Op("put %x=%s", k, short([]byte(w.c.str(v))))
		w.puts++
		var ok bool
		if tv, is := v.(trie.TrieValue); is && h.Bool(rt, "putValue") {
			ok = w.r.PutValue(tv)
		} else {
			ok = w.r.Put(k, v)
		}
		if !ok {
			rt.Fatalf("Put(%x) reported no change", k)
		}
		w.edit()[string(k)] = v
	case op < 56:
		k := w.g.draw(rt)
		c.Op("delete %x", k)
		w.dels++
		m := w.edit()
		old, exist := m[string(k)]
		changed, got := w.r.Delete(k)
		if changed != exist {
			rt.Fatalf("Delete(%x) changed=%t, present=%t", k, changed, exist)
		}
		if exist && (got == nil || w.c.str(got) != w.c.str(old)) {
			rt.Fatalf("Delete(%x) returned another value", k)
		}
		delete(m, string(k))
	case op < 68:
		idx, root, err := w.r.CheckPoint()
		if err != nil {
			rt.Fatalf("CheckPoint: %v", err)
		}
		c.Op("checkpoint %d", idx)
		w.cps++
		if idx != len(w.cks) {
			rt.Fatalf("CheckPoint number %d, expected %d", idx, len(w.cks))
		}
		if want := refRoot(w.cur(), w.c); !bytes.Equal(root, want) {
			rt.Fatalf("CheckPoint root %x, the live contents have %x", root, want)
		}
		w.cks = append(w.cks, ckpt{idx, append([]byte{}, root...), w.cur().clone()})
	case op < 80:
		if len(w.cks) == 0 || h.OneIn(rt, 6, "badRevert") {
			i := h.Int(rt, -1, len(w.cks)+1, "badIdx")
			root := h.Bytes(rt, 32, 32, "badRoot")
			if h.Bool(rt, "emptyRoot") {
				root = nil
			}
			c.Op("revert to %d with a wrong root", i)
			if err := w.r.RevertTo(i, root); err == nil {
				rt.Fatalf("RevertTo(%d, wrong root) did not fail", i)
			}
			return
		}
		k := w.cks[h.Int(rt, 0, len(w.cks)-1, "ck")]
		c.Op("revert to %d", k.idx)
		w.reverts++
		if err := w.r.RevertTo(k.idx, k.root); err != nil {
			rt.Fatalf("RevertTo(%d): %v", k.idx, err)
		}
		w.live = k.m.clone()
		gone := w.cks[k.idx:]
		w.cks = w.cks[:k.idx:k.idx]
		if len(gone) > 0 && h.Bool(rt, "again") {
			if err := w.r.RevertTo(gone[0].idx, gone[0].root); err == nil {
				rt.Fatalf("RevertTo(%d) twice did not fail", gone[0].idx)
			}
		}
	case op < 86:
		c.Op("rollback")
		w.rollbacks++
		w.r.Rollback()
		w.live, w.cks = nil, nil
	case op < 93:
		c.Op("commit")
		w.commits++
		var root []byte
		if h.Bool(rt, "andHash") {
			root = mustRoot(rt, w.r.CommitAndHash)
		} else {
			if err := w.r.Commit(); err != nil {
				rt.Fatalf("Commit: %v", err)
			}
			root = mustRoot(rt, w.r.HashValue)
		}
		w.origin = w.cur()
		w.live, w.cks = nil, nil
		checkOpened(rt, "committed root reopened", w.c, w.c.openOn(w.d, root), w.origin, w.g.used)
	case op < 96:
		c.Op("precommit")
		root := mustRoot(rt, w.r.PreCommit)
		checkOpened(rt, "precommitted root reopened", w.c, w.c.openOn(w.d, root), w.cur(), w.g.used)
	case op < 97:
		c.Op("live trie")
		lt, err := w.r.LiveTrie()
		if err != nil {
			rt.Fatalf("LiveTrie: %v", err)
		}
		checkGets(rt, w.c, lt, w.cur(), w.g.used, "LiveTrie")
		w.edit()
	case op < 98:
		old := w.cks
		m := model{}
		t := w.c.openOn(w.d, nil)
		for i := h.Int(rt, 0, 3, "newKeys"); i > 0; i-- {
			k := w.g.draw(rt)
			v := w.c.mk(k, drawContent(rt))
			t.Put(k, v)
			m[string(k)] = v
		}
		c.Op("set to another trie of %d values", len(m))
		if err := t.Commit(); err != nil {
			rt.Fatalf("Commit: %v", err)
		}
		if err := w.r.SetTo(t); err != nil {
			rt.Fatalf("SetTo: %v", err)
		}
		w.origin, w.live, w.cks = m, nil, nil
		if len(old) > 0 {
			// the checkpoints belonged to the trie which was replaced
			if err := w.r.RevertTo(old[0].idx, old[0].root); err == nil {
				if got, want := mustRoot(rt, w.r.PreHashValue), old[0].root; !bytes.Equal(got, want) {
					rt.Fatalf("RevertTo(%d) after SetTo succeeded, the live root is %x, not the one of the checkpoint %x", old[0].idx, got, want)
				}
				w.live = old[0].m.clone()
			}
		}
	default:
		c.Op("hash")
	}
}

func (w *revWorld) check(rt *rapid.T, what string) {
	checkGets(rt, w.c, w.r, w.origin, w.g.used, what+": committed view")
	for _, k := range w.g.used {
		v, ok := w.r.GetLive(k)
		want, exist := w.cur()[string(k)]
		if ok != exist || (ok && w.c.str(v) != w.c.str(want)) {
			rt.Fatalf("%s: GetLive(%x) found=%t, want %t", what, k, ok, exist)
		}
	}
	if got, want := mustRoot(rt, w.r.HashValue), refRoot(w.origin, w.c); !bytes.Equal(got, want) {
		rt.Fatalf("%s: committed root %x, want %x", what, got, want)
	}
	if got, want := mustRoot(rt, w.r.PreHashValue), refRoot(w.cur(), w.c); !bytes.Equal(got, want) {
		rt.Fatalf("%s: live root %x, want %x", what, got, want)
	}
	if w.live != nil && !w.live.equal(w.origin, w.c) && !w.r.IsDirty() {
		rt.Fatalf("%s: changes are pending and IsDirty is false", what)
	}
	if h.OneIn(rt, 6, "carry") {
		// the committed contents, and only they, are carried to another database
		d := db.NewMemDB()
		got := map[string][]byte{}
		if err := w.r.Dump(d, func(k, v []byte) { got[string(k)] = v }); err != nil {
			rt.Fatalf("%s: Dump: %v", what, err)
		}
		for k, v := range got {
			mv, ok := w.origin[k]
			if !ok {
				rt.Fatalf("%s: Dump reports key %x which is not committed", what, k)
			}
			if !bytes.Equal(w.c.enc(mv), v) {
				rt.Fatalf("%s: Dump reports %x for %x, not %x", what, v, k, w.c.enc(mv))
			}
		}
		if len(got) != len(w.origin) {
			rt.Fatalf("%s: Dump reports %d values of %d", what, len(got), len(w.origin))
		}
		o, err := w.r.Rebase(d)
		if err != nil {
			rt.Fatalf("%s: Rebase: %v", what, err)
		}
		checkGets(rt, w.c, o, w.origin, w.g.used, what+": rebased")
		if got, want := mustRoot(rt, o.PreHashValue), refRoot(w.origin, w.c); !bytes.Equal(got, want) {
			rt.Fatalf("%s: live root of the rebased trie %x, want %x", what, got, want)
		}
		if n := w.r.Copy(); n.Live != nil || (*trie.RevertableTrie)(nil).Copy() != nil {
			rt.Fatalf("%s: a copy has pending changes", what)
		}
	}
	keys, vals := drain(rt, w.c, w.r.ValueIterator(), len(w.origin))
	checkSeq(rt, what+": ValueIterator", w.c, w.origin, keys, vals, false)
	keys, vals = drain(rt, w.c, w.r.LiveValueIterator(), len(w.cur()))
	checkSeq(rt, what+": LiveValueIterator", w.c, w.cur(), keys, vals, false)
}

func TestT10_revertable(t *testing.T) {
	h.Check(t, "a revert to a checkpoint or a rollback after changes, among >=3 changes", h.N{Quick: 25000, Thorough: 800000},
		func(rt *rapid.T, c *h.C) {
			w := &revWorld{c: drawCodec(rt), g: drawKeyGen(rt, true), d: db.NewMemDB(), origin: model{}}
			t := w.c.openOn(w.d, nil)
			for i := h.Int(rt, 0, 5, "initial"); i > 0; i-- {
				k := w.g.draw(rt)
				v := w.c.mk(k, drawContent(rt))
				t.Put(k, v)
				w.origin[string(k)] = v
				c.Op("initially %x", k)
			}
			if err := t.Commit(); err != nil { // the origin is always a committed trie
				rt.Fatalf("Commit: %v", err)
			}
			w.r = &trie.RevertableTrie{Origin: t}
			for i := h.Int(rt, 3, 40, "ops"); i > 0; i-- {
				w.step(rt, c)
				if h.OneIn(rt, 4, "check") {
					w.check(rt, "mid-history")
				}
				if h.OneIn(rt, 25, "copy") {
					// a copy holds the committed contents and lives on its own
					c.Op("work on a copy")
					cp := &revWorld{c: w.c, g: w.g, d: w.d, r: w.r.Copy(), origin: w.origin.clone()}
					cp.check(rt, "copy")
					for j := h.Int(rt, 0, 6, "copyOps"); j > 0; j-- {
						cp.step(rt, c)
					}
					cp.check(rt, "copy after changes")
					c.Op("back to the original")
					w.check(rt, "original after changes of the copy")
				}
			}
			w.check(rt, "end")
			c.NonTrivial(w.reverts+w.rollbacks > 0 && w.puts+w.dels >= 3)
			if w.reverts > 0 {
				c.Class("reverted to a checkpoint")
			}
			if w.rollbacks > 0 {
				c.Class("rolled back")
			}
			if w.commits > 0 {
				c.Class("committed")
			}
		})
}

// ---- T11: tries of tries -------------------------------------------------------------------

func TestT11_combined(t *testing.T) {
	h.Check(t, ">=2 sub-tries, at least one of them changed after it was put", h.N{Quick: 12000, Thorough: 300000},
		func(rt *rapid.T, c *h.C) {
			cd := funcCodec
			d := db.NewMemDB()
			adapter := db.NewKeyPrefixedDataAdapter(d, []byte("c"))
			comb := trie.NewCombinedTrie(adapter)
			subs := map[string]*world{}
			g := drawKeyGen(rt, true)
			keyAlpha := rapid.SampledFrom([]string{"a", "b", "ab", "abc", "\x00", "\xff", "k0", "k1", "zz", "A", "0"})
			sorted := func() []string {
				m := model{}
				for k := range subs {
					m[k] = true
				}
				return m.keys()
			}
			refComb := func() []byte {
				if len(subs) == 0 {
					return nilHash()
				}
				var hs [][]byte
				for _, k := range sorted() {
					hs = append(hs, refRoot(subs[k].m, cd))
				}
				return refMerkle(hs)
			}
			verify := func(x *trie.SmallCombinedTrie, what string) {
				ks := sorted()
				if got := x.Keys(); fmt.Sprintf("%x", got) != fmt.Sprintf("%x", ks) {
					rt.Fatalf("%s: Keys()=%q want %q", what, got, ks)
				}
				root := mustRoot(rt, x.HashValue)
				if want := refComb(); !bytes.Equal(root, want) {
					rt.Fatalf("%s: root %x want %x", what, root, want)
				}
				it := x.ValueIterator()
				n := 0
				for it.Next() {
					k, v := it.Current()
					if n >= len(ks) || string(k) != ks[n] {
						rt.Fatalf("%s: iterator yields %q at %d of %q", what, k, n, ks)
					}
					checkGets(rt, cd, v.(*trie.Trie), subs[ks[n]].m, nil, what+" iterated")
					n++
				}
				if n != len(ks) {
					rt.Fatalf("%s: iterator yields %d of %d", what, n, len(ks))
				}
				for _, k := range ks {
					v, ok := x.Get([]byte(k))
					if !ok {
						rt.Fatalf("%s: Get(%q) not found", what, k)
					}
					checkGets(rt, cd, v.(*trie.Trie), subs[k].m, g.used, what)
					pv, chain, ok := x.GetProof([]byte(k))
					if !ok || pv != v {
						rt.Fatalf("%s: GetProof(%q) failed", what, k)
					}
					checkValueProof(rt, cd, chain, refRoot(subs[k].m, cd), root, what+": proof of sub-trie")
					for vk, vv := range subs[k].m {
						_, sub, ok := v.(*trie.Trie).GetProof([]byte(vk))
						if !ok {
							rt.Fatalf("%s: sub-trie %q GetProof(%x)", what, k, vk)
						}
						whole := append(sub.Clone(), chain...)
						checkValueProof(rt, cd, whole, cd.hash(vv), root, what+": proof of a value through both tries")
						break
					}
				}
				if _, ok := x.Get([]byte("absent")); ok {
					rt.Fatalf("%s: Get of an absent key", what)
				}
				if _, _, ok := x.GetProof([]byte("absent")); ok {
					rt.Fatalf("%s: GetProof of an absent key", what)
				}
				if x.Put([]byte("bad"), "not a trie") {
					rt.Fatalf("%s: Put of something which is not a trie", what)
				}
			}
			changedAfter := false
			for i := h.Int(rt, 2, 22, "ops"); i > 0; i-- {
				switch h.Int(rt, 0, 9, "op") {
				case 0, 1, 2:
					k := keyAlpha.Draw(rt, "key")
					w := &world{c: cd, g: g, d: d, m: model{}}
					w.t = cd.openOn(d, nil)
					for j := h.Int(rt, 0, 4, "values"); j > 0; j-- {
						w.put(rt, c)
					}
					c.Op("put sub-trie %q", k)
					if !comb.Put([]byte(k), w.t) {
						rt.Fatalf("Put(%q) failed", k)
					}
					subs[k] = w
				case 3:
					k := keyAlpha.Draw(rt, "key")
					c.Op("delete sub-trie %q", k)
					old, exist := subs[k]
					ch, ov := comb.Delete([]byte(k))
					if ch != exist {
						rt.Fatalf("Delete(%q)=%t want %t", k, ch, exist)
					}
					if exist && ov.(*trie.Trie) != old.t {
						rt.Fatalf("Delete(%q) returned another trie", k)
					}
					delete(subs, k)
				case 4, 5, 6:
					if ks := sorted(); len(ks) > 0 {
						k := ks[h.Int(rt, 0, len(ks)-1, "sub")]
						c.Op("in %q:", k)
						subs[k].put(rt, c)
						changedAfter = true
						if !comb.IsDirty() {
							rt.Fatalf("a sub-trie was changed and IsDirty is false")
						}
					}
				case 7:
					if ks := sorted(); len(ks) > 0 {
						k := ks[h.Int(rt, 0, len(ks)-1, "sub")]
						c.Op("in %q:", k)
						subs[k].del(rt, c)
					}
				case 8:
					if h.OneIn(rt, 3, "walk") && len(subs) > 1 {
						// deletes during a walk: nothing which stays is left out or met twice
						c.Op("delete during a walk")
						before := sorted()
						names := comb.Keys()
						it := comb.ValueIterator()
						seen := map[string]int{}
						gone := map[string]bool{}
						for it.Next() {
							k, v := it.Current()
							if subs[string(k)] == nil || v.(*trie.Trie) != subs[string(k)].t {
								rt.Fatalf("the walk meets %q which is not there", k)
							}
							seen[string(k)]++
							if h.OneIn(rt, 2, "deleteNow") {
								if ks := sorted(); len(ks) > 0 {
									x := ks[h.Int(rt, 0, len(ks)-1, "which")]
									comb.Delete([]byte(x))
									delete(subs, x)
									gone[x] = true
								}
							}
						}
						for _, k := range before {
							if seen[k] > 1 || (seen[k] == 0 && !gone[k]) {
								rt.Fatalf("sub-trie %q met %d times in a walk with deletes", k, seen[k])
							}
						}
						if fmt.Sprintf("%x", names) != fmt.Sprintf("%x", before) {
							rt.Fatalf("the keys %q given out before turned into %q", before, names)
						}
					}
					c.Op("check")
					verify(comb, "live")
				case 9:
					if len(subs) == 0 {
						continue
					}
					c.Op("commit, open again")
					if err := comb.Commit(); err != nil {
						rt.Fatalf("Commit: %v", err)
					}
					if comb.IsDirty() {
						rt.Fatalf("IsDirty after Commit")
					}
					root := mustRoot(rt, comb.HashValue)
					x := trie.NewCombinedTrie(adapter)
					na, va := adapters(d)
					t0 := cd.open(nil, na, va)
					_ = t0
					if err := x.InitTrie(root, na, va, funcEncode, funcDecode, funcHash); err != nil {
						rt.Fatalf("InitTrie: %v", err)
					}
					verify(x, "reopened")
					if h.Bool(rt, "continueOnReopened") {
						comb = x
						for k, w := range subs {
							v, _ := x.Get([]byte(k))
							w.t = v.(*trie.Trie)
						}
					}
				}
			}
			verify(comb, "end")
			if err := trie.NewCombinedTrie(adapter).InitTrie(common.CopyBytes(nil), nil, nil, funcEncode, funcDecode, funcHash); err == nil {
				rt.Fatalf("InitTrie without a root did not fail")
			}
			c.NonTrivial(len(subs) >= 2 && changedAfter)
			c.Class(fmt.Sprintf("%d sub-tries", len(subs)))
		})
}
