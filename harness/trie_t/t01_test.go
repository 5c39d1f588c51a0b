package trie_t

import (
	"bytes"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestT01_map(t *testing.T) {
	h.Check(t, "history with >=3 puts, a delete that hit, and a commit/collapse/reopen in between",
		h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
			w := newWorld(rt, c, true)
			n := h.Int(rt, 2, 45, "ops")
			for i := 0; i < n; i++ {
				w.step(rt, c)
				if h.OneIn(rt, 6, "scan") {
					w.check(rt, "mid-history")
				}
			}
			w.check(rt, "end")
			c.NonTrivial(w.puts >= 3 && w.hits >= 1 && w.commits+w.collapses+w.reopens >= 1)
			classes(c, w)
		})
}

func classes(c *h.C, w *world) {
	if w.reopens > 0 {
		c.Class("reopened")
	}
	if w.collapses > 0 {
		c.Class("collapsed")
	}
	if w.hits > 0 {
		c.Class("deleted")
	}
	if w.g.mode == 0 {
		c.Class("variable-length keys")
	}
	ks := w.m.keys()
	for i := 1; i < len(ks); i++ {
		if len(ks[i]) > len(ks[i-1]) && ks[i][:len(ks[i-1])] == ks[i-1] {
			c.Class("a key is a prefix of another")
			break
		}
	}
	if len(ks) == 0 {
		c.Class("ends empty")
	}
	if len(ks) >= 10 {
		c.Class(">=10 keys at the end")
	}
}

func TestT02_canonical(t *testing.T) {
	h.Check(t, "the final contents hold >=2 keys and were reached with at least one delete or overwrite",
		h.N{Quick: 40000, Thorough: 1200000}, func(rt *rapid.T, c *h.C) {
			w := newWorld(rt, c, true)
			n := h.Int(rt, 2, 40, "ops")
			for i := 0; i < n; i++ {
				w.step(rt, c)
				if h.OneIn(rt, 5, "root?") {
					if got, want := mustRoot(rt, w.t.HashValue), refRoot(w.m, w.c); !bytes.Equal(got, want) {
						rt.Fatalf("after op %d: root %x, the canonical root of the contents is %x", i, got, want)
					}
				}
			}
			want := refRoot(w.m, w.c)
			if got := mustRoot(rt, w.t.HashValue); !bytes.Equal(got, want) {
				rt.Fatalf("root %x, the canonical root of the %d values is %x", got, len(w.m), want)
			}
			if got := mustRoot(rt, w.t.CommitAndHash); !bytes.Equal(got, want) {
				rt.Fatalf("CommitAndHash %x, the canonical root is %x", got, want)
			}
			// the same contents put in another order
			ks := rapid.Permutation(w.m.keys()).Draw(rt, "order")
			o := w.c.openOn(db.NewMemDB(), nil)
			if h.Bool(rt, "batchPutter") {
				bp := trie.NewBatchPutter(o, h.Int(rt, 1, 5, "mod"))
				for _, k := range ks {
					if ok, err := bp.Put([]byte(k), w.m[k]); err != nil || !ok {
						rt.Fatalf("BatchPutter.Put(%x) = %t,%v", k, ok, err)
					}
				}
				if bp.Count() != len(ks) {
					rt.Fatalf("BatchPutter.Count()=%d after %d puts", bp.Count(), len(ks))
				}
			} else {
				for _, k := range ks {
					o.Put([]byte(k), w.m[k])
				}
			}
			if got := mustRoot(rt, o.HashValue); !bytes.Equal(got, want) {
				rt.Fatalf("contents put in order %x give root %x, the history gave %x", ks, got, want)
			}
			// any single change of the contents changes the root
			if len(ks) > 0 {
				k := ks[0]
				changed := w.m.clone()
				switch h.Int(rt, 0, 2, "mutate") {
				case 0:
					delete(changed, k)
					o.Delete([]byte(k))
				case 1:
					changed[k] = w.c.mk([]byte(k), []byte("another"))
					o.Put([]byte(k), changed[k])
				case 2:
					nk := k + "\x07"
					for _, in := changed[nk]; in; _, in = changed[nk] {
						nk += "\x07"
					}
					changed[nk] = w.m[k]
					o.Put([]byte(nk), w.m[k])
				}
				if bytes.Equal(mustRoot(rt, o.HashValue), want) {
					rt.Fatalf("different contents, same root %x", want)
				}
			}
			if len(w.m) == 0 && (!trie.IsEmptyTrieRoot(want) || !bytes.Equal(want, common.EmptyNodeHashSlice)) {
				rt.Fatalf("empty trie, root %x", want)
			}
			c.NonTrivial(len(w.m) >= 2 && w.puts > len(w.m))
			classes(c, w)
		})
}
