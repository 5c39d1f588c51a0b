package trie_t

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"pgregory.net/rapid"

	"verifharness/h"
)

// The same for history trees: every database access of a history fails in turn.
func TestT05_history(t *testing.T) {
	h.Check(t, "the history is run once per database access with that access failing; non-trivial: at least 3 of them",
		h.N{Quick: 1500, Thorough: 40000}, func(rt *rapid.T, c *h.C) {
			seed := h.Int(rt, 0, 9, "values")
			n0 := drawCount(rt, "initial") + 1
			c.Op("%d values, reopened", n0)
			type op struct {
				kind int
				k    uint64
			}
			var ops []op
			for i := h.Int(rt, 1, 10, "ops"); i > 0; i-- {
				o := op{kind: h.Int(rt, 0, 5, "op"), k: uint64(h.Int(rt, 0, n0+10, "key"))}
				c.Op("%s %d", []string{"append", "append", "get", "proof", "collapse", "commit"}[o.kind], o.k)
				ops = append(ops, o)
			}
			sticky, onWrite := h.Bool(rt, "sticky"), h.Bool(rt, "write")
			hits := 0
			for fail := 1; fail < 60; fail++ {
				f := &faultDB{Database: db.NewMemDB()}
				tr, err := trie.NewHistoryTree(f, []byte("h"), nil, true)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				ref := &refHist{}
				for ref.n < uint64(n0) {
					v := histVal(seed, ref.n)
					if err := tr.Append(ref.n, v); err != nil {
						rt.Fatalf("%v", err)
					}
					ref.append(v)
				}
				root0 := mustRoot(rt, tr.CommitAndHash)
				if tr, err = trie.NewHistoryTree(f, []byte("h"), root0, true); err != nil {
					rt.Fatalf("%v", err)
				}
				if onWrite {
					f.arm(fail, 0, sticky)
				} else {
					f.arm(0, fail, sticky)
				}
				what := fmt.Sprintf("failing access %d", fail)
				for _, o := range ops {
					switch o.kind {
					case 0, 1:
						v := histVal(seed, ref.n)
						if err := tr.Append(ref.n, v); err == nil {
							ref.append(v)
						} else if !f.fired {
							rt.Fatalf("Append: %v", err)
						}
						if tr.Expecting() != ref.n {
							rt.Fatalf("%s: Expecting()=%d, %d values were appended", what, tr.Expecting(), ref.n)
						}
					case 2:
						v, ok := tr.Get(o.k)
						if ok && (o.k >= ref.n || !bytes.Equal(v, histVal(seed, o.k))) {
							rt.Fatalf("%s: Get(%d)=%x of %d values", what, o.k, v, ref.n)
						}
						if !ok && o.k < ref.n && !f.fired {
							rt.Fatalf("Get(%d) not found", o.k)
						}
					case 3:
						v, chain, ok := tr.GetProof(o.k)
						if ok {
							checkHistProof(rt, o.k, v, ref.root(), chain, what)
						} else if o.k < ref.n && !f.fired {
							rt.Fatalf("GetProof(%d) failed", o.k)
						}
					case 4:
						_ = tr.CollapseBefore(ref.n &^ 15)
					case 5:
						if err := tr.Commit(); err == nil {
							x, err := trie.NewHistoryTree(f.Database, []byte("h"), ref.root(), true)
							if err != nil || x.Expecting() != ref.n {
								rt.Fatalf("%s: Commit reported success; reopening: %v", what, err)
							}
						} else if !f.fired {
							rt.Fatalf("Commit: %v", err)
						}
					}
				}
				fired := f.fired
				f.arm(0, 0, false)
				if fired {
					hits++
				} else if fail > 1 {
					break
				}
				all := func(x *trie.HistoryTree, n uint64, what string) {
					for i := uint64(0); i < n+3; i++ {
						k := i
						if n > 40 && i >= 10 && i < n-10 && i%16 > 1 {
							continue
						}
						if v, ok := x.Get(k); ok != (k < n) || (ok && !bytes.Equal(v, histVal(seed, k))) {
							rt.Fatalf("%s: Get(%d)=%x,%t of %d values", what, k, v, ok, n)
						}
					}
				}
				all(tr, ref.n, what+": afterwards")
				root := mustRoot(rt, tr.CommitAndHash)
				if !bytes.Equal(root, ref.root()) {
					rt.Fatalf("%s: root %x, want %x", what, root, ref.root())
				}
				x, err := trie.NewHistoryTree(f, []byte("h"), root, true)
				if err != nil {
					rt.Fatalf("%s: reopen: %v", what, err)
				}
				all(x, ref.n, what+": reopened")
				if x, err = trie.NewHistoryTree(f, []byte("h"), root0, true); err != nil {
					rt.Fatalf("%s: reopen the old root: %v", what, err)
				}
				all(x, uint64(n0), what+": old root")
				if !fired {
					break
				}
			}
			c.NonTrivial(hits >= 3)
		})
}
