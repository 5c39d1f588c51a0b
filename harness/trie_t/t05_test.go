package trie_t

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"pgregory.net/rapid"

	"verifharness/h"
)

var errInjected = errors.New("injected fault")

// faultDB fails the n-th Put (or Get) from now on, once or for good.
type faultDB struct {
	db.Database
	puts, gets       int
	failPut, failGet int // 1-based; 0: never
	sticky           bool
	fired            bool
}

func (f *faultDB) Put(k, v []byte) error {
	f.puts++
	if f.failPut > 0 && (f.puts == f.failPut || (f.sticky && f.puts > f.failPut)) {
		f.fired = true
		return errInjected
	}
	return f.Database.Put(k, v)
}

func (f *faultDB) Get(k []byte) ([]byte, error) {
	f.gets++
	if f.failGet > 0 && (f.gets == f.failGet || (f.sticky && f.gets > f.failGet)) {
		f.fired = true
		return nil, errInjected
	}
	return f.Database.Get(k)
}

func (f *faultDB) arm(put, get int, sticky bool) {
	f.puts, f.gets, f.failPut, f.failGet, f.sticky, f.fired = 0, 0, put, get, sticky, false
}

// opRec is one recorded mutation, so that a history can be replayed exactly.
type opRec struct {
	k   []byte
	v   interface{} // nil: delete
	com bool
}

func drawOps(rt *rapid.T, c *h.C, cd *codec, g *keyGen, n int) []opRec {
	var ops []opRec
	for i := 0; i < n; i++ {
		switch x := h.Int(rt, 0, 9, "op"); {
		case x < 6:
			k, content := g.draw(rt), drawContent(rt)
			c.Op("put %x=%s", k, short(content))
			ops = append(ops, opRec{k: k, v: cd.mk(k, content)})
		case x < 9:
			k := g.draw(rt)
			c.Op("delete %x", k)
			ops = append(ops, opRec{k: k})
		default:
			c.Op("commit")
			ops = append(ops, opRec{com: true})
		}
	}
	return ops
}

func apply(t *trie.Trie, m model, ops []opRec) error {
	for _, o := range ops {
		switch {
		case o.com:
			if err := t.Commit(); err != nil {
				return err
			}
		case o.v == nil:
			t.Delete(o.k)
			delete(m, string(o.k))
		default:
			t.Put(o.k, o.v)
			m[string(o.k)] = o.v
		}
	}
	return nil
}

// Every write of a Commit is made to fail in turn: Commit either reports the failure or the
// new root is complete in the database; a later Commit completes it; old roots stay complete.
func TestT05_writes(t *testing.T) {
	h.Check(t, "the history is run once per write of its last commit with that write failing; non-trivial: at least 3 such writes",
		h.N{Quick: 3000, Thorough: 80000}, func(rt *rapid.T, c *h.C) {
			cd, g := drawCodec(rt), drawKeyGen(rt, true)
			first := drawOps(rt, c, cd, g, h.Int(rt, 0, 15, "first"))
			c.Op("commit; ----")
			second := drawOps(rt, c, cd, g, h.Int(rt, 1, 15, "second"))
			for i := range second {
				if second[i].com {
					second[i] = opRec{k: []byte{1}, v: cd.mk([]byte{1}, []byte("x"))}
				}
			}
			g.note([]byte{1})
			sticky := h.Bool(rt, "sticky")
			writes := 0
			for fail := 0; ; fail++ {
				f := &faultDB{Database: db.NewMemDB()}
				tr, m := cd.openOn(f, nil), model{}
				if err := apply(tr, m, first); err != nil {
					rt.Fatalf("setup: %v", err)
				}
				root0, err := tr.CommitAndHash()
				if err != nil {
					rt.Fatalf("setup commit: %v", err)
				}
				m0 := m.clone()
				if err := apply(tr, m, second); err != nil {
					rt.Fatalf("setup: %v", err)
				}
				f.arm(fail, 0, sticky)
				err = tr.Commit()
				fired := f.fired
				f.arm(0, 0, false)
				if fail == 0 {
					if err != nil {
						rt.Fatalf("Commit without faults: %v", err)
					}
				} else if !fired {
					break
				} else {
					writes++
				}
				what := fmt.Sprintf("failing write %d", fail)
				if err == nil {
					root := mustRoot(rt, tr.HashValue)
					checkOpened(rt, what+": Commit reported success; reopened", cd, cd.openOn(f, root), m, g.used)
				}
				checkGets(rt, cd, tr, m, g.used, what+": live trie")
				checkOpened(rt, what+": previous root", cd, cd.openOn(f, root0), m0, g.used)
				root, err := tr.CommitAndHash()
				if err != nil {
					rt.Fatalf("%s: Commit after the fault is gone: %v", what, err)
				}
				if !bytes.Equal(root, refRoot(m, cd)) {
					rt.Fatalf("%s: wrong root after the second Commit", what)
				}
				checkOpened(rt, what+": second Commit, reopened", cd, cd.openOn(f, root), m, g.used)
			}
			c.NonTrivial(writes >= 3)
			c.Class(fmt.Sprintf("%d-%d writes failed in turn", writes/8*8, writes/8*8+7))
		})
}

// Every read of a history on a reopened trie is made to fail in turn. The failing operation may
// report "not found"/"not changed" (the API has no error there) but nothing may be made up,
// and the contents must be those of the operations that reported success.
func TestT05_reads(t *testing.T) {
	h.Check(t, "the history is run once per database read it makes, with that read failing; non-trivial: at least 3 such reads",
		h.N{Quick: 3000, Thorough: 80000}, func(rt *rapid.T, c *h.C) {
			cd, g := drawCodec(rt), drawKeyGen(rt, true)
			first := drawOps(rt, c, cd, g, h.Int(rt, 2, 20, "first"))
			c.Op("commit; reopen; ----")
			type op struct {
				kind int
				k    []byte
				v    interface{}
			}
			var ops []op
			for i := h.Int(rt, 1, 8, "second"); i > 0; i-- {
				o := op{kind: h.Int(rt, 0, 2, "kind"), k: g.draw(rt)}
				if o.kind == 0 {
					o.v = cd.mk(o.k, drawContent(rt))
				}
				c.Op("%s %x", []string{"put", "delete", "get"}[o.kind], o.k)
				ops = append(ops, o)
			}
			sticky := h.Bool(rt, "sticky")
			reads := 0
			for fail := 1; ; fail++ {
				f := &faultDB{Database: db.NewMemDB()}
				tr, m := cd.openOn(f, nil), model{}
				if err := apply(tr, m, first); err != nil {
					rt.Fatalf("setup: %v", err)
				}
				root0, err := tr.CommitAndHash()
				if err != nil {
					rt.Fatalf("setup commit: %v", err)
				}
				m0 := m.clone()
				tr = cd.openOn(f, root0)
				f.arm(0, fail, sticky)
				crashed := false
				for _, o := range ops {
					before := f.fired
					p, _ := h.NoPanic(func() {
						want, exist := m[string(o.k)]
						switch o.kind {
						case 0:
							if tr.Put(o.k, o.v) {
								m[string(o.k)] = o.v
							} else if !f.fired {
								rt.Fatalf("Put(%x) reported no change without a fault", o.k)
							}
						case 1:
							changed, old := tr.Delete(o.k)
							if changed && !exist {
								rt.Fatalf("Delete(%x) of an absent key reported a change", o.k)
							}
							if changed {
								if old == nil || cd.str(old) != cd.str(want) {
									rt.Fatalf("Delete(%x) returned a wrong old value", o.k)
								}
								delete(m, string(o.k))
							} else if exist && !f.fired {
								rt.Fatalf("Delete(%x) reported no change without a fault", o.k)
							}
						case 2:
							v, ok := tr.Get(o.k)
							if ok && (!exist || cd.str(v) != cd.str(want)) {
								rt.Fatalf("Get(%x) made up a value under a read fault", o.k)
							}
							if !ok && exist && !f.fired {
								rt.Fatalf("Get(%x) lost the value without a fault", o.k)
							}
						}
					})
					if p != nil {
						if _, mine := p.(error); !mine || !errors.Is(p.(error), errInjected) {
							if !f.fired || (before && !sticky) {
								panic(p)
							}
						}
						crashed = true
						break
					}
				}
				fired := f.fired
				f.arm(0, 0, false)
				if !fired {
					break
				}
				reads++
				what := fmt.Sprintf("failing read %d", fail)
				checkOpened(rt, what+": committed root", cd, cd.openOn(f, root0), m0, g.used)
				if crashed {
					continue // the trie gave up on unreadable data: only the database counts
				}
				checkGets(rt, cd, tr, m, g.used, what+": afterwards")
				root, err := tr.CommitAndHash()
				if err != nil {
					rt.Fatalf("%s: Commit: %v", what, err)
				}
				if !bytes.Equal(root, refRoot(m, cd)) {
					rt.Fatalf("%s: root is not the canonical root of the operations that succeeded", what)
				}
				checkOpened(rt, what+": reopened", cd, cd.openOn(f, root), m, g.used)
			}
			c.NonTrivial(reads >= 3)
			c.Class(fmt.Sprintf("%d-%d reads failed in turn", reads/8*8, reads/8*8+7))
		})
}
