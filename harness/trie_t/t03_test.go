package trie_t

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"
	"pgregory.net/rapid"

	"verifharness/h"
)

// drain reads an iterator to its end.
func drain(rt *rapid.T, c *codec, it trie.ValueIterator, max int) (keys []string, vals []string) {
	for it.Next() {
		k, v := it.Current()
		if v == nil {
			rt.Fatalf("iterator: nil value at key %x", k)
		}
		keys = append(keys, string(k))
		vals = append(vals, c.str(v))
		if len(keys) > max {
			rt.Fatalf("iterator yields more than %d values", max)
		}
	}
	if it.Next() {
		rt.Fatalf("iterator yields again after its end")
	}
	return
}

func checkSeq(rt *rapid.T, what string, c *codec, m model, keys, vals []string, reversed bool) {
	want := m.keys()
	if reversed {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	if len(keys) != len(want) {
		rt.Fatalf("%s: %d values visited, the trie holds %d\n got %x\nwant %x", what, len(keys), len(want), keys, want)
	}
	for i := range want {
		if keys[i] != want[i] {
			rt.Fatalf("%s: key %d is %x, want %x\n got %x\nwant %x", what, i, keys[i], want[i], keys, want)
		}
		if vals[i] != c.str(m[want[i]]) {
			rt.Fatalf("%s: value of key %x is wrong", what, keys[i])
		}
	}
}

func TestT03_iterate(t *testing.T) {
	h.Check(t, "the trie holds >=3 values when it is iterated", h.N{Quick: 25000, Thorough: 800000},
		func(rt *rapid.T, c *h.C) {
			w := newWorld(rt, c, true)
			n := h.Int(rt, 0, 40, "ops")
			for i := 0; i < n; i++ {
				w.step(rt, c)
			}
			before := refRoot(w.m, w.c)
			snap := w.m.clone()
			max := len(snap)
			keys, vals := drain(rt, w.c, w.t.ValueIterator(), max)
			checkSeq(rt, "ValueIterator", w.c, snap, keys, vals, false)
			keys, vals = drain(rt, w.c, w.t.ReversedValueIterator(), max)
			checkSeq(rt, "ReversedValueIterator", w.c, snap, keys, vals, true)

			stop := h.Int(rt, 0, max+1, "stop")
			keys, vals = nil, nil
			calls := 0
			w.t.IterateAll(h.Bool(rt, "noNil"), func(k []byte, v interface{}) bool {
				calls++
				keys = append(keys, string(k))
				vals = append(vals, w.c.str(v))
				return calls != stop
			})
			want := max
			if stop > 0 && stop < max {
				want = stop
			}
			if calls != want {
				rt.Fatalf("IterateAll stopped at %d made %d calls over %d values", stop, calls, max)
			}
			if want == max {
				checkSeq(rt, "IterateAll", w.c, snap, keys, vals, false)
			}

			// an iterator walks the contents of the moment it was made
			it, rit := w.t.ValueIterator(), w.t.ReversedValueIterator()
			var ks, vs, rks, rvs []string
			for k := h.Int(rt, 0, max, "stepsBefore"); k > 0; k-- {
				if it.Next() {
					a, b := it.Current()
					ks, vs = append(ks, string(a)), append(vs, w.c.str(b))
				}
			}
			for i := h.Int(rt, 0, 6, "opsDuring"); i > 0; i-- {
				w.step(rt, c)
			}
			k2, v2 := drain(rt, w.c, it, max)
			checkSeq(rt, "ValueIterator across changes", w.c, snap, append(ks, k2...), append(vs, v2...), false)
			rks, rvs = drain(rt, w.c, rit, max)
			checkSeq(rt, "ReversedValueIterator across changes", w.c, snap, rks, rvs, true)

			w.check(rt, "after iterating")
			if w.m.equal(snap, w.c) && !bytes.Equal(mustRoot(rt, w.t.HashValue), before) {
				rt.Fatalf("iterating changed the root")
			}
			c.NonTrivial(max >= 3)
			classes(c, w)
		})
}

// ---- T04: commits are durable --------------------------------------------------------------

func checkOpened(rt *rapid.T, what string, c *codec, t *trie.Trie, m model, pool [][]byte) {
	checkGets(rt, c, t, m, pool, what)
	keys, vals := drain(rt, c, t.ValueIterator(), len(m))
	checkSeq(rt, what, c, m, keys, vals, false)
}

func TestT04_durable(t *testing.T) {
	h.Check(t, "at least two committed roots with different contents, and changes after the last commit",
		h.N{Quick: 20000, Thorough: 600000}, func(rt *rapid.T, c *h.C) {
			w := newWorld(rt, c, true)
			type ver struct {
				root []byte
				m    model
			}
			var vers []ver
			n := h.Int(rt, 2, 40, "ops")
			for i := 0; i < n; i++ {
				if h.OneIn(rt, 5, "version") {
					pre := mustRoot(rt, w.t.HashValue)
					root := w.commit(rt, c)
					if !bytes.Equal(pre, root) {
						rt.Fatalf("Commit changed the root from %x to %x", pre, root)
					}
					vers = append(vers, ver{root, w.m.clone()})
				} else {
					w.step(rt, c)
				}
			}
			distinct := map[string]bool{}
			for i, v := range vers {
				distinct[string(v.root)] = true
				var o *trie.Trie
				if h.Bool(rt, "inherit") {
					o = w.t.Inherit(v.root)
				} else {
					o = w.c.openOn(w.d, v.root)
				}
				checkOpened(rt, fmt.Sprintf("version %d", i), w.c, o, v.m, w.g.used)
				if !bytes.Equal(mustRoot(rt, o.HashValue), v.root) {
					rt.Fatalf("version %d reopened has another root", i)
				}
			}
			// versions stay writable from any old root
			if len(vers) > 0 {
				v := vers[h.Int(rt, 0, len(vers)-1, "fork")]
				f := &world{c: w.c, g: w.g, d: w.d, t: w.c.openOn(w.d, v.root), m: v.m.clone()}
				c.Op("fork from an old root")
				for i := h.Int(rt, 1, 6, "forkOps"); i > 0; i-- {
					f.step(rt, c)
				}
				root := f.commit(rt, c)
				checkOpened(rt, "fork", w.c, w.c.openOn(w.d, root), f.m, w.g.used)
				if !bytes.Equal(root, refRoot(f.m, w.c)) {
					rt.Fatalf("fork root is not the canonical root of its contents")
				}
				for i, v := range vers {
					checkOpened(rt, fmt.Sprintf("version %d after the fork", i), w.c, w.c.openOn(w.d, v.root), v.m, nil)
				}
			}
			w.check(rt, "live trie at the end")
			c.NonTrivial(len(distinct) >= 2 && w.dirty)
			classes(c, w)
		})
}

// ---- T08: transfer -------------------------------------------------------------------------

func TestT08_dump(t *testing.T) {
	h.Check(t, "the transferred trie holds >=3 values", h.N{Quick: 20000, Thorough: 500000}, func(rt *rapid.T, c *h.C) {
		w := newWorld(rt, c, true)
		for i := h.Int(rt, 0, 35, "ops"); i > 0; i-- {
			w.step(rt, c)
		}
		if h.Bool(rt, "emptyKey") {
			// the empty key is a key too
			v := w.c.mk(nil, []byte("root value"))
			w.t.Put(nil, v)
			w.m[""] = v
			c.Op("put <empty key>")
		}
		to := db.NewMemDB()
		if w.t.IsDirty() && !w.t.IsEmpty() {
			if err := w.t.Dump(to, nil); err == nil {
				rt.Fatalf("Dump of a dirty trie did not fail")
			}
			to = db.NewMemDB()
		}
		root := w.commit(rt, c)
		if h.Bool(rt, "reopen") {
			w.t = w.c.openOn(w.d, root)
			w.fresh = false
		} else if h.Bool(rt, "collapse") {
			_ = w.t.Collapse()
		}
		c.Op("dump")
		seen := map[string]string{}
		na, va := adapters(to)
		err := w.t.Dump(to, func(key, value []byte) {
			if _, dup := seen[string(key)]; dup {
				rt.Fatalf("Dump reports key %x twice", key)
			}
			seen[string(key)] = string(value)
		})
		if err != nil {
			rt.Fatalf("Dump: %v", err)
		}
		o := w.c.open(root, na, va)
		checkOpened(rt, "dumped copy", w.c, o, w.m, w.g.used)
		if len(seen) != len(w.m) {
			rt.Fatalf("Dump reported %d of %d values", len(seen), len(w.m))
		}
		for k, v := range w.m {
			got, ok := seen[k]
			if !ok {
				rt.Fatalf("Dump did not report key %x", k)
			}
			if got != string(w.c.enc(v)) {
				rt.Fatalf("Dump reported %x for key %x, not %x", short([]byte(got)), k, short(w.c.enc(v)))
			}
		}
		w.check(rt, "source after Dump")
		// the dumped database is enough for a rebased trie, also after more changes
		rb, err := w.t.Rebase(to)
		if err != nil {
			rt.Fatalf("Rebase: %v", err)
		}
		checkOpened(rt, "rebased", w.c, rb, w.m, w.g.used)
		f := &world{c: w.c, g: w.g, d: to, t: rb, m: w.m.clone()}
		for i := h.Int(rt, 0, 6, "rebasedOps"); i > 0; i-- {
			f.step(rt, c)
		}
		f.check(rt, "rebased after changes")
		w.check(rt, "source after changes of the rebased trie")
		f.commit(rt, c)
		if !bytes.Equal(mustRoot(rt, w.c.openOn(w.d, root).HashValue), root) {
			rt.Fatalf("source root lost")
		}
		checkOpened(rt, "source reopened", w.c, w.c.openOn(w.d, root), w.m, nil)
		c.NonTrivial(len(w.m) >= 3)
		classes(c, w)
	})
}

func TestT08_marshal(t *testing.T) {
	h.Check(t, "the transferred trie holds >=3 values", h.N{Quick: 12000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		w := &world{c: rtlCodec, g: drawKeyGen(rt, true), d: db.NewMemDB(), m: model{}, fresh: true}
		w.t = w.c.openOn(w.d, nil)
		for i := h.Int(rt, 0, 35, "ops"); i > 0; i-- {
			w.step(rt, c)
		}
		buf := new(bytes.Buffer)
		if err := w.t.Marshal(buf); err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		o, err := w.t.UnmarshalNewTrie(bytes.NewReader(buf.Bytes()), reflect.TypeOf((*Val)(nil)),
			func(v interface{}) []byte { return v.(*Val).K })
		if err != nil {
			rt.Fatalf("UnmarshalNewTrie: %v", err)
		}
		checkOpened(rt, "unmarshalled", w.c, o, w.m, w.g.used)
		if !bytes.Equal(mustRoot(rt, o.HashValue), refRoot(w.m, w.c)) {
			rt.Fatalf("unmarshalled trie has another root")
		}
		// a part of it is the trie of the first values, or an error if it ends inside of one
		keyOf := func(v interface{}) []byte { return v.(*Val).K }
		ends := map[int]int{0: 0}
		at, keys := 0, w.m.keys()
		for i, k := range keys {
			bs, err := rtl.Marshal(w.m[k])
			if err != nil {
				rt.Fatalf("%v", err)
			}
			at += len(bs)
			ends[at] = i + 1
		}
		if at != buf.Len() {
			rt.Fatalf("the marshalled trie has %d bytes, its values %d", buf.Len(), at)
		}
		for i := 0; i < 3 && buf.Len() > 0; i++ {
			cut := h.Int(rt, 0, buf.Len()-1, "cut")
			n, whole := ends[cut]
			o, err := w.t.UnmarshalNewTrie(bytes.NewReader(buf.Bytes()[:cut]), reflect.TypeOf((*Val)(nil)), keyOf)
			if !whole {
				if err == nil {
					rt.Fatalf("UnmarshalNewTrie of %d of %d bytes, which end inside of a value, gave a trie of %d values", cut, buf.Len(), o.Count())
				}
				continue
			}
			if err != nil {
				rt.Fatalf("UnmarshalNewTrie of the first %d values: %v", n, err)
			}
			m := model{}
			for _, k := range keys[:n] {
				m[k] = w.m[k]
			}
			checkOpened(rt, "unmarshalled part", w.c, o, m, w.g.used)
		}
		// as a map: key, value, key, value ... in key order
		buf.Reset()
		if err := trie.MarshalAsMap(w.t, buf); err != nil {
			rt.Fatalf("MarshalAsMap: %v", err)
		}
		vr := rtl.NewValueReader(bytes.NewReader(buf.Bytes()), 0)
		for _, k := range w.m.keys() {
			var kk []byte
			v := new(Val)
			if err := rtl.Decode(vr, &kk); err != nil {
				rt.Fatalf("MarshalAsMap stream: %v", err)
			}
			if err := rtl.Decode(vr, v); err != nil {
				rt.Fatalf("MarshalAsMap stream: %v", err)
			}
			if string(kk) != k || w.c.str(v) != w.c.str(w.m[k]) {
				rt.Fatalf("MarshalAsMap stream: entry %x where %x was expected", kk, k)
			}
		}
		var extra []byte
		if rtl.Decode(vr, &extra) == nil {
			rt.Fatalf("MarshalAsMap stream is too long")
		}
		w.check(rt, "after Marshal")
		c.NonTrivial(len(w.m) >= 3)
		classes(c, w)
	})
}

// ---- T09: copies are isolated --------------------------------------------------------------

func TestT09_isolation(t *testing.T) {
	h.Check(t, "two copies of one trie were both changed afterwards", h.N{Quick: 20000, Thorough: 600000},
		func(rt *rapid.T, c *h.C) {
			ws := []*world{newWorld(rt, c, true)}
			changed := map[int]bool{}
			n := h.Int(rt, 5, 50, "ops")
			for i := 0; i < n; i++ {
				j := h.Int(rt, 0, len(ws)-1, "which")
				w := ws[j]
				if len(ws) < 4 && h.OneIn(rt, 6, "copy") {
					nw := &world{c: w.c, g: w.g, d: w.d, m: w.m.clone()}
					switch h.Int(rt, 0, 2, "how") {
					case 0:
						c.Op("#%d=clone(#%d)", len(ws), j)
						nw.t = w.t.Clone()
					case 1:
						root := w.commit(rt, c)
						c.Op("#%d=inherit(#%d)", len(ws), j)
						nw.t = w.t.Inherit(root)
						for b := range root {
							root[b] = 0xee // the trie must not keep the caller's slice
						}
					case 2:
						c.Op("#%d=rebase(#%d)", len(ws), j)
						r, err := w.t.Rebase(w.d)
						if err != nil {
							rt.Fatalf("Rebase: %v", err)
						}
						nw.t = r
					}
					ws = append(ws, nw)
					continue
				}
				c.Op("#%d:", j)
				p, d := w.puts, w.hits
				w.step(rt, c)
				if len(ws) > 1 && (w.puts > p || w.hits > d) {
					changed[j] = true
				}
			}
			for j, w := range ws {
				w.check(rt, fmt.Sprintf("trie #%d", j))
				if got, want := mustRoot(rt, w.t.HashValue), refRoot(w.m, w.c); !bytes.Equal(got, want) {
					rt.Fatalf("trie #%d: root %x, its contents have root %x", j, got, want)
				}
			}
			c.NonTrivial(len(changed) >= 2)
			c.Class(fmt.Sprintf("%d tries", len(ws)))
		})
}
