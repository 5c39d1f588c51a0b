package db_t

import (
	"fmt"
	"path/filepath"
	"testing"

	"github.com/ThinkiumGroup/go-common/db"
	"pgregory.net/rapid"

	"verifharness/h"
)

// D06: databases shared by goroutines behave as if operations ran one after another.
func TestD06_linear(t *testing.T) {
	h.Check(t, ">=2 goroutines writing the same key", h.N{Quick: 1600, Thorough: 40000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		kind := rapid.SampledFrom([]string{"mem", "temp", "cached", "cached", "ldb", "prefix", "temp-prefix"}).Draw(rt, "kind")
		if kind == "ldb" && !h.OneIn(rt, 3, "ldb") {
			kind = "mem"
		}
		var d db.Database
		base := db.NewMemDB()
		keys := []string{"a", "b", "c"}
		init := map[string]string{}
		switch kind {
		case "mem":
			d = base
		case "prefix":
			d = db.NewKeyPrefixedDataAdapter(base, []byte("p")).(db.Database)
		case "temp", "temp-prefix":
			u := base
			if kind == "temp-prefix" {
				u = db.NewKeyPrefixedDataAdapter(base, []byte("p")).(db.Database)
			}
			_ = u.Put([]byte("a"), []byte("under"))
			init["a"] = "under"
			d = db.Temporary(u)
		case "cached":
			d = openStored(rt, filepath.Join(dir, "x"), h.Int(rt, 1, 3, "cache"))
			defer func() { _ = d.Close() }()
		case "ldb":
			d = openStored(rt, filepath.Join(dir, "x"), 0)
			defer func() { _ = d.Close() }()
		}
		ng := h.Int(rt, 2, 4, "goroutines")
		c.Op("%s, %d goroutines", kind, ng)
		hs := &h.History{}
		var fns []func() error
		writers := map[string]map[int]bool{}
		for g := 0; g < ng; g++ {
			g := g
			var ops []h.KVIn
			for i := h.Int(rt, 2, 8, "ops"); i > 0; i-- {
				k := rapid.SampledFrom(keys).Draw(rt, "k")
				op := rapid.SampledFrom([]string{"get", "has", "put", "put", "del", "bput", "bdel"}).Draw(rt, "op")
				in := h.KVIn{Op: op, Key: k}
				if op == "put" || op == "bput" {
					in.Val = fmt.Sprintf("%d.%d", g, i)
				}
				if op != "get" && op != "has" {
					if writers[k] == nil {
						writers[k] = map[int]bool{}
					}
					writers[k][g] = true
				}
				c.Op("g%d %s %s %s", g, op, k, in.Val)
				ops = append(ops, in)
			}
			fns = append(fns, func() error {
				for _, in := range ops {
					in := in
					var err error
					kb := h.Roomy([]byte(in.Key))
					rec := in
					switch in.Op {
					case "has":
						rec.Op = "has"
					case "bput":
						rec.Op = "put"
					case "bdel":
						rec.Op = "del"
					}
					hs.Do(g, rec, func() h.KVOut {
						switch in.Op {
						case "put":
							err = d.Put(kb, []byte(in.Val))
							return h.KVOut{Any: true}
						case "del":
							err = d.Delete(kb)
							return h.KVOut{Any: true}
						case "bput":
							b := d.NewBatch()
							_ = b.Put(kb, []byte(in.Val))
							err = d.Batch(b)
							return h.KVOut{Any: true}
						case "bdel":
							b := d.NewBatch()
							_ = b.Delete(kb)
							err = d.Batch(b)
							return h.KVOut{Any: true}
						case "has":
							var ok bool
							ok, err = d.Has(kb)
							return h.KVOut{OK: ok}
						}
						var v []byte
						v, err = d.Get(kb)
						out := h.KVOut{Val: string(v), OK: v != nil}
						smash(v)
						return out
					})
					if err != nil {
						return err
					}
				}
				return nil
			})
		}
		for _, w := range writers {
			c.NonTrivial(len(w) >= 2)
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		for _, k := range keys {
			k := k
			hs.Do(ng, h.KVIn{Op: "get", Key: k}, func() h.KVOut {
				v, _ := d.Get([]byte(k))
				return h.KVOut{Val: string(v), OK: v != nil}
			})
		}
		if s := hs.Check(init); s != "" {
			rt.Fatalf("%s: %s", kind, s)
		}
		if kind == "temp" {
			if v, _ := base.Get([]byte("a")); string(v) != "under" {
				rt.Fatalf("a temporary database wrote through: %q", v)
			}
		}
	})
}

// D06: a batch of a stored or temporary database is seen whole or not at all.
func TestD06_atomic(t *testing.T) {
	h.Check(t, "always", h.N{Quick: 400, Thorough: 10000}, func(rt *rapid.T, c *h.C) {
		nk := h.Int(rt, 2, 5, "keys")
		rounds := h.Int(rt, 3, 20, "rounds")
		ng := h.Int(rt, 1, 3, "writers")
		c.Op("%d keys, %d rounds, %d writers", nk, rounds, ng)
		c.NonTrivial(true)
		d := db.Temporary(db.NewMemDB())
		var fns []func() error
		for g := 0; g < ng; g++ {
			g := g
			fns = append(fns, func() error {
				for r := 0; r < rounds; r++ {
					b := d.NewBatch()
					for k := 0; k < nk; k++ {
						_ = b.Put([]byte{byte(k)}, []byte(fmt.Sprintf("%d.%d", g, r)))
					}
					if err := d.Batch(b); err != nil {
						return err
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		first, _ := d.Get([]byte{0})
		for k := 1; k < nk; k++ {
			if v, _ := d.Get([]byte{byte(k)}); string(v) != string(first) {
				rt.Fatalf("batches were mixed: key 0 has %q, key %d has %q", first, k, v)
			}
		}
	})
}

// D06: replacing the store of a cached database happens at one moment for everybody.
func TestD06_replace(t *testing.T) {
	h.Check(t, "a write to a key which the new store also has", h.N{Quick: 400, Thorough: 10000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		keys := []string{"a", "b"}
		d := openStored(rt, filepath.Join(dir, "x"), h.Int(rt, 1, 3, "cache"))
		all := []db.Database{d}
		defer func() {
			for _, x := range all {
				_ = x.Close()
			}
		}()
		init := map[string]string{}
		for _, k := range keys {
			if h.Bool(rt, "init") {
				init[k] = "old"
				_ = d.Put([]byte(k), []byte("old"))
			}
		}
		hs := &h.History{}
		nr := h.Int(rt, 1, 2, "replaces")
		var news []db.Database
		var ins [][]h.KVIn
		inNew := map[string]bool{}
		for r := 0; r < nr; r++ {
			nd := openStored(rt, filepath.Join(dir, fmt.Sprint(r)), 0)
			all = append(all, nd)
			news = append(news, nd)
			var in []h.KVIn
			for _, k := range keys {
				if h.Bool(rt, "has") {
					v := fmt.Sprintf("new%d", r)
					_ = nd.Put([]byte(k), []byte(v))
					in = append(in, h.KVIn{Op: "put", Key: k, Val: v})
					inNew[k] = true
				} else {
					in = append(in, h.KVIn{Op: "del", Key: k})
				}
			}
			ins = append(ins, in)
			c.Op("new store %d: %v", r, in)
		}
		fns := []func() error{func() error {
			for r := range news {
				hs.DoAll(0, ins[r], func() { d.(db.Replaceable).Replace(filepath.Join(dir, fmt.Sprint(r)), news[r]) })
			}
			return nil
		}}
		for g := 1; g <= h.Int(rt, 1, 3, "goroutines"); g++ {
			g := g
			var ops []h.KVIn
			for i := h.Int(rt, 1, 7, "ops"); i > 0; i-- {
				in := h.KVIn{Op: rapid.SampledFrom([]string{"get", "get", "has", "put", "del", "bput"}).Draw(rt, "op"), Key: rapid.SampledFrom(keys).Draw(rt, "k")}
				if in.Op == "put" || in.Op == "bput" {
					in.Val = fmt.Sprintf("%d.%d", g, i)
					c.NonTrivial(inNew[in.Key])
				}
				c.Op("g%d %v", g, in)
				ops = append(ops, in)
			}
			fns = append(fns, func() error {
				for _, in := range ops {
					in, rec := in, in
					var err error
					if in.Op == "bput" {
						rec.Op = "put"
					}
					hs.Do(g, rec, func() h.KVOut {
						kb := []byte(in.Key)
						switch in.Op {
						case "put":
							err = d.Put(kb, []byte(in.Val))
							return h.KVOut{Any: true}
						case "del":
							err = d.Delete(kb)
							return h.KVOut{Any: true}
						case "bput":
							b := d.NewBatch()
							_ = b.Put(kb, []byte(in.Val))
							err = d.Batch(b)
							return h.KVOut{Any: true}
						case "has":
							var ok bool
							ok, err = d.Has(kb)
							return h.KVOut{OK: ok}
						}
						var v []byte
						v, err = d.Get(kb)
						return h.KVOut{Val: string(v), OK: v != nil}
					})
					if err != nil {
						return err
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		for _, k := range keys {
			k := k
			hs.Do(99, h.KVIn{Op: "get", Key: k}, func() h.KVOut {
				v, _ := d.Get([]byte(k))
				return h.KVOut{Val: string(v), OK: v != nil}
			})
		}
		if s := hs.Check(init); s != "" {
			rt.Fatalf("%s", s)
		}
	})
}
