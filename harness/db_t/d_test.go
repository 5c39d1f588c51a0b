package db_t

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// ---- the model: a store is a map, a layer is a view ---------------------------------------

type model interface {
	get(k string) (string, bool)
	put(k, v string) bool // false: refused
	del(k string) bool
	readonly() bool
}

type mBase struct{ m map[string]string }

func (b *mBase) get(k string) (string, bool) { v, ok := b.m[k]; return v, ok }
func (b *mBase) put(k, v string) bool        { b.m[k] = v; return true }
func (b *mBase) del(k string) bool           { delete(b.m, k); return true }
func (b *mBase) readonly() bool              { return false }

type mPrefix struct {
	u model
	p string
}

func (b *mPrefix) get(k string) (string, bool) { return b.u.get(b.p + k) }
func (b *mPrefix) put(k, v string) bool        { return b.u.put(b.p+k, v) }
func (b *mPrefix) del(k string) bool           { return b.u.del(b.p + k) }
func (b *mPrefix) readonly() bool              { return b.u.readonly() }

type mRO struct{ u model }

func (b *mRO) get(k string) (string, bool) { return b.u.get(k) }
func (b *mRO) put(k, v string) bool        { return false }
func (b *mRO) del(k string) bool           { return false }
func (b *mRO) readonly() bool              { return true }

type mTemp struct {
	u    model
	over map[string]*string
}

func (b *mTemp) get(k string) (string, bool) {
	if v, ok := b.over[k]; ok {
		if v == nil {
			return "", false
		}
		return *v, true
	}
	return b.u.get(k)
}
func (b *mTemp) put(k, v string) bool { b.over[k] = &v; return true }
func (b *mTemp) del(k string) bool    { b.over[k] = nil; return true }
func (b *mTemp) readonly() bool       { return false }

type layer struct {
	name string
	d    db.Database
	m    model
}

type pending struct {
	l   int
	b   db.Batch
	cmd [][3]string
	big int
}

// scratch makes a directory of the case and returns its remover.
func scratch(rt *rapid.T) (string, func()) {
	dir, err := os.MkdirTemp("", "db")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR %v", err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// keys of more than 32 and more than 256 bytes, the second a continuation of the first
var longKeys = []string{strings.Repeat("q", 40), strings.Repeat("q", 300)}

func drawKey(rt *rapid.T) string {
	return rapid.SampledFrom([]string{"", "a", "b", "ab", "p", "pa", "pb", "pp", "q", "qa", "\x00", "\xff", "pqa", "not found", longKeys[0], longKeys[1]}).Draw(rt, "key")
}

func drawVal(rt *rapid.T) string {
	return rapid.SampledFrom([]string{"", "1", "2", "\x00", "a value", strings.Repeat("x", 100), strings.Repeat("y", 5000)}).Draw(rt, "val")
}

// drawStack makes a store and up to three layers on it.
func drawStack(rt *rapid.T, c *h.C, dir string, kinds []string, layers []string, max int) []layer {
	var st []layer
	base := &mBase{m: map[string]string{}}
	switch kind := rapid.SampledFrom(kinds).Draw(rt, "base"); kind {
	case "mem":
		st = append(st, layer{"mem", db.NewMemDB(), base})
	case "ldb":
		l, err := db.NewLDB(filepath.Join(dir, "base"))
		if err != nil {
			rt.Fatalf("NewLDB: %v", err)
		}
		st = append(st, layer{"ldb", l, base})
	case "cached":
		size := h.Int(rt, 0, 4, "cachesize")
		l, err := db.NewCachedDBWithPath(filepath.Join(dir, "base"), size)
		if err != nil {
			rt.Fatalf("NewCachedDBWithPath: %v", err)
		}
		st = append(st, layer{fmt.Sprintf("cached%d", size), l, base})
	}
	for n := h.Int(rt, 0, max, "layers"); n > 0; n-- {
		top := st[len(st)-1]
		switch kind := rapid.SampledFrom(layers).Draw(rt, "layer"); kind {
		case "prefix":
			p := rapid.SampledFrom([]string{"", "p", "q", "pq", "\x00", longKeys[0]}).Draw(rt, "prefix")
			pb := h.Roomy([]byte(p))
			a := db.NewKeyPrefixedDataAdapter(top.d.(db.Database), pb)
			for i := range pb {
				pb[i] = 'Z'
			}
			st = append(st, layer{"prefix(" + p + ")", a.(db.Database), &mPrefix{top.m, p}})
		case "readonly":
			r := db.ReadOnly(top.d)
			if _, ok := top.m.(*mRO); ok {
				if r != top.d {
					rt.Fatalf("ReadOnly of a read only database is another one")
				}
				continue
			}
			st = append(st, layer{"readonly", r, &mRO{top.m}})
		case "temporary":
			r := db.Temporary(top.d)
			if _, ok := top.m.(*mTemp); ok {
				if r != top.d {
					rt.Fatalf("Temporary of a temporary database is another one")
				}
				continue
			}
			st = append(st, layer{"temporary", r, &mTemp{top.m, map[string]*string{}}})
		}
	}
	var names []string
	for _, l := range st {
		names = append(names, l.name)
	}
	c.Op("stack %s", strings.Join(names, " < "))
	return st
}

func checkGet(rt *rapid.T, l layer, k string) {
	kb := h.Roomy([]byte(k))
	want, ok := l.m.get(k)
	has, err := l.d.Has(kb)
	if err != nil || has != ok {
		rt.Fatalf("%s: Has(%q)=%t,%v; want %t", l.name, k, has, err, ok)
	}
	v, err := l.d.Get(kb)
	if err != nil {
		rt.Fatalf("%s: Get(%q): %v", l.name, k, err)
	}
	if (v != nil) != ok || string(v) != want {
		rt.Fatalf("%s: Get(%q)=%q (nil: %t); want %q,%t", l.name, k, v, v == nil, want, ok)
	}
	for i := range v {
		v[i] ^= 0x55 // what is handed out belongs to the caller
	}
	v2, err := l.d.Get(kb)
	if err != nil || string(v2) != want {
		rt.Fatalf("%s: Get(%q)=%q (%v) after the slice handed out before was written to; want %q", l.name, k, v2, err, want)
	}
	g, err := db.GetNilError(l.d, kb)
	if want == "" {
		if !errors.Is(err, db.ErrNotFound) {
			rt.Fatalf("%s: GetNilError(%q)=%q,%v", l.name, k, g, err)
		}
	} else if err != nil || string(g) != want {
		rt.Fatalf("%s: GetNilError(%q)=%q,%v", l.name, k, g, err)
	}
}

func smash(b []byte) {
	for i := range b {
		b[i] ^= 0xaa
	}
}

var keysAll = []string{"", "a", "b", "ab", "p", "pa", "pb", "pp", "q", "qa", "\x00", "\xff", "pqa", "not found", "ppa", "qqa", "pqqa", "\x00a", longKeys[0], longKeys[1], longKeys[0] + "a", longKeys[0][1:], longKeys[1][1:]}

// drive runs n operations on any layer of the stack and compares every layer with the model.
func drive(rt *rapid.T, c *h.C, st []layer, n int) (writes, batches int) {
	var pend []*pending
	for i := 0; i < n; i++ {
		li := h.Int(rt, 0, len(st)-1, "layer")
		if h.Bool(rt, "top") {
			li = len(st) - 1
		}
		l := st[li]
		k := drawKey(rt)
		switch op := h.Int(rt, 0, 8, "op"); op {
		case 0, 1, 2:
			v := drawVal(rt)
			c.Op("%d.put(%q,%q)", li, k, v)
			kb, vb := h.Roomy([]byte(k)), h.Roomy([]byte(v))
			err := l.d.Put(kb, vb)
			smash(kb)
			smash(vb)
			if l.m.put(k, v) {
				if err != nil {
					rt.Fatalf("%s: Put: %v", l.name, err)
				}
				writes++
			} else if !errors.Is(err, db.ErrReadOnly) {
				rt.Fatalf("%s: Put on a read only database: %v", l.name, err)
			}
		case 3:
			c.Op("%d.del(%q)", li, k)
			kb := h.Roomy([]byte(k))
			err := l.d.Delete(kb)
			smash(kb)
			if l.m.del(k) {
				if err != nil {
					rt.Fatalf("%s: Delete: %v", l.name, err)
				}
				writes++
			} else if !errors.Is(err, db.ErrReadOnly) {
				rt.Fatalf("%s: Delete on a read only database: %v", l.name, err)
			}
		case 4:
			checkGet(rt, l, k)
		case 5:
			if l.m.readonly() {
				if b := l.d.NewBatch(); b.Put([]byte("k"), []byte("v")) == nil && l.d.Batch(b) == nil {
					rt.Fatalf("%s: a batch was written to a read only database", l.name)
				}
				continue
			}
			c.Op("%d.newbatch", li)
			pend = append(pend, &pending{l: li, b: l.d.NewBatch()})
		case 6, 7:
			if len(pend) == 0 {
				continue
			}
			p := pend[h.Int(rt, 0, len(pend)-1, "batch")]
			for j := h.Int(rt, 1, 4, "nops"); j > 0; j-- {
				kb := h.Roomy([]byte(drawKey(rt)))
				if h.OneIn(rt, 3, "bdel") {
					p.cmd = append(p.cmd, [3]string{"d", string(kb), ""})
					if err := p.b.Delete(kb); err != nil {
						rt.Fatalf("batch delete: %v", err)
					}
				} else {
					vb := h.Roomy([]byte(drawVal(rt)))
					p.cmd = append(p.cmd, [3]string{"p", string(kb), string(vb)})
					if err := p.b.Put(kb, vb); err != nil {
						rt.Fatalf("batch put: %v", err)
					}
					smash(vb)
				}
				smash(kb)
			}
			c.Op("batch of %d now %q", p.l, p.cmd)
			if p.b.Size() != len(p.cmd) {
				rt.Fatalf("%s: a batch of %d operations has Size %d", st[p.l].name, len(p.cmd), p.b.Size())
			}
		case 8:
			if len(pend) == 0 {
				continue
			}
			j := h.Int(rt, 0, len(pend)-1, "apply")
			p := pend[j]
			c.Op("%d.batch %q", p.l, p.cmd)
			if err := st[p.l].d.Batch(p.b); err != nil {
				rt.Fatalf("%s: Batch: %v", st[p.l].name, err)
			}
			for _, x := range p.cmd {
				if x[0] == "p" {
					st[p.l].m.put(x[1], x[2])
				} else {
					st[p.l].m.del(x[1])
				}
			}
			if len(p.cmd) > 1 {
				batches++
				writes++
			}
			if h.Bool(rt, "drop") {
				pend = append(pend[:j], pend[j+1:]...)
			}
		}
		if h.OneIn(rt, 4, "look") {
			checkGet(rt, st[len(st)-1], drawKey(rt))
		}
	}
	for _, l := range st {
		for _, k := range keysAll {
			checkGet(rt, l, k)
		}
	}
	return
}

func closeBase(st []layer) { _ = st[0].d.Close() }

// D01: every database is a map.
func TestD01_mem(t *testing.T) {
	h.Check(t, ">=3 writes", h.N{Quick: 8000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		st := drawStack(rt, c, "", []string{"mem"}, []string{"prefix"}, 0)
		w, _ := drive(rt, c, st, h.Int(rt, 1, 40, "n"))
		c.NonTrivial(w >= 3)
		if err := st[0].d.Put([]byte("k"), nil); !errors.Is(err, common.ErrNil) {
			rt.Fatalf("Put of nil: %v", err)
		}
		if has, _ := st[0].d.Has([]byte("k")); has {
			rt.Fatalf("a refused Put was stored")
		}
	})
}

func TestD01_ldb(t *testing.T) {
	h.Check(t, ">=3 writes", h.N{Quick: 1200, Thorough: 20000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		st := drawStack(rt, c, dir, []string{"ldb", "cached", "cached"}, []string{"prefix"}, 0)
		defer closeBase(st)
		w, _ := drive(rt, c, st, h.Int(rt, 1, 60, "n"))
		c.NonTrivial(w >= 3)
	})
}

// D02: overlays and read-only views.
func TestD02_layers(t *testing.T) {
	h.Check(t, ">=3 writes through a temporary or read-only view", h.N{Quick: 8000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		st := drawStack(rt, c, "", []string{"mem"}, []string{"temporary", "readonly", "temporary", "prefix"}, 4)
		w, _ := drive(rt, c, st, h.Int(rt, 1, 40, "n"))
		c.NonTrivial(w >= 3 && len(st) >= 2)
		// closing a view leaves what is below it open
		for i := len(st) - 1; i > 0; i-- {
			err := st[i].d.Close()
			if _, ro := st[i].m.(*mRO); ro && !errors.Is(err, db.ErrReadOnly) {
				rt.Fatalf("Close of a read only view: %v", err)
			}
		}
		for _, k := range keysAll {
			checkGet(rt, st[0], k)
		}
	})
}

func TestD02_ldblayers(t *testing.T) {
	h.Check(t, ">=3 writes through a temporary or read-only view of a stored database", h.N{Quick: 800, Thorough: 15000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		st := drawStack(rt, c, dir, []string{"ldb", "cached"}, []string{"temporary", "readonly", "prefix"}, 3)
		defer closeBase(st)
		w, _ := drive(rt, c, st, h.Int(rt, 1, 40, "n"))
		c.NonTrivial(w >= 3 && len(st) >= 2)
		for i := len(st) - 1; i > 0; i-- {
			_ = st[i].d.Close()
		}
		for _, k := range keysAll {
			checkGet(rt, st[0], k)
		}
	})
}

// recorder is a Database which records what reaches it.
type recorder struct {
	db.Database
	ops []string
}

func (r *recorder) Put(k, v []byte) error {
	r.ops = append(r.ops, fmt.Sprintf("put %q %q", k, v))
	return r.Database.Put(k, v)
}
func (r *recorder) Get(k []byte) ([]byte, error) {
	r.ops = append(r.ops, fmt.Sprintf("get %q", k))
	return r.Database.Get(k)
}
func (r *recorder) Has(k []byte) (bool, error) {
	r.ops = append(r.ops, fmt.Sprintf("has %q", k))
	return r.Database.Has(k)
}
func (r *recorder) Delete(k []byte) error {
	r.ops = append(r.ops, fmt.Sprintf("del %q", k))
	return r.Database.Delete(k)
}

// D03: a prefixed database is the part of its database under the prefix.
func TestD03_prefix(t *testing.T) {
	h.Check(t, ">=3 writes through a prefix", h.N{Quick: 8000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		st := drawStack(rt, c, "", []string{"mem"}, []string{"prefix", "prefix", "temporary"}, 4)
		w, _ := drive(rt, c, st, h.Int(rt, 1, 40, "n"))
		c.NonTrivial(w >= 3 && len(st) >= 2)
	})
}

func TestD03_ldbprefix(t *testing.T) {
	h.Check(t, ">=3 writes through a prefix", h.N{Quick: 800, Thorough: 15000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		st := drawStack(rt, c, dir, []string{"ldb", "cached"}, []string{"prefix"}, 3)
		defer closeBase(st)
		w, _ := drive(rt, c, st, h.Int(rt, 1, 40, "n"))
		c.NonTrivial(w >= 3 && len(st) >= 2)
	})
}

// D03: adapters: load and save, clone, rebase, keys.
func TestD03_adapter(t *testing.T) {
	h.Check(t, "a prefix and a key which are both not empty", h.N{Quick: 8000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		p, p2, k := h.Roomy(h.Bytes(rt, 0, 4, "p")), h.Roomy(h.Bytes(rt, 0, 4, "p2")), h.Roomy(h.Bytes(rt, 0, 6, "k"))
		v := h.Roomy(h.Bytes(rt, 0, 8, "v"))
		c.Op("prefix %x %x key %x value %x", p, p2, k, v)
		c.NonTrivial(len(p) > 0 && len(k) > 0)
		keep := func(b []byte) []byte { return append([]byte{}, b...) }
		want := append(keep(p), k...)
		pk := db.PrefixKey(p, k)
		if !bytes.Equal(pk, want) {
			rt.Fatalf("PrefixKey=%x, want %x", pk, want)
		}
		if !bytes.Equal(db.PrefixKey2(p, p2, k), append(append(keep(p), p2...), k...)) {
			rt.Fatalf("PrefixKey2=%x", db.PrefixKey2(p, p2, k))
		}
		smash(pk)
		if !bytes.Equal(db.PrefixKey(p, k), want) {
			rt.Fatalf("PrefixKey shares memory with its arguments")
		}
		d1, d2 := db.NewMemDB(), db.NewMemDB()
		// the adapter may be over another one: its prefix is its own
		under := h.Bytes(rt, 0, 3, "under")
		nested := h.Bool(rt, "nested")
		a := db.NewKeyPrefixedDataAdapter(d1, p)
		if nested {
			a = db.NewKeyPrefixedDataAdapter(db.NewKeyPrefixedDataAdapter(d1, h.Roomy(under)).(db.Database), p)
			c.Op("over prefix %x", under)
		}
		cl := a.Clone()
		which := h.Int(rt, 0, 3, "which")
		dst, other := d1, d2
		var ad db.DataAdapter = a
		switch which {
		case 1:
			ad = cl
		case 2:
			r, err := a.Rebase(d2)
			if err != nil {
				rt.Fatalf("Rebase: %v", err)
			}
			ad, dst, other = r, d2, d1
		case 3:
			r, err := db.RebaseAdapter(cl, d2)
			if err != nil {
				rt.Fatalf("RebaseAdapter: %v", err)
			}
			ad, dst, other = r, d2, d1
		}
		if nested && which < 2 {
			want = append(keep(under), want...)
		}
		if err := ad.Save(k, v); err != nil {
			rt.Fatalf("Save: %v", err)
		}
		got, err := ad.Load(k)
		if err != nil || !bytes.Equal(got, v) || got == nil {
			rt.Fatalf("Load=%x,%v after Save(%x)", got, err, v)
		}
		got, err = dst.Get(want)
		if err != nil || got == nil || !bytes.Equal(got, v) {
			rt.Fatalf("the database has %x,%v under the prefixed key", got, err)
		}
		if has, _ := other.Has(want); has {
			rt.Fatalf("saved to the wrong database")
		}
		kk := h.Roomy(h.Bytes(rt, 0, 10, "otherkey"))
		has, _ := dst.Has(kk)
		if has != bytes.Equal(kk, want) {
			rt.Fatalf("the database has %x: %t", kk, has)
		}
		// the transparent adapter loads the key itself
		ta := db.NewTransparentDataAdapter()
		if err := ta.Save(k, v); err != nil {
			rt.Fatalf("%v", err)
		}
		if r, err := ta.Clone().Load(k); err != nil || !bytes.Equal(r, k) {
			rt.Fatalf("transparent Load(%x)=%x,%v", k, r, err)
		}
		if r, err := db.RebaseAdapter(ta, d2); err != nil || r != ta {
			rt.Fatalf("rebase of a transparent adapter: %v %v", r, err)
		}
		if r, err := db.RebaseAdapter(nil, d2); err != nil || r != nil {
			rt.Fatalf("rebase of nil: %v %v", r, err)
		}
	})
}

// failing refuses the n-th batch.
type failing struct {
	db.Database
	n     int
	sizes []int
}

var errInjected = errors.New("injected")

func (f *failing) Batch(b db.Batch) error {
	f.n--
	if f.n == 0 {
		return errInjected
	}
	f.sizes = append(f.sizes, b.Size())
	return f.Database.Batch(b)
}

// D04: BatchWrite writes every item the caller did not skip, and counts what is written.
func TestD04_batchwrite(t *testing.T) {
	h.Check(t, ">=2 batches, with skipped items", h.N{Quick: 10000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		length := h.Len(rt, 20, "length")
		threshold := h.Int(rt, 1, 8, "threshold")
		if h.OneIn(rt, 20, "bigThreshold") {
			threshold = rapid.SampledFrom([]int{16, 100, 255, 256, 257, 1000}).Draw(rt, "threshold")
		}
		skip := make([]bool, length)
		nskip := 0
		for i := range skip {
			skip[i] = h.OneIn(rt, 3, "skip")
			if skip[i] {
				nskip++
			}
		}
		errAt := -1
		if length > 0 && h.OneIn(rt, 4, "err") {
			errAt = h.Int(rt, 0, length-1, "errAt")
		}
		failBatch := 0
		if h.OneIn(rt, 4, "fail") {
			failBatch = h.Int(rt, 1, 4, "failBatch")
		}
		c.Op("length %d threshold %d skip %v error at %d, batch %d fails", length, threshold, skip, errAt, failBatch)
		under := db.NewMemDB()
		f := &failing{Database: under, n: failBatch}
		// model: what is written, and the count, batch by batch
		wantCount, inBatch, nb := 0, 0, 0
		var wantErr error
		written := map[string]bool{}
		var cur []string
		flush := func() bool {
			nb++
			if nb == failBatch {
				wantErr = errInjected
				return false
			}
			wantCount += inBatch
			for _, k := range cur {
				written[k] = true
			}
			inBatch, cur = 0, nil
			return true
		}
		calls := length
		for i := 0; i < length; i++ {
			if i == errAt {
				wantErr = errors.New("item")
				calls = i + 1
				break
			}
			if skip[i] {
				continue
			}
			inBatch++
			cur = append(cur, fmt.Sprint(i))
			if inBatch == threshold && !flush() {
				calls = i + 1
				break
			}
		}
		if wantErr == nil && inBatch > 0 {
			flush()
		}
		c.NonTrivial(nb >= 2 && nskip > 0)
		var seen []int
		count, err := db.BatchWrite(f, threshold, length, func(j int, w db.Writer) (bool, error) {
			seen = append(seen, j)
			if j == errAt {
				return false, errors.New("item")
			}
			if skip[j] {
				return false, nil
			}
			return true, w.Put([]byte(fmt.Sprint(j)), []byte{byte(j)})
		})
		if (err == nil) != (wantErr == nil) || (err != nil && err.Error() != wantErr.Error()) {
			rt.Fatalf("BatchWrite: %v, want %v", err, wantErr)
		}
		if count != wantCount {
			rt.Fatalf("BatchWrite counts %d, want %d (batches written: %v)", count, wantCount, f.sizes)
		}
		if len(seen) != calls || !sort.IntsAreSorted(seen) {
			rt.Fatalf("the items asked for are %v, want the first %d", seen, calls)
		}
		for _, s := range f.sizes {
			if s > threshold || s == 0 {
				rt.Fatalf("batches of %v with threshold %d", f.sizes, threshold)
			}
		}
		for i := 0; i < length; i++ {
			v, _ := under.Get([]byte(fmt.Sprint(i)))
			if (v != nil) != written[fmt.Sprint(i)] || (v != nil && !bytes.Equal(v, []byte{byte(i)})) {
				rt.Fatalf("item %d is %x, written: %t", i, v, written[fmt.Sprint(i)])
			}
		}
		// the same through a prefix, a temporary and a read only view
		pre := db.NewKeyPrefixedDataAdapter(under, []byte("x")).(db.Database)
		tmp := db.Temporary(pre)
		for _, d := range []db.Database{pre, tmp} {
			n, err := db.BatchWrite(d, threshold, length, func(j int, w db.Writer) (bool, error) {
				return !skip[j], w.Put([]byte{byte(j)}, []byte{1, byte(j)})
			})
			if err != nil || n != length-nskip {
				rt.Fatalf("BatchWrite through a view: %d,%v", n, err)
			}
		}
		n, err := db.BatchWrite(db.ReadOnly(under), threshold, length, func(j int, w db.Writer) (bool, error) {
			return true, w.Put([]byte{byte(j)}, []byte{1, byte(j)})
		})
		if n != 0 || (length > 0) != (err != nil) {
			rt.Fatalf("BatchWrite to a read only database: %d,%v", n, err)
		}
	})
}

// D04: batches over every kind of stack.
func TestD04_batches(t *testing.T) {
	h.Check(t, ">=2 batches of several operations", h.N{Quick: 8000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		st := drawStack(rt, c, "", []string{"mem"}, []string{"temporary", "prefix", "prefix"}, 3)
		_, b := drive(rt, c, st, h.Int(rt, 10, 60, "n"))
		c.NonTrivial(b >= 2)
	})
}

func TestD04_ldbbatches(t *testing.T) {
	h.Check(t, ">=2 batches of several operations on a stored database or a view of it", h.N{Quick: 800, Thorough: 15000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		st := drawStack(rt, c, dir, []string{"ldb", "cached"}, []string{"temporary", "prefix", "prefix"}, 2)
		defer closeBase(st)
		_, b := drive(rt, c, st, h.Int(rt, 10, 60, "n"))
		c.NonTrivial(b >= 2)
	})
}
