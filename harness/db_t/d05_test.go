package db_t

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/ThinkiumGroup/go-common/db"
	"pgregory.net/rapid"

	"verifharness/h"
)

// listing describes the files of a directory.
func listing(dir string) string {
	es, _ := os.ReadDir(dir)
	s := ""
	for _, e := range es {
		if st, err := e.Info(); err == nil {
			s += fmt.Sprintln(e.Name(), st.Size(), st.ModTime().UnixNano())
		}
	}
	return s
}

// copyDir copies the files as they are at one moment: it starts again if the store (which
// compacts in the background) changed them meanwhile.
func copyDir(rt *rapid.T, from, to string) {
	for try := 0; try < 200; try++ {
		_ = os.RemoveAll(to)
		before := listing(from)
		if err := os.MkdirAll(to, 0o755); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		es, err := os.ReadDir(from)
		ok := err == nil
		for _, e := range es {
			bs, err := os.ReadFile(filepath.Join(from, e.Name()))
			if err != nil {
				ok = false
				break
			}
			if err := os.WriteFile(filepath.Join(to, e.Name()), bs, 0o644); err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
		}
		if ok && listing(from) == before {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	rt.Fatalf("HARNESS-ERROR the store never rested")
}

// openStored opens the stored database of the kind (0: plain, else the cache size).
func openStored(rt *rapid.T, path string, cache int) db.Database {
	var d db.Database
	var err error
	if cache == 0 {
		d, err = db.NewLDB(path)
	} else {
		d, err = db.NewCachedDBWithPath(path, cache)
	}
	if err != nil {
		rt.Fatalf("open: %v", err)
	}
	return d
}

// one write: a single operation or a batch
type write [][3]string

func drawWrite(rt *rapid.T) write {
	n := 1
	if h.Bool(rt, "batch") {
		n = h.Int(rt, 2, 6, "ops")
	}
	var w write
	for ; n > 0; n-- {
		if h.OneIn(rt, 4, "del") {
			w = append(w, [3]string{"d", drawKey(rt), ""})
		} else {
			v := drawVal(rt)
			if len(v) < 200 && h.OneIn(rt, 30, "long") {
				v = strings.Repeat(v+"y", 700)
			}
			w = append(w, [3]string{"p", drawKey(rt), v})
		}
	}
	return w
}

func (w write) do(d db.Database, asBatch bool) error {
	if len(w) == 1 && !asBatch {
		if w[0][0] == "p" {
			return d.Put([]byte(w[0][1]), []byte(w[0][2]))
		}
		return d.Delete([]byte(w[0][1]))
	}
	b := d.NewBatch()
	for _, x := range w {
		if x[0] == "p" {
			if err := b.Put([]byte(x[1]), []byte(x[2])); err != nil {
				return err
			}
		} else if err := b.Delete([]byte(x[1])); err != nil {
			return err
		}
	}
	return d.Batch(b)
}

func (w write) apply(m map[string]string) {
	for _, x := range w {
		if x[0] == "p" {
			m[x[1]] = x[2]
		} else {
			delete(m, x[1])
		}
	}
}

func cloneMap(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func contents(d db.Database) (map[string]string, error) {
	m := map[string]string{}
	for _, k := range keysAll {
		v, err := d.Get([]byte(k))
		if err != nil {
			return nil, err
		}
		if v != nil {
			m[k] = string(v)
		}
	}
	return m, nil
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func short(m map[string]string) string {
	s := fmt.Sprintf("%.300q", fmt.Sprint(m))
	return s
}

// D05: what was acknowledged survives closing, dropping and crashing; a batch survives whole or not at all.
func TestD05_reopen(t *testing.T) {
	h.Check(t, ">=2 reopenings or crashes with writes between", h.N{Quick: 1600, Thorough: 30000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		cache := h.Int(rt, 0, 3, "cache")
		path := filepath.Join(dir, "0")
		d := openStored(rt, path, cache)
		defer func() { _ = d.Close() }()
		m := map[string]string{}
		gen, events, wrote := 0, 0, false
		for i := h.Int(rt, 2, 30, "n"); i > 0; i-- {
			switch op := h.Int(rt, 0, 7, "op"); op {
			case 0, 1, 2, 3, 4:
				w := drawWrite(rt)
				asBatch := h.Bool(rt, "asBatch")
				c.Op("write %.300q", fmt.Sprint([][3]string(w)))
				if err := w.do(d, asBatch); err != nil {
					rt.Fatalf("write: %v", err)
				}
				w.apply(m)
				wrote = true
			case 5:
				c.Op("close and open")
				if err := d.Close(); err != nil {
					rt.Fatalf("Close: %v", err)
				}
				// nothing is acknowledged by a closed database
				w := drawWrite(rt)
				var werr error
				p, _ := h.NoPanic(func() { werr = w.do(d, h.Bool(rt, "asBatch")) })
				if p == nil && werr == nil {
					rt.Fatalf("a closed database acknowledged %q", w)
				}
				// and nothing that was acknowledged is denied by it
				for k, v := range m {
					var gv []byte
					var has bool
					var gerr, herr error
					if p, _ := h.NoPanic(func() { gv, gerr = d.Get([]byte(k)) }); p == nil && gerr == nil && (gv == nil || string(gv) != v) {
						rt.Fatalf("a closed database says %q is %q (nil: %t), it is %q", k, gv, gv == nil, v)
					}
					if p, _ := h.NoPanic(func() { has, herr = d.Has([]byte(k)) }); p == nil && herr == nil && !has {
						rt.Fatalf("a closed database says it has no %q", k)
					}
				}
				cache = h.Int(rt, 0, 3, "cache")
				d = openStored(rt, path, cache)
				if wrote {
					events++
				}
				wrote = false
			case 6:
				// the process dies: what is on disk is opened elsewhere
				gen++
				np := filepath.Join(dir, fmt.Sprint(gen))
				copyDir(rt, path, np)
				c.Op("crash")
				_ = d.Close()
				path = np
				cache = h.Int(rt, 0, 3, "cache")
				d = openStored(rt, path, cache)
				if wrote {
					events++
				}
				wrote = false
			case 7:
				got, err := contents(d)
				if err != nil || !same(got, m) {
					rt.Fatalf("contents %s (%v), want %s", short(got), err, short(m))
				}
			}
		}
		got, err := contents(d)
		if err != nil || !same(got, m) {
			rt.Fatalf("contents %s (%v), want %s", short(got), err, short(m))
		}
		c.NonTrivial(events >= 2)
	})
}

// D05: a crash in the middle of writing the journal loses a suffix of the writes, never part of one.
func TestD05_torn(t *testing.T) {
	h.Check(t, "the tear lost some but not all writes, one of them a batch", h.N{Quick: 2000, Thorough: 40000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		cache := h.Int(rt, 0, 2, "cache")
		path := filepath.Join(dir, "0")
		d := openStored(rt, path, cache)
		m := map[string]string{}
		states := []map[string]string{cloneMap(m)}
		var hadBatch []bool
		var sizes []int64
		size := func() int64 {
			fs, _ := filepath.Glob(filepath.Join(path, "*.log"))
			if len(fs) != 1 {
				rt.Fatalf("HARNESS-ERROR journals %v", fs)
			}
			st, err := os.Stat(fs[0])
			if err != nil {
				rt.Fatalf("HARNESS-ERROR %v", err)
			}
			return st.Size()
		}
		for i := h.Int(rt, 1, 15, "n"); i > 0; i-- {
			w := drawWrite(rt)
			c.Op("write %.300q", fmt.Sprint([][3]string(w)))
			if err := w.do(d, h.Bool(rt, "asBatch")); err != nil {
				rt.Fatalf("write: %v", err)
			}
			w.apply(m)
			states = append(states, cloneMap(m))
			hadBatch = append(hadBatch, len(w) > 1)
			sizes = append(sizes, size())
		}
		np := filepath.Join(dir, "1")
		copyDir(rt, path, np)
		_ = d.Close()
		fs, _ := filepath.Glob(filepath.Join(np, "*.log"))
		total := sizes[len(sizes)-1]
		cut := int64(h.Int(rt, 0, int(total), "cut"))
		c.Op("journal of %d bytes torn at %d", total, cut)
		if err := os.Truncate(fs[0], cut); err != nil {
			rt.Fatalf("HARNESS-ERROR %v", err)
		}
		d2 := openStored(rt, np, h.Int(rt, 0, 2, "cache2"))
		defer func() { _ = d2.Close() }()
		got, err := contents(d2)
		if err != nil {
			rt.Fatalf("after the crash: %v", err)
		}
		// the writes whose journal record was completely there are kept
		kept := 0
		for kept < len(sizes) && sizes[kept] <= cut {
			kept++
		}
		for i := kept; i < len(hadBatch); i++ {
			c.NonTrivial(kept > 0 && hadBatch[i])
		}
		if !same(got, states[kept]) {
			rt.Fatalf("after the journal was torn the contents are %s, want %s", short(got), short(states[kept]))
		}
		if err := d2.Put([]byte("a"), []byte("after")); err != nil {
			rt.Fatalf("write after the crash: %v", err)
		}
		if v, _ := d2.Get([]byte("a")); string(v) != "after" {
			rt.Fatalf("write after the crash is read as %q", v)
		}
	})
}

// D05: a cached database whose store is replaced serves the new store only.
func TestD05_replace(t *testing.T) {
	h.Check(t, "always", h.N{Quick: 600, Thorough: 10000}, func(rt *rapid.T, c *h.C) {
		dir, done := scratch(rt)
		defer done()
		d := openStored(rt, filepath.Join(dir, "0"), h.Int(rt, 1, 4, "cache"))
		defer func() { _ = d.Close() }()
		m := map[string]string{}
		path := filepath.Join(dir, "0")
		step := func() {
			n := h.Int(rt, 0, 12, "n")
			if h.OneIn(rt, 3, "nowrite") {
				n = 0
				for j := h.Int(rt, 0, 3, "reads"); j > 0; j-- {
					_, _ = d.Get([]byte(drawKey(rt)))
				}
			}
			for i := n; i > 0; i-- {
				w := drawWrite(rt)
				c.Op("write %.300q", fmt.Sprint([][3]string(w)))
				if err := w.do(d, h.Bool(rt, "asBatch")); err != nil {
					rt.Fatalf("write: %v", err)
				}
				w.apply(m)
				_, _ = d.Get([]byte(drawKey(rt)))
			}
			got, err := contents(d)
			if err != nil || !same(got, m) {
				rt.Fatalf("contents %s (%v), want %s", short(got), err, short(m))
			}
		}
		step()
		for i := 1; i <= h.Int(rt, 1, 2, "replaces"); i++ {
			np := filepath.Join(dir, fmt.Sprint(i))
			nd := openStored(rt, np, 0)
			nm := map[string]string{}
			for j := h.Int(rt, 0, 4, "pre"); j > 0; j-- {
				w := drawWrite(rt)
				if err := w.do(nd, false); err != nil {
					rt.Fatalf("write: %v", err)
				}
				w.apply(nm)
			}
			c.Op("replace, new holds %s", short(nm))
			op, od := d.(db.Replaceable).Replace(np, nd)
			if op != path {
				rt.Fatalf("Replace gives back path %q, want %q", op, path)
			}
			got, err := contents(od)
			if err != nil || !same(got, m) {
				rt.Fatalf("the replaced database holds %s (%v), want %s", short(got), err, short(m))
			}
			_ = od.Close()
			m, path = nm, np
			got, err = contents(d)
			if err != nil || !same(got, m) {
				rt.Fatalf("after Replace the contents are %s (%v), want %s", short(got), err, short(m))
			}
			step()
		}
		c.NonTrivial(true)
	})
}
