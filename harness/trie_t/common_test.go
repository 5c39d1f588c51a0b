// Package trie_t holds the property checks of the trie package (public API only).
package trie_t

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/ThinkiumGroup/go-common/trie"
	"github.com/stephenfire/go-rtl"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// ---- values ------------------------------------------------------------------------------

// Val is the struct value stored through the rtl codec.
type Val struct {
	K []byte
	N uint64
	S string
}

// Key makes *Val a TrieValue.
func (v *Val) Key() []byte { return v.K }

// A codec is one way of storing values; str is the canonical text of a value.
type codec struct {
	name string
	mk   func(key []byte, content []byte) interface{}
	str  func(v interface{}) string
	open func(root []byte, na, va db.DataAdapter) *trie.Trie
	// the hash the trie must use for the value
	hash func(v interface{}) []byte
	// the value as stored
	enc func(v interface{}) []byte
}

func keccak(in ...[]byte) []byte {
	k := sha3.NewLegacyKeccak256()
	for _, b := range in {
		k.Write(b)
	}
	return k.Sum(nil)
}

func funcEncode(o interface{}, w io.Writer) error {
	_, err := w.Write(append([]byte{0x5a}, o.([]byte)...))
	return err
}

func funcDecode(r io.Reader) (interface{}, error) {
	bs, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(bs) == 0 || bs[0] != 0x5a {
		return nil, errors.New("not a stored value")
	}
	return bs[1:], nil
}

func funcHash(_ interface{}, valueBytes []byte) ([]byte, error) {
	return keccak([]byte("v"), valueBytes), nil
}

var funcCodec = &codec{
	name: "funcs",
	mk:   func(_ []byte, content []byte) interface{} { return append([]byte{}, content...) },
	str:  func(v interface{}) string { return string(v.([]byte)) },
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		return trie.NewTrieWithValueFuncs(root, na, va, funcEncode, funcDecode, funcHash)
	},
	hash: func(v interface{}) []byte { return keccak([]byte("v"), append([]byte{0x5a}, v.([]byte)...)) },
	enc:  func(v interface{}) []byte { return append([]byte{0x5a}, v.([]byte)...) },
}

var rtlCodec = &codec{
	name: "rtl",
	mk: func(key []byte, content []byte) interface{} {
		return &Val{K: append([]byte{}, key...), N: uint64(len(content)) * 7, S: string(content)}
	},
	str: func(v interface{}) string {
		x := v.(*Val)
		return fmt.Sprintf("%x/%d/%s", x.K, x.N, x.S)
	},
	open: func(root []byte, na, va db.DataAdapter) *trie.Trie {
		return trie.NewTrieWithValueType(root, na, va, reflect.TypeOf((*Val)(nil)))
	},
	hash: func(v interface{}) []byte {
		bs, err := rtl.Marshal(v)
		if err != nil {
			panic(err)
		}
		return keccak(bs)
	},
	enc: func(v interface{}) []byte {
		bs, err := rtl.Marshal(v)
		if err != nil {
			panic(err)
		}
		return bs
	},
}

func drawCodec(rt *rapid.T) *codec {
	if h.OneIn(rt, 3, "codec") {
		return rtlCodec
	}
	return funcCodec
}

// ---- keys --------------------------------------------------------------------------------

// A keyGen draws keys that collide: shared prefixes, prefixes of one another, near misses.
type keyGen struct {
	mode int // 0 variable length, 1 fixed length
	size int
	base []byte
	used [][]byte

	alpha []byte
	bushy bool
}

var alphabet = []byte{0x00, 0x01, 0x10, 0x11, 0x12, 0x21, 0x0f, 0xf0, 0xff}

// alphabets which give nodes many children
var bushy = func() (r [3][]byte) {
	for i := byte(0); i < 16; i++ {
		r[0] = append(r[0], i)
		r[1] = append(r[1], i<<4)
		r[2] = append(r[2], i|i<<4, i|0x50)
	}
	return
}()

func drawKeyGen(rt *rapid.T, variable bool) *keyGen {
	g := &keyGen{mode: 1, alpha: alphabet}
	if h.OneIn(rt, 3, "bushy") {
		g.bushy = true
		g.alpha = bushy[h.Int(rt, 0, 2, "alphabet")]
	}
	if variable && h.Bool(rt, "variableKeys") {
		g.mode = 0
	}
	g.size = rapid.SampledFrom([]int{1, 2, 3, 2, 4, 20, 32}).Draw(rt, "keySize")
	if h.OneIn(rt, 25, "longKeys") {
		g.size = rapid.SampledFrom([]int{31, 33, 63, 64, 127, 128, 130, 300, 5000}).Draw(rt, "longSize")
	}
	if g.size >= 20 {
		g.base = rapid.SliceOfN(rapid.SampledFrom(g.alpha), g.size, g.size).Draw(rt, "base")
	}
	return g
}

func (g *keyGen) draw(rt *rapid.T) []byte {
	if len(g.used) > 0 && h.Int(rt, 0, 9, "reuse") < 5 {
		k := rapid.SampledFrom(g.used).Draw(rt, "used")
		if g.mode == 0 {
			switch h.Int(rt, 0, 9, "derive") {
			case 0, 1:
				k = append(append([]byte{}, k...), rapid.SampledFrom(g.alpha).Draw(rt, "ext"))
			case 2, 3:
				if len(k) > 1 {
					k = append([]byte{}, k[:len(k)-1]...)
				}
			}
		}
		return g.note(k)
	}
	var k []byte
	switch {
	case g.base != nil:
		k = append([]byte{}, g.base...)
		n := h.Int(rt, 1, 3, "mut")
		for i := 0; i < n; i++ {
			p := h.Int(rt, 0, len(k)-1, "at")
			if h.Bool(rt, "tail") {
				p = len(k) - 1 - p%2
			}
			k[p] = rapid.SampledFrom(g.alpha).Draw(rt, "b")
		}
	case g.mode == 0 && h.OneIn(rt, 16, "emptyKey"):
		k = []byte{}
	case g.mode == 0:
		n := h.Int(rt, 1, g.size+1, "len")
		k = rapid.SliceOfN(rapid.SampledFrom(g.alpha), n, n).Draw(rt, "key")
	default:
		k = rapid.SliceOfN(rapid.SampledFrom(g.alpha), g.size, g.size).Draw(rt, "key")
		if h.OneIn(rt, 8, "anybyte") {
			k[len(k)-1] = rapid.Byte().Draw(rt, "last")
		}
	}
	return g.note(k)
}

// drawMany draws keys which differ from one another in one nibble.
func (g *keyGen) drawMany(rt *rapid.T) [][]byte {
	k := g.draw(rt)
	if len(k) == 0 {
		k = []byte{0}
	}
	at := h.Int(rt, 0, len(k)-1, "at")
	shift := uint(4 * h.Int(rt, 0, 1, "nibble"))
	mask := 1 | h.Int(rt, 0, 1<<16-1, "children") | h.Int(rt, 0, 1<<16-1, "moreChildren")
	var r [][]byte
	for i := byte(0); i < 16; i++ {
		if mask>>i&1 == 1 {
			x := append([]byte{}, k...)
			x[at] = x[at]&^(15<<shift) | i<<shift
			r = append(r, g.note(x))
		}
	}
	return r
}

func (g *keyGen) note(k []byte) []byte {
	for _, u := range g.used {
		if bytes.Equal(u, k) {
			return k
		}
	}
	k = h.Roomy(k)
	g.used = append(g.used, k)
	return k
}

func drawContent(rt *rapid.T) []byte {
	if h.OneIn(rt, 14, "big") {
		n := h.Int(rt, 4080, 4500, "bigLen")
		return bytes.Repeat([]byte{byte(h.Int(rt, 'a', 'z', "fill"))}, n)
	}
	return []byte(fmt.Sprintf("v%d", h.Int(rt, 0, 60, "val")))
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%s*%d", b[:4], len(b))
	}
	return string(b)
}

// ---- model -------------------------------------------------------------------------------

type model map[string]interface{}

func (m model) clone() model {
	r := model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m model) keys() []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m model) equal(o model, c *codec) bool {
	if len(m) != len(o) {
		return false
	}
	for k, v := range m {
		ov, ok := o[k]
		if !ok || c.str(ov) != c.str(v) {
			return false
		}
	}
	return true
}

// ---- reference root ----------------------------------------------------------------------

func nibbles(k string) []byte {
	r := make([]byte, 0, 2*len(k))
	for i := 0; i < len(k); i++ {
		r = append(r, k[i]>>4, k[i]&15)
	}
	return r
}

type refEntry struct {
	nib []byte
	val []byte // hash
}

func nilHash() []byte { return append([]byte{}, common.NilHashSlice...) }

// refMerkle is the root of the complete binary tree over hs, padded with the nil hash.
func refMerkle(hs [][]byte) []byte {
	n := 2
	for n < len(hs) {
		n *= 2
	}
	row := make([][]byte, n)
	for i := range row {
		if i < len(hs) {
			row[i] = hs[i]
		} else {
			row[i] = nilHash()
		}
	}
	for len(row) > 1 {
		var up [][]byte
		for i := 0; i < len(row); i += 2 {
			up = append(up, keccak(row[i], row[i+1]))
		}
		row = up
	}
	return row[0]
}

func refNode(es []refEntry, depth int) []byte {
	first, last := es[0].nib[depth:], es[len(es)-1].nib[depth:]
	lcp := 0
	for lcp < len(first) && lcp < len(last) && first[lcp] == last[lcp] {
		lcp++
	}
	prefix := first[:lcp]
	depth += lcp
	var value []byte
	i := 0
	if len(es[0].nib) == depth {
		value = es[0].val
		i = 1
	}
	var flags [2]byte
	var kids [][]byte
	for i < len(es) {
		c := es[i].nib[depth]
		j := i
		for j < len(es) && es[j].nib[depth] == c {
			j++
		}
		flags[c/8] |= 1 << (c % 8)
		kids = append(kids, refNode(es[i:j], depth+1))
		i = j
	}
	var nt byte
	packed := prefix
	if len(prefix) > 0 {
		nt |= 0x80
		if len(prefix)%2 == 1 {
			nt |= 0x10 | prefix[0]
			packed = prefix[1:]
		}
	}
	if len(kids) > 0 {
		nt |= 0x40
	}
	if value != nil {
		nt |= 0x20
	}
	header := []byte{nt}
	if len(prefix) > 0 {
		ks := []byte{}
		for k := 0; k+1 < len(packed); k += 2 {
			ks = append(ks, packed[k]<<4|packed[k+1])
		}
		enc, err := rtl.Marshal(ks)
		if err != nil {
			panic(err)
		}
		header = append(header, enc...)
	}
	if len(kids) > 0 {
		header = append(header, flags[:]...)
	}
	if value == nil {
		value = nilHash()
	}
	res := keccak(keccak(header), value)
	if len(kids) > 0 {
		res = keccak(res, refMerkle(kids))
	}
	return res
}

// refRoot computes the root of the radix-16 Merkle trie holding exactly m, from scratch.
func refRoot(m model, c *codec) []byte {
	if len(m) == 0 {
		return append([]byte{}, common.EmptyNodeHashSlice...)
	}
	var es []refEntry
	for _, k := range m.keys() {
		es = append(es, refEntry{nibbles(k), c.hash(m[k])})
	}
	return refNode(es, 0)
}

// ---- database ----------------------------------------------------------------------------

func adapters(d db.Database) (na, va db.DatabasedAdapter) {
	return db.NewKeyPrefixedDataAdapter(d, []byte("n")), db.NewKeyPrefixedDataAdapter(d, []byte("v"))
}

func (c *codec) openOn(d db.Database, root []byte) *trie.Trie {
	na, va := adapters(d)
	return c.open(root, na, va)
}

type getter interface {
	Get(key []byte) (interface{}, bool)
}

// checkGets compares every key of the pool and of the model.
func checkGets(rt *rapid.T, c *codec, t getter, m model, pool [][]byte, what string) {
	for _, k := range pool {
		v, ok := t.Get(k)
		want, exist := m[string(k)]
		if ok != exist {
			rt.Fatalf("%s: Get(%x) found=%t, want %t", what, k, ok, exist)
		}
		if ok && c.str(v) != c.str(want) {
			rt.Fatalf("%s: Get(%x) = %.60q, want %.60q", what, k, c.str(v), c.str(want))
		}
	}
	for k, want := range m {
		v, ok := t.Get([]byte(k))
		if !ok || c.str(v) != c.str(want) {
			rt.Fatalf("%s: Get(%x) found=%t", what, k, ok)
		}
	}
}

func mustRoot(rt *rapid.T, f func() ([]byte, error)) []byte {
	r, err := f()
	if err != nil {
		rt.Fatalf("hash failed: %v", err)
	}
	return append([]byte{}, r...)
}

// ---- a trie under a random history ---------------------------------------------------------

type world struct {
	c     *codec
	g     *keyGen
	d     db.Database
	t     *trie.Trie
	m     model
	dirty bool
	fresh bool // never reopened: Count() counts everything
	// statistics
	puts, dels, hits, splits, commits, collapses, reopens int
}

func newWorld(rt *rapid.T, c *h.C, variable bool) *world {
	w := &world{c: drawCodec(rt), g: drawKeyGen(rt, variable), d: db.NewMemDB(), m: model{}, fresh: true}
	w.t = w.c.openOn(w.d, nil)
	c.Op("codec=%s keys(variable=%t size=%d)", w.c.name, w.g.mode == 0, w.g.size)
	return w
}

func (w *world) put(rt *rapid.T, c *h.C) {
	if w.g.bushy && h.OneIn(rt, 8, "many") {
		for i, k := range w.g.drawMany(rt) {
			w.put1(rt, c, k, []byte(fmt.Sprintf("v%d", i)))
		}
		return
	}
	w.put1(rt, c, w.g.draw(rt), drawContent(rt))
}

func (w *world) put1(rt *rapid.T, c *h.C, k, content []byte) {
	v := w.c.mk(k, content)
	c.Op("put %x=%s", k, short(content))
	w.puts++
	var ok bool
	if tv, is := v.(trie.TrieValue); is && h.Bool(rt, "putValue") {
		ok = w.t.PutValue(tv)
	} else {
		ok = w.t.Put(k, v)
	}
	if !ok {
		rt.Fatalf("Put(%x) of a value reported no change", k)
	}
	w.m[string(k)] = v
	w.dirty = true
	if got, ok := w.t.Get(k); !ok || w.c.str(got) != w.c.str(v) {
		rt.Fatalf("Get(%x) right after Put: found=%t", k, ok)
	}
}

func (w *world) del(rt *rapid.T, c *h.C) {
	k := w.g.draw(rt)
	c.Op("delete %x", k)
	old, exist := w.m[string(k)]
	changed, got := w.t.Delete(k)
	if changed != exist {
		rt.Fatalf("Delete(%x) changed=%t, key present=%t", k, changed, exist)
	}
	if exist {
		w.hits++
		if got == nil || w.c.str(got) != w.c.str(old) {
			rt.Fatalf("Delete(%x) returned old value %v", k, got)
		}
		w.dirty = true
	} else if got != nil {
		rt.Fatalf("Delete(%x) of an absent key returned old value %v", k, got)
	}
	w.dels++
	delete(w.m, string(k))
	if _, ok := w.t.Get(k); ok {
		rt.Fatalf("Get(%x) finds it right after Delete", k)
	}
}

func (w *world) commit(rt *rapid.T, c *h.C) []byte {
	c.Op("commit")
	w.commits++
	if err := w.t.Commit(); err != nil {
		rt.Fatalf("Commit: %v", err)
	}
	w.dirty = false
	if w.t.IsDirty() {
		rt.Fatalf("IsDirty after Commit")
	}
	return mustRoot(rt, w.t.HashValue)
}

// step applies one random operation of a full history.
func (w *world) step(rt *rapid.T, c *h.C) {
	switch op := h.Int(rt, 0, 99, "op"); {
	case op < 45:
		w.put(rt, c)
	case op < 68:
		w.del(rt, c)
	case op < 78:
		k := w.g.draw(rt)
		c.Op("get %x", k)
		checkGets(rt, w.c, w.t, model{}, nil, "")
		v, ok := w.t.Get(k)
		want, exist := w.m[string(k)]
		if ok != exist || (ok && w.c.str(v) != w.c.str(want)) {
			rt.Fatalf("Get(%x) found=%t, want %t", k, ok, exist)
		}
	case op < 86:
		w.commit(rt, c)
	case op < 89:
		w.commit(rt, c)
		c.Op("collapse")
		w.collapses++
		if err := w.t.Collapse(); err != nil {
			rt.Fatalf("Collapse: %v", err)
		}
	case op < 90:
		c.Op("commit*105")
		w.collapses++
		for i := 0; i < 105; i++ {
			if err := w.t.Commit(); err != nil {
				rt.Fatalf("Commit: %v", err)
			}
		}
		w.dirty = false
	case op < 94:
		root := w.commit(rt, c)
		c.Op("reopen")
		w.reopens++
		w.fresh = false
		w.t = w.c.openOn(w.d, root)
	case op < 96:
		c.Op("clone")
		w.fresh = false
		w.t = w.t.Clone()
	case op < 98:
		c.Op("collapse?")
		_ = w.t.Collapse() // of a possibly dirty trie
	default:
		c.Op("hash")
		mustRoot(rt, w.t.HashValue)
	}
}

func (w *world) check(rt *rapid.T, what string) {
	checkGets(rt, w.c, w.t, w.m, w.g.used, what)
	if w.fresh && w.t.Count() != len(w.m) {
		rt.Fatalf("%s: Count()=%d, the trie holds %d values", what, w.t.Count(), len(w.m))
	}
	if w.t.IsEmpty() != (len(w.m) == 0) {
		rt.Fatalf("%s: IsEmpty()=%t with %d values", what, w.t.IsEmpty(), len(w.m))
	}
}
