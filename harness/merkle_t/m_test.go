// Package merkle_t holds the checks of merkle hashing, merkle proofs and proof chains.
package merkle_t

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"testing"
	"testing/iotest"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/stephenfire/go-rtl"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func keccak(in ...[]byte) []byte {
	k := sha3.NewLegacyKeccak256()
	for _, b := range in {
		k.Write(b)
	}
	return k.Sum(nil)
}

func nilHash() []byte { return append([]byte{}, common.NilHashSlice...) }

type item struct {
	v    [32]byte
	left bool
}

// refComplete is the root over the list padded with nil hashes to a power of two, and the path.
func refComplete(hs [][]byte, idx int) ([]byte, []item) {
	n := 2
	for n < len(hs) {
		n *= 2
	}
	row := make([][]byte, n)
	for i := range row {
		row[i] = nilHash()
		if i < len(hs) {
			row[i] = hs[i]
		}
	}
	return climb(row, idx)
}

// refLayered pads every layer to an even length with one nil hash.
func refLayered(hs [][]byte, idx int) ([]byte, []item) {
	depth, n := 1, 2
	for n < len(hs) {
		n *= 2
		depth++
	}
	row := append([][]byte{}, hs...)
	var path []item
	for d := 0; d < depth; d++ {
		if len(row)%2 == 1 {
			row = append(row, nilHash())
		}
		var p []item
		row, p = layer(row, idx)
		path = append(path, p...)
		if idx >= 0 {
			idx /= 2
		}
	}
	return row[0], path
}

func layer(row [][]byte, idx int) ([][]byte, []item) {
	var up [][]byte
	var path []item
	for i := 0; i < len(row); i += 2 {
		up = append(up, keccak(row[i], row[i+1]))
		if idx == i {
			path = append(path, mkItem(row[i+1], false))
		} else if idx == i+1 {
			path = append(path, mkItem(row[i], true))
		}
	}
	return up, path
}

func climb(row [][]byte, idx int) ([]byte, []item) {
	var path []item
	for len(row) > 1 {
		var p []item
		row, p = layer(row, idx)
		path = append(path, p...)
		if idx >= 0 {
			idx /= 2
		}
	}
	return row[0], path
}

func mkItem(v []byte, left bool) item {
	var it item
	copy(it.v[:], v)
	it.left = left
	return it
}

func same(items []common.HashItem, want []item) bool {
	if len(items) != len(want) {
		return false
	}
	for i := range want {
		if items[i].Val != want[i].v || items[i].Order != want[i].left {
			return false
		}
	}
	return true
}

func fold(leaf []byte, items []item) []byte {
	for _, it := range items {
		if it.left {
			leaf = keccak(it.v[:], leaf)
		} else {
			leaf = keccak(leaf, it.v[:])
		}
	}
	return leaf
}

func drawHash(rt *rapid.T) []byte {
	switch h.Int(rt, 0, 5, "hash") {
	case 0:
		return nilHash()
	case 1:
		return make([]byte, 32)
	case 2:
		return keccak([]byte{byte(h.Int(rt, 0, 2, "few"))})
	default:
		return h.Roomy(keccak(h.Bytes(rt, 1, 3, "of")))
	}
}

func TestM01_merkle(t *testing.T) {
	h.Check(t, ">=3 leaves", h.N{Quick: 12000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		n := h.Int(rt, 0, 9, "n")
		if h.OneIn(rt, 3, "more") {
			n = h.Int(rt, 0, 140, "n2")
		}
		if h.Bool(rt, "pow2") {
			p := 1 << uint(h.Int(rt, 0, 6, "p"))
			n = p + h.Int(rt, -1, 1, "off")
		}
		if h.OneIn(rt, 60, "many") {
			n = rapid.SampledFrom([]int{255, 256, 257, 300, 511, 512, 513, 1000, 1025}).Draw(rt, "n3")
		}
		hs := make([][]byte, n)
		var before [][]byte
		for i := range hs {
			hs[i] = drawHash(rt)
			before = append(before, append([]byte{}, hs[i]...))
			c.Key(hs[i])
		}
		idx := -1
		if n > 0 && !h.OneIn(rt, 6, "noindex") {
			idx = h.Int(rt, 0, n-1, "idx")
		}
		c.Op("%d leaves, prove %d", n, idx)
		c.NonTrivial(n >= 3)
		type fn struct {
			name string
			f    func([][]byte, int, *common.MerkleProofs) ([]byte, error)
			ref  func([][]byte, int) ([]byte, []item)
			root bool // with a negative index the root itself is appended to the proof
		}
		for _, f := range []fn{{"MerkleHashComplete", common.MerkleHashComplete, refComplete, true},
			{"MerkleHashCompleteOld", common.MerkleHashCompleteOld, refComplete, true},
			{"MerkleHash", common.MerkleHash, refLayered, false}} {
			// a spare capacity must not be written into
			in := make([][]byte, n, n+200)
			copy(in, hs)
			spare := in[:cap(in)]
			plain, err := f.f(in, -1, nil)
			if err != nil {
				rt.Fatalf("%s: %v", f.name, err)
			}
			if n == 0 {
				if !bytes.Equal(plain, nilHash()) {
					rt.Fatalf("%s of nothing is %x", f.name, plain)
				}
				continue
			}
			want, path := f.ref(before, idx)
			if !bytes.Equal(plain, want) {
				rt.Fatalf("%s of %d leaves: %x, want %x", f.name, n, plain, want)
			}
			mp := common.NewMerkleProofs()
			root, err := f.f(in, idx, mp)
			if err != nil || !bytes.Equal(root, want) {
				rt.Fatalf("%s with a proof: %x %v, want %x", f.name, root, err, want)
			}
			for i := range hs {
				if !bytes.Equal(in[i], before[i]) {
					rt.Fatalf("%s changed leaf %d of its input", f.name, i)
				}
			}
			_ = spare
			items, err := mp.ToItems()
			if err != nil {
				rt.Fatalf("%s: ToItems: %v", f.name, err)
			}
			if idx < 0 {
				if f.root {
					path = []item{mkItem(want, false)}
				} else {
					path = nil
				}
				if !same(items, path) {
					rt.Fatalf("%s without an index: proof %v, want %v", f.name, items, path)
				}
				continue
			}
			if !same(items, path) {
				rt.Fatalf("%s: proof of %d of %d is %v, want %v", f.name, idx, n, items, path)
			}
			got, err := mp.Proof(common.BytesToHash(before[idx]))
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("%s: proof of leaf %d leads to %x (%v), want %x", f.name, idx, got, err, want)
			}
			key := new(big.Int)
			if l := mp.BigKey(key, 0); l != mp.Len() || l != len(path) || key.Cmp(big.NewInt(int64(idx))) != 0 {
				rt.Fatalf("%s: the proof of leaf %d says it is at %s (length %d)", f.name, idx, key, l)
			}
			other := keccak([]byte("other"), before[idx])
			if got, _ := mp.Proof(common.BytesToHash(other)); bytes.Equal(got, want) {
				rt.Fatalf("%s: proof accepts another leaf", f.name)
			}
		}
	})
}

// Values and byte slices are hashed one by one, then as above.
func TestM01_values(t *testing.T) {
	h.Check(t, ">=2 values", h.N{Quick: 6000, Thorough: 100000}, func(rt *rapid.T, c *h.C) {
		n := h.Len(rt, 12, "n")
		bss := make([][]byte, n)
		var ss []string
		var us []uint64
		var hb, hs, hu [][]byte
		for i := range bss {
			bss[i] = h.Roomy(h.Bytes(rt, 0, 3, "v"))
			if len(bss[i]) == 0 {
				hb = append(hb, nilHash())
			} else {
				hb = append(hb, keccak(bss[i]))
			}
			ss = append(ss, string(bss[i]))
			e, _ := rtl.Marshal(ss[i])
			hs = append(hs, keccak(e))
			us = append(us, rapid.Uint64().Draw(rt, "u"))
			e, _ = rtl.Marshal(us[i])
			hu = append(hu, keccak(e))
			c.Key(bss[i])
		}
		idx := -1
		if n > 0 {
			idx = h.Int(rt, 0, n-1, "idx")
		}
		c.Op("%d values, prove %d", n, idx)
		c.NonTrivial(n >= 2)
		check := func(name string, root []byte, err error, mp *common.MerkleProofs, leaves [][]byte, complete bool) {
			ref := refLayered
			if complete {
				ref = refComplete
			}
			want, path := nilHash(), []item(nil)
			if n > 0 {
				want, path = ref(leaves, idx)
			}
			if err != nil || !bytes.Equal(root, want) {
				rt.Fatalf("%s: %x %v, want %x", name, root, err, want)
			}
			items, _ := mp.ToItems()
			if !same(items, path) {
				rt.Fatalf("%s: wrong proof", name)
			}
		}
		run := func(name string, f func(mp *common.MerkleProofs) ([]byte, error), leaves [][]byte, complete bool) {
			mp := common.NewMerkleProofs()
			root, err := f(mp)
			check(name, root, err, mp, leaves, complete)
		}
		run("SlicesMerkleHash", func(mp *common.MerkleProofs) ([]byte, error) { return common.SlicesMerkleHash(bss, idx, mp) }, hb, false)
		run("SlicesMerkleHashComplete", func(mp *common.MerkleProofs) ([]byte, error) { return common.SlicesMerkleHashComplete(bss, idx, mp) }, hb, true)
		run("ValuesMerkleHash", func(mp *common.MerkleProofs) ([]byte, error) { return common.ValuesMerkleHash(ss, idx, mp) }, hs, false)
		run("ValuesMerkleTreeHash", func(mp *common.MerkleProofs) ([]byte, error) { return common.ValuesMerkleTreeHash(us, idx, mp) }, hu, true)
		if _, err := common.ValuesMerkleHash(5, -1, nil); err == nil {
			rt.Fatalf("ValuesMerkleHash of no slice did not fail")
		}
		// a value which hashes itself
		hh := make([]common.Hash, n)
		for i := range hh {
			hh[i] = common.BytesToHash(keccak(bss[i]))
		}
		var leaves [][]byte
		for i := range hh {
			leaves = append(leaves, append([]byte{}, hh[i][:]...))
		}
		run("ValuesMerkleHash of hashes", func(mp *common.MerkleProofs) ([]byte, error) { return common.ValuesMerkleHash(hh, idx, mp) }, leaves, false)
	})
}

func drawProofs(rt *rapid.T, c *h.C, max int) (*common.MerkleProofs, []item) {
	mp := common.NewMerkleProofs()
	var list []item
	n := h.Int(rt, 0, max, "items")
	pool := [][]byte{nilHash(), keccak([]byte("a")), keccak([]byte("b")), make([]byte, 32)}
	var last []byte
	for i := 0; i < n; i++ {
		v := rapid.SampledFrom(pool).Draw(rt, "v")
		if last != nil && h.Bool(rt, "repeat") {
			v = last
		}
		if h.OneIn(rt, 5, "fresh") {
			v = keccak([]byte{byte(i), 7})
		}
		last = v
		times, mixed := 1, false
		if max > 50 && h.OneIn(rt, 20, "run") { // one hash many times
			times, mixed = rapid.SampledFrom([]int{60, 127, 128, 129, 254, 255, 256, 257, 300}).Draw(rt, "times"), h.Bool(rt, "mixed")
			c.Op("%d times", times)
		}
		left := h.Bool(rt, "left")
		it := mkItem(v, left)
		for ; times > 0; times-- {
			it = mkItem(v, left != (mixed && times%3 == 0))
			list = append(list, it)
			mp.Append(common.Hash(it.v), it.left)
		}
		c.Op("%x/%t", it.v[:2], it.left)
	}
	return mp, list
}

func checkProofs(rt *rapid.T, mp *common.MerkleProofs, list []item, what string) {
	if mp.Len() != len(list) {
		rt.Fatalf("%s: Len()=%d, want %d", what, mp.Len(), len(list))
	}
	items, err := mp.ToItems()
	if err != nil || !same(items, list) {
		rt.Fatalf("%s: ToItems()=%v %v, want %v", what, items, err, list)
	}
	i := 0
	err = mp.Iterate(func(val []byte, order bool) error {
		if i >= len(list) || !bytes.Equal(val, list[i].v[:]) || order != list[i].left {
			rt.Fatalf("%s: Iterate yields %x,%t at %d", what, val, order, i)
		}
		i++
		return nil
	})
	if err != nil || i != len(list) {
		rt.Fatalf("%s: Iterate yields %d of %d: %v", what, i, len(list), err)
	}
	key := new(big.Int)
	for i, it := range list {
		v, left, err := mp.Get(i)
		if err != nil || v != it.v || left != it.left || mp.Order(i) != it.left {
			rt.Fatalf("%s: Get(%d)=%x,%t,%v want %x,%t", what, i, v, left, err, it.v, it.left)
		}
		if it.left {
			key.SetBit(key, i, 1)
		}
	}
	if _, _, err := mp.Get(len(list)); err == nil {
		rt.Fatalf("%s: Get(%d) of %d did not fail", what, len(list), len(list))
	}
	if _, _, err := mp.Get(-1); err == nil {
		rt.Fatalf("%s: Get(-1) did not fail", what)
	}
	got := big.NewInt(5)
	wantKey := new(big.Int).Or(new(big.Int).Lsh(key, 3), big.NewInt(5))
	if end := mp.BigKey(got, 3); end != len(list)+3 || got.Cmp(wantKey) != 0 {
		rt.Fatalf("%s: BigKey=%s,%d want %s", what, got, end, wantKey)
	}
	leaf := keccak([]byte("leaf"))
	r, err := mp.Proof(common.BytesToHash(leaf))
	if err != nil || !bytes.Equal(r, fold(leaf, list)) {
		rt.Fatalf("%s: Proof leads to %x (%v), want %x", what, r, err, fold(leaf, list))
	}
	if len(mp.Repeats) > 0 && !mp.Repeats.IsValid() {
		rt.Fatalf("%s: Repeats %v are not valid", what, mp.Repeats)
	}
	times := map[int]int{}
	for _, m := range mp.Repeats {
		times[m.Index] = m.Times
	}
	for i := range mp.Hashs {
		n, ok := mp.Repeats.Find(i)
		if n != times[i] || ok != (times[i] > 0) {
			rt.Fatalf("%s: Find(%d)=%d,%t of %v", what, i, n, ok, mp.Repeats)
		}
	}
	_ = mp.String()
	_ = mp.Summary()
	_ = mp.InfoString(0)
}

func short(mk func(io.Reader) io.Reader, bs []byte) io.Reader { return mk(bytes.NewReader(bs)) }

// brokenWriter takes n bytes and no more.
type brokenWriter struct {
	n int
	b []byte
}

func (w *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > w.n-len(w.b) {
		k := w.n - len(w.b)
		w.b = append(w.b, p[:k]...)
		return k, io.ErrClosedPipe
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

var readers = []func(io.Reader) io.Reader{
	func(r io.Reader) io.Reader { return r },
	iotest.OneByteReader, iotest.HalfReader, iotest.DataErrReader,
	func(r io.Reader) io.Reader { return rtl.NewValueReader(r, 16) },
}

func TestM02_container(t *testing.T) {
	h.Check(t, ">=2 items with a repeated hash", h.N{Quick: 12000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		max := 20
		if h.OneIn(rt, 8, "long") {
			max = 300
		}
		mp, list := drawProofs(rt, c, max)
		c.NonTrivial(len(mp.Repeats) > 0)
		checkProofs(rt, mp, list, "built")
		// serialization, through readers that deliver in pieces, followed by other data
		buf := new(bytes.Buffer)
		if err := mp.Serialization(buf); err != nil {
			rt.Fatalf("Serialization: %v", err)
		}
		bs := append([]byte{}, buf.Bytes()...)
		mk := rapid.SampledFrom(readers).Draw(rt, "reader")
		back := &common.MerkleProofs{Hashs: []common.Hash{{1}}, Repeats: common.MoreTimes{{Index: 3, Times: 4}}}
		tail := []byte{0xee, 0xff}
		r := short(mk, append(append([]byte{}, bs...), tail...))
		isnil, err := back.Deserialization(r)
		if err != nil || isnil {
			rt.Fatalf("Deserialization: %v nil=%t", err, isnil)
		}
		rest, err := io.ReadAll(r)
		if err != nil || !bytes.Equal(rest, tail) {
			rt.Fatalf("Deserialization left %x of the data after it", rest)
		}
		checkProofs(rt, back, list, "deserialized")
		if !mp.Equal(back) || !back.Equal(mp) {
			rt.Fatalf("deserialized proofs are not Equal")
		}
		enc, err := rtl.Marshal(mp)
		if err != nil {
			rt.Fatalf("Marshal: %v", err)
		}
		b2 := new(common.MerkleProofs)
		if err := rtl.Unmarshal(enc, b2); err != nil || !b2.Equal(mp) {
			rt.Fatalf("rtl round trip: %v", err)
		}
		js, err := json.Marshal(mp)
		if err != nil {
			rt.Fatalf("json: %v", err)
		}
		b3 := new(common.MerkleProofs)
		if err := json.Unmarshal(js, b3); err != nil {
			rt.Fatalf("json: %v", err)
		}
		checkProofs(rt, b3, list, "from json")
		// a truncated serialization is reported
		if cut := h.Int(rt, 0, len(bs)-1, "cut"); true {
			b4 := new(common.MerkleProofs)
			if _, err := b4.Deserialization(short(mk, bs[:cut])); err == nil {
				rt.Fatalf("Deserialization of %d of %d bytes did not fail", cut, len(bs))
			}
			// and so is a writer that breaks
			w := &brokenWriter{n: cut}
			if err := mp.Serialization(w); err == nil || !bytes.HasPrefix(bs, w.b) {
				rt.Fatalf("Serialization to a writer breaking after %d of %d bytes: %v, wrote %x", cut, len(bs), err, w.b)
			}
		}
		// clones are equal and independent
		cl := mp.Clone()
		if !cl.Equal(mp) {
			rt.Fatalf("clone is not Equal")
		}
		x := mkItem(keccak([]byte("x")), true)
		n := h.Int(rt, 1, 3, "extra")
		if h.Bool(rt, "last") && len(list) > 0 {
			x.v = list[len(list)-1].v
		}
		ext := append([]item{}, list...)
		for i := 0; i < n; i++ {
			cl.Append(common.Hash(x.v), x.left)
			ext = append(ext, x)
		}
		checkProofs(rt, cl, ext, "changed clone")
		checkProofs(rt, mp, list, "origin of a changed clone")
		if cl.Equal(mp) || mp.Equal(cl) {
			rt.Fatalf("Equal of different proofs")
		}
		// Equal tells apart
		if len(list) > 0 {
			o := append([]item{}, list...)
			at := h.Int(rt, 0, len(o)-1, "at")
			if h.Bool(rt, "order") {
				o[at].left = !o[at].left
			} else {
				o[at].v[31] ^= 1
			}
			om := common.NewMerkleProofs()
			for _, it := range o {
				om.Append(common.Hash(it.v), it.left)
			}
			checkProofs(rt, om, o, "altered")
			if om.Equal(mp) || mp.Equal(om) {
				rt.Fatalf("Equal of proofs that differ at %d", at)
			}
		}
		// so does where repeats of the same hash are
		if n := len(list); n >= 2 {
			i := h.Int(rt, 0, n-2, "grow")
			j := h.Int(rt, i+1, n-1, "shrink")
			o := append([]item{}, list[:i+1]...)
			o = append(o, list[i:j]...)
			o = append(o, list[j+1:]...)
			om := common.NewMerkleProofs()
			same := true
			for x, it := range o {
				om.Append(common.Hash(it.v), it.left)
				same = same && it == list[x]
			}
			checkProofs(rt, om, o, "repeated elsewhere")
			if om.Equal(mp) != same || mp.Equal(om) != same {
				rt.Fatalf("Equal of proofs with step %d doubled and step %d left out is not %t", i, j, same)
			}
		}
		var np *common.MerkleProofs
		nb := new(bytes.Buffer)
		if err := np.Serialization(nb); err != nil {
			rt.Fatalf("nil Serialization: %v", err)
		}
		if isnil, err := new(common.MerkleProofs).Deserialization(nb); err != nil || !isnil {
			rt.Fatalf("nil did not come back as nil: %t %v", isnil, err)
		}
	})
}

// Whatever bytes (or JSON) a proof is read from, using it fails cleanly or works.
func TestM02_hostile(t *testing.T) {
	h.Check(t, "altered serialization which was still read", h.N{Quick: 12000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		mp, _ := drawProofs(rt, c, 6)
		buf := new(bytes.Buffer)
		_ = mp.Serialization(buf)
		bs := buf.Bytes()
		x := new(common.MerkleProofs)
		if h.OneIn(rt, 3, "json") {
			js := rapid.SampledFrom([]string{`{}`, `{"hashs":[]}`, `{"hashs":["0x%064d"],"paths":null}`, `{"hashs":["0x%064d"]}`,
				`{"hashs":["0x%064d"],"paths":-1}`, `{"hashs":["0x%064d"],"paths":5,"repeats":[{"i":0,"times":-1}]}`,
				`{"hashs":["0x%064d"],"paths":5,"repeats":[{"i":7,"times":1}]}`,
				`{"hashs":["0x%064d"],"paths":5,"repeats":[{"i":0,"times":1},{"i":0,"times":2}]}`,
				`{"paths":12345,"repeats":[{"i":-3,"times":3}]}`}).Draw(rt, "form")
			if bytes.Contains([]byte(js), []byte("%")) {
				js = fmt.Sprintf(js, h.Int(rt, 0, 99, "n"))
			}
			c.Op("%s", js)
			if json.Unmarshal([]byte(js), x) != nil {
				return
			}
		} else {
			for i := h.Int(rt, 1, 4, "mutations"); i > 0; i-- {
				at := h.Int(rt, 0, len(bs)-1, "at")
				if h.Bool(rt, "tail") {
					at = len(bs) - 1 - at%min(len(bs), 12)
				}
				bs[at] = rapid.SampledFrom([]byte{0, 1, 2, 3, 0x7f, 0x80, 0xff}).Draw(rt, "b")
			}
			c.Op("%x", bs)
			if isnil, err := x.Deserialization(bytes.NewReader(bs)); err != nil || isnil {
				return
			}
		}
		c.NonTrivial(true)
		items, err := x.ToItems()
		r, perr := x.Proof(common.Hash{9})
		if (err == nil) != (perr == nil) {
			rt.Fatalf("ToItems: %v, Proof: %v", err, perr)
		}
		if err == nil {
			want := make([]byte, 32)
			want[0] = 9
			for _, it := range items {
				if it.Order {
					want = keccak(it.Val[:], want)
				} else {
					want = keccak(want, it.Val[:])
				}
			}
			if !bytes.Equal(r, want) {
				rt.Fatalf("Proof leads to %x, the items to %x", r, want)
			}
		}
		for i := -1; i < 8; i++ {
			_, _, _ = x.Get(i)
		}
		if x.Len() < 1<<20 {
			_ = x.BigKey(new(big.Int), 0)
		}
		_ = x.Clone().Equal(x)
		_ = x.String()
		_ = x.InfoString(1)
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Lists at the edge of what the serialized counts can hold: they come back, or are refused.
func TestM02_long(t *testing.T) {
	sizes := []int{65534, 65535, 65536, 65537, 65538, 131072, 140001}
	h.Enum(t, "more than 65535 steps", len(sizes)*4, true, func(t *testing.T, c *h.C, i int) {
		n, form := sizes[i/4], i%4
		c.Op("%d steps, form %d", n, form)
		c.NonTrivial(n > 65535)
		p := common.NewMerkleProofs()
		list := make([]item, 0, n)
		for k := 0; k < n; k++ {
			var v common.Hash
			switch form {
			case 0, 1: // always the same
			case 2: // always another
				v[0], v[1], v[2] = byte(k), byte(k>>8), byte(k>>16)
			case 3: // once another at the end
				if k == n-1 {
					v[0] = 1
				}
			}
			left := form == 1 && k%3 == 0
			p.Append(v, left)
			list = append(list, mkItem(v[:], left))
		}
		buf := new(bytes.Buffer)
		err := p.Serialization(buf)
		if err != nil {
			if n <= 65535 {
				t.Fatalf("%d steps are refused: %v", n, err)
			}
			if _, err := rtl.Marshal(p); err == nil {
				t.Fatalf("Marshal of what Serialization refuses")
			}
		} else {
			back := common.NewMerkleProofs()
			if isnil, err := back.Deserialization(bytes.NewReader(buf.Bytes())); err != nil || isnil {
				t.Fatalf("%d steps: %v", n, err)
			}
			at := 0
			err := back.Iterate(func(val []byte, left bool) error {
				if at >= len(list) || left != list[at].left || !bytes.Equal(val, list[at].v[:]) {
					return fmt.Errorf("step %d is %x %t", at, val, left)
				}
				at++
				return nil
			})
			if err != nil || at != len(list) {
				t.Fatalf("%d steps come back as %d (%v)", n, at, err)
			}
		}
	})
}
