package common_t

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/log"
	cmath "github.com/ThinkiumGroup/go-common/math"
	"github.com/sirupsen/logrus"
	"github.com/stephenfire/go-rtl"
	"golang.org/x/crypto/ripemd160"
	"pgregory.net/rapid"

	"verifharness/h"
)

// ---- C11 -----------------------------------------------------------------------------------

type sha struct{}

func (sha) Hasher() hash.Hash { return sha256.New() }

// C11: the hash functions all give the hash of the bytes put together.
func TestC11_bytes(t *testing.T) {
	h.Check(t, "at least two pieces, one of them empty or long", h.N{Quick: 20000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		in := drawSlices(rt, "in")
		if h.OneIn(rt, 4, "long") {
			in = append(in, bytes.Repeat([]byte{byte(h.Int(rt, 0, 255, "b"))}, rapid.SampledFrom([]int{55, 56, 63, 64, 135, 136, 137, 272, 1000}).Draw(rt, "l")))
		}
		c.Op("%x", in)
		odd := false
		for _, b := range in {
			odd = odd || len(b) == 0 || len(b) > 50
		}
		c.NonTrivial(len(in) > 1 && odd)
		var all []byte
		for _, b := range in {
			all = append(all, b...)
		}
		keep := append([]byte(nil), all...)
		want := keccak(all)
		hp := common.Hash256p(in...)
		he, err := common.Hash256WithError(in...)
		hs, err2 := common.Hash256s(in...)
		h0 := common.Hash256(in...)
		for i, got := range [][]byte{h0[:], hp[:], he[:], hs, common.Hash256NoError(in...), common.SystemHash256(in...), common.SystemHash256(all), common.CipherHash256(common.SystemHashProvider, in...)} {
			if !bytes.Equal(got, want) || err != nil || err2 != nil {
				rt.Fatalf("hash %d of %x is %x, not %x: %v %v", i, in, got, want, err, err2)
			}
		}
		if w := sha256.Sum256(all); !bytes.Equal(common.CipherHash256(sha{}, in...), w[:]) {
			rt.Fatalf("hash of %x with another function is %x", in, common.CipherHash256(sha{}, in...))
		}
		md := ripemd160.New()
		md.Write(all)
		if got := common.HashRipemd160(all); !bytes.Equal(got, md.Sum(nil)) {
			rt.Fatalf("ripemd160 of %x is %x", all, got)
		}
		if !bytes.Equal(all, keep) {
			rt.Fatalf("hashing changed the data")
		}
		for i, b := range common.SlicesToHashs(in) {
			if !bytes.Equal(b, keccak(in[i])) {
				rt.Fatalf("hash %d of the list is %x", i, b)
			}
		}
		a, b := keccak([]byte{1}), want
		if !bytes.Equal(common.HashPair(a, b), keccak(a, b)) {
			rt.Fatalf("hash of a pair")
		}
		ab, _ := common.HashPairOrder(true, a, b)
		ba, _ := common.HashPairOrder(false, a, b)
		if !bytes.Equal(ab, keccak(a, b)) || !bytes.Equal(ba, keccak(b, a)) {
			rt.Fatalf("hash of an ordered pair")
		}
		id, ht := drawChain(rt, "chain"), common.Height(rapid.Uint64().Draw(rt, "height"))
		buf := common.ToHeaderPosHashBuffer(id, ht)
		before := buf
		idx := byte(h.Int(rt, 0, 255, "index"))
		var w [13]byte
		binary.BigEndian.PutUint32(w[:], uint32(id))
		binary.BigEndian.PutUint64(w[4:], uint64(ht))
		if buf != w {
			rt.Fatalf("position of %d %d is %x", id, ht, buf)
		}
		w[12] = idx
		if got := common.HeaderIndexHash(buf, idx); !bytes.Equal(got, keccak(w[:])) || buf != before {
			rt.Fatalf("hash of part %d of %x is %x", idx, buf, got)
		}
		// nothing and the hash of nothing are the same hash
		pick := func(n string) []byte {
			switch h.Int(rt, 0, 5, n) {
			case 0:
				return nil
			case 1:
				return []byte{}
			case 2:
				return keccak()
			case 3:
				return make([]byte, 32)
			case 4:
				return want
			}
			return keccak([]byte{2})
		}
		x, y := pick("x"), pick("y")
		isNil := func(b []byte) bool { return len(b) == 0 || bytes.Equal(b, keccak()) }
		if common.IsNilHash(x) != isNil(x) || common.HashSliceEquals(x, y) != (isNil(x) && isNil(y) || bytes.Equal(x, y)) {
			rt.Fatalf("%x is nil: %t; equals %x: %t", x, common.IsNilHash(x), y, common.HashSliceEquals(x, y))
		}
		ptr := func(b []byte) *common.Hash {
			if b == nil {
				return nil
			}
			if len(b) == 0 {
				b = keccak()
			}
			return common.BytesToHashP(b)
		}
		if common.HashEquals(ptr(x), ptr(y)) != (isNil(x) && isNil(y) || bytes.Equal(x, y)) {
			rt.Fatalf("%x equals %x: %t", x, y, common.HashEquals(ptr(x), ptr(y)))
		}
		if common.InvalidHash(x) != (isNil(x) || bytes.Equal(x, make([]byte, 32)) || bytes.Equal(x, common.EmptyNodeHashSlice)) {
			rt.Fatalf("%x is invalid: %t", x, common.InvalidHash(x))
		}
	})
}

// The serialization (go-rtl) writes maps in the order Go walks them, so only maps with one entry
// have a hash of their own.
type inner struct {
	A uint16
	B []byte
	M map[string]uint32
}

type thing struct {
	N    uint64
	S    string
	B    []byte
	Flag bool
	Arr  [3]uint8
	Big  *big.Int
	Ids  []common.Hash
	Addr *common.Address
	H    common.Height
	In   inner
	Ins  []inner
	P    *inner
	M    map[uint32]string
}

func drawInner(rt *rapid.T) inner {
	in := inner{A: uint16(h.Int(rt, 0, 3, "a")), B: h.Bytes(rt, 0, 3, "bytes")}
	if h.Bool(rt, "map") {
		in.M = map[string]uint32{}
		in.M[fmt.Sprint("k", h.Int(rt, 0, 20, "key"))] = uint32(h.Int(rt, 0, 300, "val"))
	}
	return in
}

func drawThing(rt *rapid.T) thing {
	v := thing{N: rapid.Uint64().Draw(rt, "n"), S: rapid.SampledFrom([]string{"", "a", "ab", "é"}).Draw(rt, "s"), B: h.Bytes(rt, 0, 4, "b"), Flag: h.Bool(rt, "flag"), H: common.Height(h.Int(rt, 0, 300, "h")), In: drawInner(rt)}
	if len(v.B) == 0 { // no bytes come back as none at all
		v.B = nil
	}
	for i := range v.Arr {
		v.Arr[i] = byte(h.Int(rt, 0, 255, "arr"))
	}
	if h.Bool(rt, "big") {
		v.Big = new(big.Int).SetBytes(h.Bytes(rt, 0, 12, "bigb"))
	}
	for i, n := 0, h.Int(rt, 0, 3, "ids"); i < n; i++ {
		v.Ids = append(v.Ids, common.BytesToHash([]byte{byte(h.Int(rt, 0, 9, "id"))}))
	}
	if h.Bool(rt, "addr") {
		v.Addr = common.BytesToAddressP(h.Bytes(rt, 20, 20, "address"))
	}
	for i, n := 0, h.Int(rt, 0, 3, "ins"); i < n; i++ {
		v.Ins = append(v.Ins, drawInner(rt))
	}
	if h.Bool(rt, "p") {
		x := drawInner(rt)
		v.P = &x
	}
	if h.Bool(rt, "m") {
		v.M = map[uint32]string{}
		v.M[uint32(h.Int(rt, 0, 300, "key"))] = fmt.Sprint(h.Int(rt, 0, 9, "val"))
	}
	return v
}

// again builds the same value anew.
func again(v reflect.Value) reflect.Value {
	r := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return r
		}
		if b, ok := v.Interface().(*big.Int); ok {
			return reflect.ValueOf(new(big.Int).Set(b))
		}
		r = reflect.New(v.Type().Elem())
		r.Elem().Set(again(v.Elem()))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.Field(i).Set(again(v.Field(i)))
		}
	case reflect.Slice:
		if v.IsNil() {
			return r
		}
		r = reflect.MakeSlice(v.Type(), v.Len(), v.Len()+1)
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(again(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return r
		}
		r = reflect.MakeMap(v.Type())
		ks := v.MapKeys()
		for i := len(ks) - 1; i >= 0; i-- {
			r.SetMapIndex(ks[i], v.MapIndex(ks[i]))
		}
	default:
		r.Set(v)
	}
	return r
}

type hashed struct{ v []byte }

func (x hashed) HashValue() ([]byte, error) {
	if len(x.v) == 0 {
		return nil, fmt.Errorf("no hash")
	}
	return keccak([]byte("own"), x.v), nil
}

// C11: the hash of an object is that of its serialization: the same for equal objects, however
// they were built, and another for others.
func TestC11_objects(t *testing.T) {
	h.Check(t, "the object has a map or a pointer", h.N{Quick: 8000, Thorough: 600000}, func(rt *rapid.T, c *h.C) {
		v := drawThing(rt)
		c.Op("%+v", v)
		c.NonTrivial(v.M != nil || v.P != nil || v.In.M != nil)
		bs, err := rtl.Marshal(v)
		if err != nil {
			rt.Fatalf("serialized: %v", err)
		}
		want := keccak(bs)
		o := again(reflect.ValueOf(v)).Interface().(thing)
		for i, x := range []interface{}{v, &v, o, &o} {
			h1, err1 := common.HashObject(x)
			h2, err2 := common.EncodeAndHash(x)
			h3 := common.EncodeHash(x)
			if err1 != nil || err2 != nil || !bytes.Equal(h1, h2) || !bytes.Equal(h1, h3[:]) {
				rt.Fatalf("form %d: %x %x %x: %v %v", i, h1, h2, h3, err1, err2)
			}
			if i%2 == 0 && !bytes.Equal(h1, want) {
				rt.Fatalf("form %d has hash %x, not %x", i, h1, want)
			}
		}
		what := mutate(rt, reflect.ValueOf(&o).Elem(), "")
		if what != "" {
			h1, err := common.HashObject(o)
			if err != nil || bytes.Equal(h1, want) {
				rt.Fatalf("changing %s does not change the hash: %v", what, err)
			}
		}
		back := new(thing)
		if err := rtl.Unmarshal(bs, back); err != nil {
			rt.Fatalf("%+v from its serialization: %v", v, err)
		}
		if h1, err := common.HashObject(*back); err != nil || !bytes.Equal(h1, want) {
			rt.Fatalf("%+v comes back as %+v", v, *back)
		}
		// objects that hash themselves
		own := hashed{h.Bytes(rt, 0, 2, "own")}
		h1, err := common.HashObject(own)
		h3 := common.EncodeHash(own)
		if len(own.v) == 0 {
			if err == nil || h3 != (common.Hash{}) {
				rt.Fatalf("an object that fails to hash itself has hash %x", h3)
			}
		} else if w := keccak([]byte("own"), own.v); err != nil || !bytes.Equal(h1, w) || !bytes.Equal(h3[:], w) {
			rt.Fatalf("an object that hashes itself has hash %x: %v", h1, err)
		}
		list := []hashed{{[]byte{1}}, own}
		hs, err := common.ValuesToHashs(list)
		if (err == nil) != (len(own.v) > 0) || err == nil && (len(hs) != 2 || !bytes.Equal(hs[1], h1)) {
			rt.Fatalf("hashes of a list: %x: %v", hs, err)
		}
		if h1, err := common.HashObject(nil); err != nil || !bytes.Equal(h1, keccak()) {
			rt.Fatalf("nothing has hash %x: %v", h1, err)
		}
		if h1, err := common.EncodeAndHash(nil); err != nil || !bytes.Equal(h1, keccak()) {
			rt.Fatalf("nothing has hash %x: %v", h1, err)
		}
		if _, err := common.ValuesToHashs(5); err == nil {
			rt.Fatalf("a number is a list")
		}
	})
}

// ---- C12 -----------------------------------------------------------------------------------

type named byte

// C12: cutting bytes for printing.
func TestC12_cut(t *testing.T) {
	h.Check(t, "empty, or the bounds are out of range", h.N{Quick: 40000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		bs := h.Roomy(h.Bytes(rt, 0, 12, "bs"))
		from, to := h.Int(rt, -3, 15, "from"), h.Int(rt, -3, 15, "to")
		c.Op("%x %d %d", bs, from, to)
		c.NonTrivial(len(bs) == 0 || from < 0 || to < 0 || from >= len(bs) || to > len(bs) || from >= to)
		// the bounds as they are: from is brought to a byte that is there, and one byte is shown at least
		cut := func(l, from, to int) (int, int) {
			if l == 0 {
				return 0, 0
			}
			if from > l-1 {
				from = l - 1
			}
			if from < 0 {
				from = 0
			}
			if to < 0 || to > l {
				to = l
			}
			if to <= from {
				to = from + 1
			}
			return from, to
		}
		f, e := cut(len(bs), from, to)
		want := bs[f:e]
		if got := common.ForPrintSlice(bs, from, to); !bytes.Equal(got, want) || got == nil {
			rt.Fatalf("%x from %d to %d is %x", bs, from, to, got)
		}
		var arr [7]byte
		var arr2 [3]named
		copy(arr[:], bs)
		nm := make([]named, len(bs))
		for i, b := range bs {
			nm[i] = named(b)
			if i < 3 {
				arr2[i] = named(b)
			}
		}
		keep := append([]byte{}, bs...)
		var nilp *[7]byte
		one := func(v interface{}, full []byte) {
			f, e := cut(len(full), from, to)
			if got := common.ForPrint(v, from, to); !bytes.Equal(got, full[f:e]) || got == nil {
				rt.Fatalf("%T %x from %d to %d is %x", v, full, from, to, got)
			}
			f, e = cut(len(full), from, -1)
			if got := common.ForPrint(v, from); !bytes.Equal(got, full[f:e]) {
				rt.Fatalf("%T %x from %d is %x", v, full, from, got)
			}
			f, e = cut(len(full), 0, 5)
			if got := common.ForPrint(v); !bytes.Equal(got, full[f:e]) {
				rt.Fatalf("the start of %T %x is %x", v, full, got)
			}
		}
		s := string(bs)
		one(bs, bs)
		one(&bs, bs)
		one(nm, bs)
		one(arr, arr[:])
		one(&arr, arr[:])
		one(arr2, []byte{byte(arr2[0]), byte(arr2[1]), byte(arr2[2])})
		one(s, bs)
		one(&s, bs)
		one([0]byte{}, nil)
		for _, v := range []interface{}{nil, nilp, []byte(nil), 5, []int{1}, [2]int{}, struct{}{}, true, (*string)(nil), map[string]int{}} {
			one(v, nil)
		}
		hs := common.BytesToHash(bs)
		one(hs, hs[:])
		one(&hs, hs[:])
		if !bytes.Equal(bs, keep) {
			rt.Fatalf("printing changed %x to %x", keep, bs)
		}
		// lists
		list := drawSlices(rt, "list")
		n := h.Int(rt, -1, 6, "n")
		var parts []string
		for _, b := range list {
			f, e := cut(len(b), 0, n)
			parts = append(parts, hex.EncodeToString(b[f:e]))
		}
		if got := common.PrintBytesSlice(list, n); got != "["+strings.Join(parts, ", ")+"]" {
			rt.Fatalf("%x cut to %d is %s", list, n, got)
		}
		ids := make([]common.ChainID, h.Int(rt, 0, 4, "ids"))
		for i := range ids {
			ids[i] = common.ChainID(i * 7)
		}
		k := h.Int(rt, -1, 6, "size")
		w := fmt.Sprint(ids)
		if k > 0 && k < len(ids) {
			w = fmt.Sprint(ids[:k])
		}
		if got := common.ForPrintSliceString(ids, k); got != w {
			rt.Fatalf("%v cut to %d is %s", ids, k, got)
		}
		if got := common.ForPrintSliceString(ids); got != fmt.Sprint(ids) {
			rt.Fatalf("%v is %s", ids, got)
		}
		if common.ForPrintSliceString(nil)+common.ForPrintSliceString(3)+common.ForPrintSliceString([]int(nil)) != "[]" {
			rt.Fatalf("nothing is printed as something")
		}
		// paths
		path := rapid.SampledFrom([]string{"", "/", "a", "a/", "./", "/x/y", "/x//", "é"}).Draw(rt, "path")
		p := common.FormalizeBasePath(path)
		wp := path
		if wp == "" {
			wp = "."
		}
		if !strings.HasSuffix(wp, "/") {
			wp += "/"
		}
		if p != wp || common.FormalizeBasePath(p) != p {
			rt.Fatalf("path %q is %q", path, p)
		}
		a, b := drawChain(rt, "a"), drawChain(rt, "b")
		if (common.DatabasePath(p, a) == common.DatabasePath(p, b)) != (a == b) || common.DatabasePath(p, a) != fmt.Sprintf("%sdb%d", p, uint32(a)) {
			rt.Fatalf("databases of chains %d and %d are in %s and %s", a, b, common.DatabasePath(p, a), common.DatabasePath(p, b))
		}
	})
}

type shown struct{ s string }

func (s shown) String() string { return "S" + s.s }

type informed struct{ s string }

func (s informed) InfoString(l common.IndentLevel) string { return fmt.Sprintf("I%d%s", l, s.s) }

type guarded struct{ s string }

func (s *guarded) String() string {
	if s == nil {
		return "none"
	}
	return "G" + s.s
}

// C12: values are printed element by element at their indentation, nothing panics on nil.
func TestC12_info(t *testing.T) {
	h.Check(t, "a nil pointer is in a list", h.N{Quick: 20000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		l := common.IndentLevel(h.Int(rt, -1, 3, "level"))
		ind := func(l common.IndentLevel) string {
			if l < 0 {
				return ""
			}
			return strings.Repeat("\t", int(l))
		}
		if l.IndentString() != ind(l) {
			rt.Fatalf("indentation %d is %q", l, l.IndentString())
		}
		hasNil := false
		list := func(parts []string) string {
			if len(parts) == 0 {
				return "[]"
			}
			s := "["
			for _, p := range parts {
				s += "\n" + ind(l+1) + p + ","
			}
			return s + "\n" + ind(l) + "]"
		}
		check := func(v interface{}, want string) {
			if got := l.InfoString(v); got != want {
				rt.Fatalf("%T at %d is %q, not %q", v, l, got, want)
			}
		}
		n := h.Int(rt, 0, 4, "n")
		isNil := make([]bool, n)
		for i := range isNil {
			isNil[i] = h.OneIn(rt, 3, "nil")
			hasNil = hasNil || isNil[i]
		}
		c.Op("%d %v", l, isNil)
		c.NonTrivial(hasNil)
		var ptrs []*shown
		var vals []shown
		var infos []informed
		var infop []*informed
		var guards []*guarded
		var any []interface{}
		var hashes []*common.Hash
		var nids []*common.NodeID
		var bss [][]byte
		var strs []string
		parts := map[string][]string{}
		put := func(k, s string) { parts[k] = append(parts[k], s) }
		for i := 0; i < n; i++ {
			s := fmt.Sprint(i)
			vals = append(vals, shown{s})
			put("vals", "S"+s)
			infos = append(infos, informed{s})
			put("infos", fmt.Sprintf("I%d%s", l+1, s))
			strs = append(strs, "x"+s)
			put("strs", "x"+s)
			b := h.Bytes(rt, 0, 3, "b")
			bss = append(bss, b)
			put("bss", "0x"+hex.EncodeToString(b))
			hh := common.BytesToHash(b)
			id := nid(i)
			switch {
			case isNil[i]:
				ptrs, infop, guards, hashes, nids = append(ptrs, nil), append(infop, nil), append(guards, nil), append(hashes, nil), append(nids, nil)
				any = append(any, (*common.Address)(nil))
				put("nil", "<nil>")
				put("ptrs", "<nil>")
				put("infop", "<nil>")
				put("guards", "none")
				put("hashes", "<nil>")
				put("nids", "<nil>")
			default:
				ptrs, infop, guards, hashes, nids = append(ptrs, &shown{s}), append(infop, &informed{s}), append(guards, &guarded{s}), append(hashes, &hh), append(nids, &id)
				any = append(any, &shown{s})
				put("nil", "S"+s)
				put("ptrs", "S"+s)
				put("infop", fmt.Sprintf("I%d%s", l+1, s))
				put("guards", "G"+s)
				put("hashes", hh.String())
				put("nids", id.InfoString(l+1))
			}
		}
		orNil := func(isnil bool, s string) string {
			if isnil {
				return "<nil>"
			}
			return s
		}
		check(ptrs, orNil(ptrs == nil, list(parts["ptrs"])))
		check(vals, orNil(vals == nil, list(parts["vals"])))
		check(infos, orNil(infos == nil, list(parts["infos"])))
		check(infop, orNil(infop == nil, list(parts["infop"])))
		check(guards, orNil(guards == nil, list(parts["guards"])))
		check(any, orNil(any == nil, list(parts["nil"])))
		check(hashes, orNil(hashes == nil, list(parts["hashes"])))
		check(nids, orNil(nids == nil, list(parts["nids"])))
		check(strs, orNil(strs == nil, list(parts["strs"])))
		check(bss, orNil(bss == nil, list(parts["bss"])))
		check(nil, "<nil>")
		check([2]shown{{"a"}, {"b"}}, list([]string{"Sa", "Sb"}))
		check([]shown{}, "[]")
		check(shown{"z"}, "Sz")
		check(informed{"z"}, fmt.Sprintf("I%dz", l))
		check((*shown)(nil), "<nil>")
		check((*common.Hash)(nil), "<nil>")
		check("text", "text")
		dbl := "<nil>"
		if bss != nil {
			dbl = "["
			for _, b := range bss {
				dbl += "\n" + ind(l) + "\t" + hex.EncodeToString(b) + ","
			}
			dbl += "\n" + ind(l) + "]"
		}
		if got := l.DoubleByteSlice(bss); got != dbl {
			rt.Fatalf("%x is %q", bss, got)
		}
		// proofs: every hash is shown, however often it repeats
		mp := common.NewMerkleProofs()
		times := 0
		var runs []string
		for i, k := 0, h.Int(rt, 0, 5, "proofs"); i < k; i++ {
			hh := common.BytesToHash([]byte{0xee, byte(i)})
			orders, from := new(big.Int), times
			for r := h.Int(rt, 1, 12, "repeat"); r > 0; r-- {
				left := h.Bool(rt, "left")
				if left {
					orders.SetBit(orders, times-from, 1)
				}
				mp.Append(hh, left)
				times++
			}
			if times > from+1 {
				runs = append(runs, fmt.Sprintf("(F:%d-%d): (0x%s)%x", from, times-1, (*cmath.BigInt)(orders).HexString(), hh[:]))
			}
		}
		text := mp.InfoString(l)
		for _, r := range runs {
			if !strings.Contains(text, r) {
				rt.Fatalf("%s is not in %s", r, text)
			}
		}
		for _, hh := range mp.Hashs {
			if !strings.Contains(text, hex.EncodeToString(hh[:])) || !strings.Contains(mp.String(), hex.EncodeToString(hh[:])) {
				rt.Fatalf("%x is not in %s", hh, text)
			}
		}
		if mp.Len() != times {
			rt.Fatalf("%d hashes of %d", mp.Len(), times)
		}
		hv := common.BytesToHash(h.Bytes(rt, 5, 40, "printed hash"))
		if got := (&hv).PrintString(); got != hex.EncodeToString(hv[:5]) {
			rt.Fatalf("PrintString of %x is %q", hv[:], got)
		}
		// what is nil is printed too
		var ci *common.ChainInfos
		var nilmp *common.MerkleProofs
		var h0 *common.Hash
		var a0 *common.Address
		var e0 *common.EraNum
		var ht0 *common.Height
		var ep0 *common.EpochNum
		var sd0 *common.Seed
		var rp0 *common.RoutinePool
		if p, stack := h.NoPanic(func() {
			_ = fmt.Sprint(ci.String(), nilmp.InfoString(l), nilmp.Summary(), h0.PrintString(), a0.ToString(), e0.String(), ht0.String(), ep0.ToString(), sd0.String(), rp0.String(), common.ChainIDs(nil).String())
			_ = fmt.Sprintf("%v %s %v %s", ci, nilmp, h0, a0)
		}); p != nil {
			rt.Fatalf("printing nil: %v\n%s", p, stack)
		}
	})
}

// ---- C13 -----------------------------------------------------------------------------------

// lines is a writer that takes one entry at a time.
type lines struct {
	mu    sync.Mutex
	in    int
	mixed bool
	got   []string
}

func (w *lines) Write(b []byte) (int, error) {
	w.mu.Lock()
	w.in++
	if w.in > 1 {
		w.mixed = true
	}
	w.mu.Unlock()
	runtime.Gosched()
	w.mu.Lock()
	w.got = append(w.got, string(b))
	w.in--
	w.mu.Unlock()
	return len(b), nil
}

type plain struct{}

func (plain) Format(e *logrus.Entry) ([]byte, error) {
	return []byte(fmt.Sprintf("%s %s %v\n", e.Level, e.Message, len(e.Data))), nil
}

var logLevels = []logrus.Level{logrus.DebugLevel, logrus.InfoLevel, logrus.WarnLevel, logrus.ErrorLevel}

// C13: each entry goes to the file once, and to the console if its level is among those set.
func TestC13_hook(t *testing.T) {
	h.Check(t, "entries of several callers, with a console", h.N{Quick: 3000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		var file, console *lines
		var hook *log.FileAndConsoleHook
		on := map[logrus.Level]bool{}
		var levels []logrus.Level
		for _, l := range logLevels {
			if h.Bool(rt, "level") {
				on[l] = true
				levels = append(levels, l)
			}
		}
		file, console = &lines{}, &lines{}
		hasFile, hasConsole := !h.OneIn(rt, 4, "nofile"), !h.OneIn(rt, 4, "noconsole")
		switch {
		case hasFile && hasConsole:
			hook = log.NewFileAndConsoleHook(plain{}, file, console, levels...)
		case hasFile:
			hook = log.NewFileAndConsoleHook(plain{}, file, nil, levels...)
		case hasConsole:
			hook = log.NewFileAndConsoleHook(plain{}, nil, console, levels...)
		default:
			hook = log.NewFileAndConsoleHook(plain{}, nil, nil, levels...)
		}
		logger := logrus.New()
		logger.SetOutput(&log.EmptyWriter{})
		logger.SetFormatter(plain{})
		logger.SetLevel(logrus.DebugLevel)
		logger.AddHook(hook)
		g := h.Int(rt, 1, 4, "callers")
		c.Op("file %t console %t levels %v", hasFile, hasConsole, levels)
		c.NonTrivial(g > 1 && hasConsole && len(levels) > 0)
		var fns []func() error
		var wantFile, wantConsole []map[string]int
		all, some := map[string]int{}, map[string]int{}
		for i := 0; i < g; i++ {
			i := i
			ls := rapid.SliceOfN(rapid.IntRange(0, 3), 0, 8).Draw(rt, "entries")
			c.Op("caller %v", ls)
			for j, k := range ls {
				line := fmt.Sprintf("%s m%d.%d %d\n", logLevels[k], i, j, 1)
				all[line]++
				if on[logLevels[k]] {
					some[line]++
				}
			}
			fns = append(fns, func() error {
				for j, k := range ls {
					logger.WithField("a", 1).Log(logLevels[k], fmt.Sprintf("m%d.%d", i, j))
				}
				return nil
			})
		}
		wantFile, wantConsole = append(wantFile, all), append(wantConsole, some)
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		same := func(name string, w *lines, has bool, want map[string]int) {
			got := map[string]int{}
			for _, l := range w.got {
				got[l]++
			}
			if !has {
				want = map[string]int{}
			}
			if !reflect.DeepEqual(got, want) {
				rt.Fatalf("the %s has %q, not %q", name, w.got, want)
			}
			if w.mixed {
				rt.Fatalf("entries of the %s are written into each other", name)
			}
			// each caller in order
			at := map[string]int{}
			for _, l := range w.got {
				var lv, m string
				var i, j int
				fmt.Sscanf(l, "%s %s", &lv, &m)
				fmt.Sscanf(m, "m%d.%d", &i, &j)
				if j < at[fmt.Sprint(i)] {
					rt.Fatalf("the %s is not in order: %q", name, w.got)
				}
				at[fmt.Sprint(i)] = j
			}
		}
		same("file", file, hasFile, wantFile[0])
		same("console", console, hasConsole, wantConsole[0])
	})
}

// C13: the log of the program: each entry with its fields is one line of the file.
func TestC13_file(t *testing.T) {
	out := os.Stdout
	defer func() { os.Stdout = out }()
	dir := t.TempDir()
	defer func() { // the program's log goes on to nowhere
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
			log.InitLogWithSuffix(filepath.Join(dir, "after"), "x")
			os.Stdout = out
		}
	}()
	no := 0
	h.Check(t, "fields are given, and several callers log", h.N{Quick: 400, Thorough: 20000}, func(rt *rapid.T, c *h.C) {
		no++
		sub := filepath.Join(dir, fmt.Sprint(no))
		if err := os.Mkdir(sub, 0o700); err != nil {
			rt.Fatalf("%v", err)
		}
		defer os.RemoveAll(sub)
		con, err := os.Create(filepath.Join(sub, "console"))
		if err != nil {
			rt.Fatalf("%v", err)
		}
		defer con.Close()
		node := h.Bytes(rt, 0, 8, "node")
		os.Stdout = con
		log.InitLog(filepath.Join(sub, "log"), node)
		os.Stdout = out
		suffix := "_"
		if n := len(node); n > 0 {
			if n > 5 {
				n = 5
			}
			suffix = hex.EncodeToString(node[:n])
		}
		base := map[string]string{}
		if h.OneIn(rt, 3, "base") {
			base["net"] = fmt.Sprint("b", no)
			log.SetFields(logrus.Fields{"net": base["net"]})
			if h.Bool(rt, "more") { // fields add up
				base["role"] = fmt.Sprint("r", no)
				log.SetFields(logrus.Fields{"role": base["role"]})
			}
			if h.Bool(rt, "again") {
				base["net"] = fmt.Sprint("c", no)
				log.SetFields(logrus.Fields{"net": base["net"]})
			}
		}
		type entry struct {
			level  int
			text   string
			fields map[string]string
		}
		g := h.Int(rt, 1, 4, "callers")
		var fns []func() error
		var want []entry
		withFields := false
		for i := 0; i < g; i++ {
			var mine []func()
			for j, m := 0, h.Int(rt, 0, 5, "entries"); j < m; j++ {
				e := entry{level: h.Int(rt, 0, 3, "level"), text: fmt.Sprintf("<%d.%d.%d>", no, i, j), fields: map[string]string{}}
				kind := h.Int(rt, 0, 6, "kind")
				c.Op("%d: kind %d level %d", i, kind, e.level)
				var vs []interface{}
				fs := logrus.Fields{}
				if kind == 4 || kind == 5 || kind == 6 {
					for k, n := 0, h.Int(rt, 0, 4, "fields"); k < n; k++ {
						name, val := fmt.Sprintf("f%d", h.Int(rt, 0, 5, "name")), fmt.Sprintf("v%d", k)
						if kind == 5 && h.OneIn(rt, 6, "odd") {
							vs = append(vs, k, val) // the name is not text
							continue
						}
						vs = append(vs, name, val)
						fs[name], e.fields[name] = val, val
						withFields = true
					}
					if kind == 5 && h.OneIn(rt, 4, "tail") {
						vs = append(vs, "tail")
					}
				} else {
					for k, v := range base {
						e.fields[k] = v
					}
				}
				want = append(want, e)
				lv, text := e.level, e.text
				mine = append(mine, func() {
					switch kind {
					case 0:
						[]func(...interface{}){log.Debug, log.Info, log.Warn, log.Error}[lv](text)
					case 1, 2:
						[]func(string, ...interface{}){log.Debugf, log.Infof, log.Warnf, log.Errorf}[lv]("%s", text)
					case 3:
						[]func(logrus.FieldLogger, string, ...interface{}){log.MustDebugf, log.MustInfof, log.MustWarnf, log.MustErrorf}[lv](nil, "%s", text)
					case 4, 5:
						l := log.WithField(vs...)
						if kind == 4 {
							l = log.WithFields(fs)
						}
						[]func(string, ...interface{}){l.Debugf, l.Infof, l.Warnf, l.Errorf}[lv]("%s", text)
					case 6:
						[]func(logrus.FieldLogger, string, ...interface{}){log.MustDebugf, log.MustInfof, log.MustWarnf, log.MustErrorf}[lv](log.WithFields(fs), "%s", text)
					}
				})
			}
			fns = append(fns, func() error {
				for _, f := range mine {
					f()
				}
				return nil
			})
		}
		c.NonTrivial(withFields && g > 1)
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		fsl, _ := filepath.Glob(filepath.Join(sub, "log."+suffix+".*"))
		text := ""
		for _, f := range fsl {
			b, err := os.ReadFile(f)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			text += string(b)
		}
		cb, err := os.ReadFile(con.Name())
		if err != nil {
			rt.Fatalf("%v", err)
		}
		check := func(name, text string, min int) {
			n := 0
			all := strings.Split(text, "\n")
			for _, l := range all {
				if strings.Contains(l, "<") {
					n++
				}
			}
			w := 0
			for _, e := range want {
				if e.level < min {
					if strings.Contains(text, e.text) {
						rt.Fatalf("%s is in the %s", e.text, name)
					}
					continue
				}
				w++
				if strings.Count(text, e.text) != 1 {
					rt.Fatalf("%s is in the %s %d times", e.text, name, strings.Count(text, e.text))
				}
				for _, l := range all {
					if !strings.Contains(l, e.text) {
						continue
					}
					if !strings.Contains(l, []string{"DEBU", "INFO", "WARN", "ERRO"}[e.level]) {
						rt.Fatalf("%q is not of level %d", l, e.level)
					}
					fields := strings.Count(l, "=")
					if fields != len(e.fields) {
						rt.Fatalf("%q has %d fields, not %v", l, fields, e.fields)
					}
					for k, v := range e.fields {
						if i := strings.Index(l, k); i < 0 || !strings.HasPrefix(strings.TrimPrefix(l[i+len(k):], "\x1b[0m"), "="+v) {
							rt.Fatalf("%q has no %s=%s", l, k, v)
						}
					}
				}
			}
			if n != w {
				rt.Fatalf("the %s has %d entries, not %d: %q", name, n, w, text)
			}
		}
		check("file", text, 0)
		check("console", string(cb), 1)
	})
}

// C13: the log can be set up anew while others log: each entry is in one of the files.
func TestC13_switch(t *testing.T) {
	out := os.Stdout
	defer func() { os.Stdout = out }()
	dir := t.TempDir()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer func() { // the program's log goes on to nowhere
		os.Stdout = null
		log.InitLogWithSuffix(filepath.Join(dir, "after"), "x")
		os.Stdout = out
	}()
	no := 0
	h.Check(t, "several callers log meanwhile", h.N{Quick: 300, Thorough: 20000}, func(rt *rapid.T, c *h.C) {
		no++
		sub := filepath.Join(dir, fmt.Sprint(no))
		if err := os.Mkdir(sub, 0o700); err != nil {
			rt.Fatalf("%v", err)
		}
		defer os.RemoveAll(sub)
		os.Stdout = null
		defer func() { os.Stdout = out }()
		log.InitLogWithSuffix(filepath.Join(sub, "log"), "first")
		g := h.Int(rt, 1, 4, "callers")
		var fns []func() error
		var want []string
		for i := 0; i < g; i++ {
			i := i
			kinds := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 8).Draw(rt, "kinds")
			c.Op("caller %v", kinds)
			for j := range kinds {
				want = append(want, fmt.Sprintf("<%d.%d.%d>", no, i, j))
			}
			fns = append(fns, func() error {
				for j, k := range kinds {
					text := fmt.Sprintf("<%d.%d.%d>", no, i, j)
					switch k {
					case 0:
						log.Debug(text)
					case 1:
						log.Warnf("%s", text)
					case 2:
						log.WithField("a", j, "b", i).Info(text)
					case 3:
						log.WithFields(logrus.Fields{"a": j}).Error(text)
					case 4:
						log.MustInfof(nil, "%s", text)
					}
				}
				return nil
			})
		}
		switches := rapid.SliceOfN(rapid.IntRange(0, 2), 1, 3).Draw(rt, "switches")
		c.Op("switches %v", switches)
		c.NonTrivial(g > 1)
		fns = append(fns, func() error {
			for i, k := range switches {
				if k == 0 {
					log.SetFields(logrus.Fields{"set": i})
				} else {
					log.InitLogWithSuffix(filepath.Join(sub, "log"), fmt.Sprintf("next%d", i))
				}
			}
			return nil
		})
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		fs, _ := filepath.Glob(filepath.Join(sub, "log.*"))
		text := ""
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			text += string(b)
		}
		if strings.Count(text, "\n") != len(want) {
			rt.Fatalf("%d entries give %q", len(want), text)
		}
		for _, w := range want {
			if strings.Count(text, w) != 1 {
				rt.Fatalf("%s is in the log %d times", w, strings.Count(text, w))
			}
		}
	})
}

// C13: the check log can be used at any time, and after it is set up each entry is in its file.
func TestC13_checklog(t *testing.T) {
	dir := t.TempDir()
	inited := false
	file := ""
	h.Check(t, "after the log is set up, several callers", h.N{Quick: 300, Thorough: 20000}, func(rt *rapid.T, c *h.C) {
		if !inited && !h.Bool(rt, "early") { // once in a program
			inited = true
			log.InitCheckLog(filepath.Join(dir, "log"), h.Bytes(rt, 0, 8, "node"))
			log.CCDebug("first")
			fs, _ := filepath.Glob(filepath.Join(dir, "log.check.*"))
			if len(fs) != 1 {
				rt.Fatalf("files of the check log: %v", fs)
			}
			file = fs[0]
		}
		var before int64
		if file != "" {
			st, err := os.Stat(file)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			before = st.Size()
		}
		g := h.Int(rt, 1, 4, "callers")
		var fns []func() error
		var want []string
		for i := 0; i < g; i++ {
			ks := rapid.SliceOfN(rapid.IntRange(0, 8), 0, 6).Draw(rt, "kinds")
			c.Op("caller %v", ks)
			i := i
			for j, k := range ks {
				want = append(want, fmt.Sprintf("<%d.%d.%d>", i, j, k))
			}
			fns = append(fns, func() error {
				for j, k := range ks {
					text := fmt.Sprintf("<%d.%d.%d>", i, j, k)
					if k < 4 {
						[]func(...interface{}){log.CCDebug, log.CCInfo, log.CCWarn, log.CCError}[k](text)
					} else if k < 8 {
						[]func(string, ...interface{}){log.CCDebugf, log.CCInfof, log.CCWarnf, log.CCErrorf}[k-4]("%s", text)
					} else {
						log.CCWithFields(logrus.Fields{"a": 1}).Info(text)
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		c.NonTrivial(inited && g > 1)
		if file == "" {
			return
		}
		b, err := os.ReadFile(file)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		text := string(b[before:])
		if strings.Count(text, "\n") != len(want) {
			rt.Fatalf("%d entries give %q", len(want), text)
		}
		for _, w := range want {
			if strings.Count(text, w) != 1 {
				rt.Fatalf("%s is in the check log %d times", w, strings.Count(text, w))
			}
		}
	})
}
