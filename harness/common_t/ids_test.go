package common_t

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"pgregory.net/rapid"

	"verifharness/h"
)

// fixed is what the check needs of a fixed length type.
type fixed struct {
	name    string
	n       int
	from    func(b []byte) []byte          // BytesTo...
	set     func(old, b []byte) []byte     // SetBytes on a value that holds old
	text    func(b []byte) ([]byte, error) // MarshalText of the value b
	untext  func(old []byte, in []byte) ([]byte, error)
	json    func(b []byte) ([]byte, error)
	unjson  func(old []byte, in []byte) ([]byte, error)
	mapjson func(b []byte) ([]byte, error)
	unmap   func(in []byte) ([]byte, error)
}

var fixeds = []fixed{
	{"NodeID", common.NodeIDBytes,
		func(b []byte) []byte { x := common.BytesToNodeID(b); return x[:] },
		func(old, b []byte) []byte { var x common.NodeID; copy(x[:], old); x.SetBytes(b); return x[:] },
		func(b []byte) ([]byte, error) { return common.BytesToNodeID(b).MarshalText() },
		func(old, in []byte) ([]byte, error) {
			var x common.NodeID
			copy(x[:], old)
			err := x.UnmarshalText(in)
			return x[:], err
		},
		func(b []byte) ([]byte, error) { return json.Marshal(common.BytesToNodeID(b)) },
		func(old, in []byte) ([]byte, error) {
			var x common.NodeID
			copy(x[:], old)
			err := json.Unmarshal(in, &x)
			return x[:], err
		},
		func(b []byte) ([]byte, error) { return json.Marshal(map[common.NodeID]int{common.BytesToNodeID(b): 1}) },
		func(in []byte) ([]byte, error) {
			var m map[common.NodeID]int
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
	},
	{"Address", common.AddressLength,
		func(b []byte) []byte { x := common.BytesToAddress(b); return x[:] },
		func(old, b []byte) []byte { var x common.Address; copy(x[:], old); x.SetBytes(b); return x[:] },
		func(b []byte) ([]byte, error) { return common.BytesToAddress(b).MarshalText() },
		func(old, in []byte) ([]byte, error) {
			var x common.Address
			copy(x[:], old)
			err := x.UnmarshalText(in)
			return x[:], err
		},
		func(b []byte) ([]byte, error) { return json.Marshal(common.BytesToAddress(b)) },
		func(old, in []byte) ([]byte, error) {
			var x common.Address
			copy(x[:], old)
			err := json.Unmarshal(in, &x)
			return x[:], err
		},
		func(b []byte) ([]byte, error) {
			return json.Marshal(map[common.Address]int{common.BytesToAddress(b): 1})
		},
		func(in []byte) ([]byte, error) {
			var m map[common.Address]int
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
	},
	{"Hash", common.HashLength,
		func(b []byte) []byte { x := common.BytesToHash(b); return x[:] },
		func(old, b []byte) []byte { var x common.Hash; copy(x[:], old); x.SetBytes(b); return x[:] },
		func(b []byte) ([]byte, error) { return common.BytesToHash(b).MarshalText() },
		func(old, in []byte) ([]byte, error) {
			var x common.Hash
			copy(x[:], old)
			err := x.UnmarshalText(in)
			return x[:], err
		},
		func(b []byte) ([]byte, error) { return json.Marshal(common.BytesToHash(b)) },
		func(old, in []byte) ([]byte, error) {
			var x common.Hash
			copy(x[:], old)
			err := json.Unmarshal(in, &x)
			return x[:], err
		},
		func(b []byte) ([]byte, error) { return json.Marshal(map[common.Hash]int{common.BytesToHash(b): 1}) },
		func(in []byte) ([]byte, error) {
			var m map[common.Hash]int
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
	},
	{"Seed", common.SeedLength,
		func(b []byte) []byte { x := common.BytesToSeed(b); return x[:] },
		func(old, b []byte) []byte { var x common.Seed; copy(x[:], old); x.SetBytes(b); return x[:] },
		nil, nil, nil, nil, nil, nil,
	},
}

// crop is the value of fixed length the bytes stand for.
func crop(b []byte, n int) []byte {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return append(make([]byte, n-len(b)), b...)
}

// C02: bytes and text of fixed length values.
func TestC02_text(t *testing.T) {
	h.Check(t, "the bytes do not have the length, or the text is altered", h.N{Quick: 100000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		f := fixeds[h.Int(rt, 0, len(fixeds)-1, "type")]
		b := h.Roomy(h.Bytes(rt, 0, f.n+3, "b"))
		if h.Bool(rt, "exact") {
			b = h.Roomy(h.Bytes(rt, f.n, f.n, "b"))
		}
		old := h.Bytes(rt, f.n, f.n, "old")
		want := crop(b, f.n)
		c.Op("%s %x", f.name, b)
		if got := f.from(b); !bytes.Equal(got, want) {
			rt.Fatalf("%s of %x is %x", f.name, b, got)
		}
		if got := f.set(old, b); !bytes.Equal(got, want) {
			rt.Fatalf("%s %x set to %x is %x", f.name, old, b, got)
		}
		c.NonTrivial(len(b) != f.n)
		if f.text == nil {
			return
		}
		tx, err := f.text(want)
		if err != nil || string(tx) != "0x"+hex.EncodeToString(want) {
			rt.Fatalf("%s %x is written %s, %v", f.name, want, tx, err)
		}
		js, err := f.json(want)
		if err != nil || string(js) != `"`+string(tx)+`"` {
			rt.Fatalf("%s %x is %s in JSON, %v", f.name, want, js, err)
		}
		mj, err := f.mapjson(want)
		if err != nil || string(mj) != `{"`+string(tx)+`":1}` {
			rt.Fatalf("%s %x as a key is %s, %v", f.name, want, mj, err)
		}
		if back, err := f.unmap(mj); err != nil || !bytes.Equal(back, want) {
			rt.Fatalf("key %s is read as %x, %v", mj, back, err)
		}
		// what may be read
		s := string(tx)
		switch h.Int(rt, 0, 7, "alter") {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = s[2:]
		case 2:
			s = s[:len(s)-h.Int(rt, 1, 3, "cut")]
		case 3:
			s += hex.EncodeToString(h.Bytes(rt, 1, 2, "more"))
		case 4:
			i := h.Int(rt, 0, len(s)-1, "at")
			s = s[:i] + rapid.SampledFrom([]string{"g", "G", "x", " ", "é", "@", "/", "F", "0"}).Draw(rt, "ch") + s[i+1:]
		case 5:
			s = rapid.SampledFrom([]string{"", "0x", "0X", "0", "null", "nil"}).Draw(rt, "word")
		}
		ok := len(s) == 2+2*f.n && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
		for i := 2; ok && i < len(s); i++ {
			ok = strings.IndexByte("0123456789abcdefABCDEF", s[i]) >= 0
		}
		c.NonTrivial(s != string(tx))
		var val []byte
		if ok {
			val, _ = hex.DecodeString(s[2:])
		}
		for i, u := range []func() ([]byte, error){
			func() ([]byte, error) { return f.untext(old, []byte(s)) },
			func() ([]byte, error) { q, _ := json.Marshal(s); return f.unjson(old, q) },
		} {
			got, err := u()
			if (err == nil) != ok {
				rt.Fatalf("%s %q (%d): %v", f.name, s, i, err)
			}
			if ok && !bytes.Equal(got, val) || !ok && !bytes.Equal(got, old) {
				rt.Fatalf("%s %x becomes %x by reading %q (%d), %v", f.name, old, got, s, i, err)
			}
		}
		if got, err := f.unjson(old, []byte(rapid.SampledFrom([]string{"1", "true", "[]", "{}", "1e3"}).Draw(rt, "other"))); err == nil || !bytes.Equal(got, old) {
			rt.Fatalf("%s is read from other JSON: %x", f.name, got)
		}
	})
}

// checksummed writes an address with the capitals its hash asks for.
func checksummed(a []byte) string {
	s := []byte(hex.EncodeToString(a))
	k := hex.EncodeToString(keccak(s))
	for i := range s {
		if s[i] >= 'a' && k[i] >= '8' {
			s[i] -= 'a' - 'A'
		}
	}
	return "0x" + string(s)
}

// rlpUint is the encoding of a word.
func rlpUint(u uint64) []byte {
	b := new(big.Int).SetUint64(u).Bytes()
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return append([]byte{byte(0x80 + len(b))}, b...)
}

// C02: addresses and hashes.
func TestC02_address(t *testing.T) {
	h.Check(t, "at least three letters in the address", h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		b := h.Roomy(h.Bytes(rt, 20, 20, "addr"))
		if h.OneIn(rt, 6, "low") {
			for i := 0; i < 19; i++ {
				b[i] = 0
			}
		}
		a := common.BytesToAddress(b)
		c.Op("%x", b)
		want := checksummed(b)
		letters := 0
		for _, r := range want[2:] {
			if r > '9' {
				letters++
			}
		}
		c.NonTrivial(letters >= 3)
		if a.Hex() != want {
			rt.Fatalf("%x is written %s, not %s", b, a.Hex(), want)
		}
		if a.String() != hex.EncodeToString(b) || (&a).ToString() != a.String() {
			rt.Fatalf("%x is %s", b, a)
		}
		for _, s := range []string{want, want[2:], strings.ToLower(want), a.String(), "0X" + want[2:]} {
			if common.HexToAddress(s) != a || !common.IsHexAddress(s) {
				rt.Fatalf("%s is read as %x, is address %t", s, common.HexToAddress(s), common.IsHexAddress(s))
			}
		}
		i := h.Int(rt, 0, len(want)-1, "at")
		bad := want[:i] + rapid.SampledFrom([]string{"", "g", "00", " "}).Draw(rt, "ch") + want[i+1:]
		body := bad
		if len(bad) > 1 && (bad[:2] == "0x" || bad[:2] == "0X") {
			body = bad[2:]
		}
		ok := len(body) == 40 && strings.Trim(body, "0123456789abcdefABCDEF") == ""
		if common.IsHexAddress(bad) != ok {
			rt.Fatalf("%s is an address: %t", bad, !ok)
		}
		if common.BigToAddress(a.Big()) != a || a.Big().Cmp(new(big.Int).SetBytes(b)) != 0 || !bytes.Equal(a.Bytes(), b) {
			rt.Fatalf("%x as a number and back is %x", b, common.BigToAddress(a.Big()))
		}
		ah := a.Hash()
		if !bytes.Equal(ah[:], crop(b, 32)) {
			rt.Fatalf("the hash of %x is %x", b, ah)
		}
		// hashes
		hb := h.Roomy(h.Bytes(rt, 32, 32, "hash"))
		if h.OneIn(rt, 4, "lowh") {
			copy(hb, make([]byte, 31))
		}
		hh := common.BytesToHash(hb)
		if hh.Hex() != "0x"+hex.EncodeToString(hb) || common.HexToHash(hh.Hex()) != hh || common.BigToHash(hh.Big()) != hh || hh.String() != hh.Hex() {
			rt.Fatalf("%x is written %s and read %x", hb, hh.Hex(), common.HexToHash(hh.Hex()))
		}
		// derived addresses
		nonce := drawU64(rt, 1000, "nonce")
		list := append(append([]byte{0x94}, b...), rlpUint(nonce)...)
		if len(rlpUint(nonce)) == 0 {
			list = append(list, 0x80)
		}
		cr := common.CreateAddress(a, nonce)
		if w := keccak(append([]byte{byte(0xc0 + len(list))}, list...))[12:]; !bytes.Equal(cr[:], w) {
			rt.Fatalf("contract %d of %x is %x, not %x", nonce, b, cr, w)
		}
		var salt [32]byte
		copy(salt[:], hb)
		code := h.Roomy(h.Bytes(rt, 0, 40, "code"))
		cr = common.CreateAddress2(a, salt, code)
		if w := keccak([]byte{0xff}, b, salt[:], code)[12:]; !bytes.Equal(cr[:], w) {
			rt.Fatalf("salted contract of %x is %x, not %x", b, cr, w)
		}
		pub := append([]byte{byte(h.Int(rt, 2, 5, "format"))}, h.Bytes(rt, 0, 64, "pub")...)
		pa, err := common.AddressFromPubSlice(pub)
		if (err != nil) != (pub[0] != 4) || err == nil && !bytes.Equal(pa[:], keccak(pub[1:])[12:]) {
			rt.Fatalf("the address of %x is %x, %v", pub, pa, err)
		}
		ci := &common.ChainInfos{AdminPubs: [][]byte{nil, {9}, pub}}
		if ci.AddrIsAdmin(pa) != (err == nil) || !ci.PubIsAdmin(pub) || ci.PubIsAdmin(nil) || ci.PubIsAdmin(append([]byte{1}, pub...)) {
			rt.Fatalf("admin %x: by address %t, by key %t", pub, ci.AddrIsAdmin(pa), ci.PubIsAdmin(pub))
		}
		if _, err := common.AddressFromPubSlice(nil); err == nil {
			rt.Fatalf("no key has an address")
		}
	})
}

// C02: comparing, copying, and the way through RLP of values that may be missing.
func TestC02_pointers(t *testing.T) {
	h.Check(t, "both values are there and share a front part", h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		b1 := h.Bytes(rt, 64, 64, "b1")
		b2 := append([]byte{}, b1...)
		switch h.Int(rt, 0, 3, "how") {
		case 0:
		case 1:
			b2[h.Int(rt, 0, 63, "at")] ^= byte(1 << h.Int(rt, 0, 7, "bit"))
		case 2:
			b2 = h.Bytes(rt, 64, 64, "b2")
		case 3:
			b1, b2 = make([]byte, 64), make([]byte, 64)
		}
		n1, n2 := h.OneIn(rt, 6, "nil1"), h.OneIn(rt, 6, "nil2")
		c.Op("%x %t %x %t", b1, n1, b2, n2)
		c.NonTrivial(!n1 && !n2 && b1[0] == b2[0])
		order := func(w int) int { // expected comparison of the last w bytes
			switch {
			case n1 && n2:
				return 0
			case n1:
				return -1
			case n2:
				return 1
			}
			return bytes.Compare(b1[64-w:], b2[64-w:])
		}
		var d1, d2 *common.NodeID
		var a1, a2 *common.Address
		var h1, h2 *common.Hash
		var s1, s2 *common.Seed
		if !n1 {
			d1, a1, h1, s1 = common.BytesToNodeIDP(b1), common.BytesToAddressP(b1), common.BytesToHashP(b1), common.BytesToSeedP(b1)
		}
		if !n2 {
			d2, a2, h2, s2 = common.BytesToNodeIDP(b2), common.BytesToAddressP(b2), common.BytesToHashP(b2), common.BytesToSeedP(b2)
		}
		if d1.Compare(d2) != order(64) || a1.Cmp(a2) != order(20) {
			rt.Fatalf("compared: %d %d", d1.Compare(d2), a1.Cmp(a2))
		}
		if a1.Equal(a2) != (order(20) == 0) || h1.Equal(h2) != (order(32) == 0) || s1.Equal(s2) != (order(20) == 0) || s1.Equals(s2) != (order(20) == 0) {
			rt.Fatalf("equal: %t %t %t %t", a1.Equal(a2), h1.Equal(h2), s1.Equal(s2), s1.Equals(s2))
		}
		if !n1 && !n2 && common.HashLess(*h1, *h2) != (order(32) < 0) {
			rt.Fatalf("hash before hash: %t", common.HashLess(*h1, *h2))
		}
		// copies
		if cl := d1.Clone(); (cl == nil) != n1 || cl != nil && (cl == d1 || *cl != *d1) {
			rt.Fatalf("copy of %v is %v", d1, cl)
		} else if cl != nil {
			cl[0] ^= 1
		}
		if cl := a1.Clone(); (cl == nil) != n1 || cl != nil && (cl == a1 || *cl != *a1) {
			rt.Fatalf("copy of %v is %v", a1, cl)
		}
		if cl := h1.Clone(); (cl == nil) != n1 || cl != nil && (cl == h1 || *cl != *h1) {
			rt.Fatalf("copy of %v is %v", h1, cl)
		}
		if cl := s1.Clone(); (cl == nil) != n1 || cl != nil && (cl == s1 || *cl != *s1) {
			rt.Fatalf("copy of %v is %v", s1, cl)
		}
		if !n1 && !bytes.Equal(d1.Bytes(), b1) {
			rt.Fatalf("changing a copy changed the id")
		}
		// through RLP: missing and empty are the same
		r := a1.ForRLP()
		if r == nil || r == a1 || n1 && *r != common.EmptyAddress || !n1 && *r != *a1 {
			rt.Fatalf("%v for RLP is %v", a1, r)
		}
		if back := r.FromRLP(); n1 && back != nil || !n1 && *a1 == common.EmptyAddress && back != nil || !n1 && *a1 != common.EmptyAddress && !back.Equal(a1) {
			rt.Fatalf("%v through RLP is %v", a1, back)
		}
		if back := r.FromRLP(); back == r && r != nil {
			rt.Fatalf("FromRLP gives the address itself, not a copy")
		}
		q := h1.ForRLP()
		if q == nil || q == h1 || n1 && *q != common.EmptyHash || !n1 && *q != *h1 {
			rt.Fatalf("%v for RLP is %v", h1, q)
		}
		if back := q.FromRLP(); n1 && back != nil || !n1 && *h1 == common.EmptyHash && back != nil || !n1 && *h1 != common.EmptyHash && !back.Equal(h1) {
			rt.Fatalf("%v through RLP is %v", h1, back)
		}
		if back := q.FromRLP(); back == q && q != nil {
			rt.Fatalf("FromRLP gives the hash itself, not a copy")
		}
		if (a1.Slice() == nil) != n1 || (h1.Slice() == nil) != n1 || (s1.Slice() == nil) != n1 || !n1 && !bytes.Equal(h1.Slice(), b1[32:]) {
			rt.Fatalf("bytes of %v are %x", h1, h1.Slice())
		}
		if !h1.SliceEqual(h1.Slice()) || !n1 && h1.SliceEqual(b1) {
			rt.Fatalf("%v does not equal its bytes", h1)
		}
		// a missing hash counts as the hash of nothing
		eff := func(x *common.Hash) []byte {
			if x == nil {
				return keccak()
			}
			return x[:]
		}
		if h.OneIn(rt, 4, "nilhash") && !n1 {
			*h1 = common.NilHash
		}
		if common.HashEquals(h1, h2) != bytes.Equal(eff(h1), eff(h2)) {
			rt.Fatalf("hashes %v and %v equal: %t", h1, h2, common.HashEquals(h1, h2))
		}
		x, y := []byte{}, h2.Slice()
		if h1 != nil {
			x = h1[:]
		}
		if common.HashSliceEquals(x, y) != bytes.Equal(eff(h1), eff(h2)) || common.IsNilHash(x) != bytes.Equal(eff(h1), keccak()) {
			rt.Fatalf("hashes %x and %x equal: %t", x, y, common.HashSliceEquals(x, y))
		}
	})
}

// C02: lists of ids in one byte string and in text.
func TestC02_lists(t *testing.T) {
	h.Check(t, "at least two ids, or a length that is no multiple", h.N{Quick: 20000, Thorough: 400000}, func(rt *rapid.T, c *h.C) {
		n := h.Int(rt, 0, 5, "n")
		bs := h.Roomy(h.Bytes(rt, n*64, n*64, "ids"))
		if h.OneIn(rt, 30, "many") {
			n = rapid.SampledFrom([]int{16, 17, 33, 65, 130, 257}).Draw(rt, "n")
			bs = nil
			for s := h.Bytes(rt, 4, 4, "seed"); len(bs) < n*64; {
				s = keccak(s)
				bs = append(bs, s...)
			}
			bs = h.Roomy(bs)
		}
		extra := h.Bytes(rt, 0, 3, "extra")
		if h.Bool(rt, "whole") {
			extra = nil
		}
		all := append(append([]byte{}, bs...), extra...)
		c.Op("%x", all)
		c.NonTrivial(n > 1 || len(extra) > 0)
		ids, err := common.ParseBytesToNodeIds(all)
		idbs, err2 := common.ParseBytesToNodeIdBytes(all)
		if (err != nil) != (len(extra) > 0) || (err2 != nil) != (len(extra) > 0) {
			rt.Fatalf("%d bytes of ids: %v %v", len(all), err, err2)
		}
		if err != nil {
			return
		}
		if len(ids) != n || len(idbs) != n || !bytes.Equal(common.PackNodeIdsToBytes(ids), bs) || !bytes.Equal(common.ConcatenateBytes(idbs), bs) {
			rt.Fatalf("%x is read as %x and %x", bs, ids, idbs)
		}
		for i := range all { // what was read is not the caller's bytes
			all[i] ^= 0xff
		}
		if !bytes.Equal(common.PackNodeIdsToBytes(ids), bs) || !bytes.Equal(common.ConcatenateBytes(idbs), bs) {
			rt.Fatalf("the ids read from bytes changed with the bytes")
		}
		hexs := make([]string, n)
		var viaHex common.NodeIDs
		dup := map[common.NodeID]bool{}
		for i, id := range ids {
			hexs[i] = hex.EncodeToString(id[:])
			if err := (&viaHex).AppendByHex(hexs[i]); err != nil {
				rt.Fatalf("%v", err)
			}
			dup[id] = true
		}
		back, err := common.StringsToNodeIDs(hexs)
		if err != nil || !common.NodeIDs(back).Equal(ids) || !viaHex.Equal(ids) {
			rt.Fatalf("%v is read as %x, %v", hexs, back, err)
		}
		if n > 0 {
			i := h.Int(rt, 0, n-1, "which")
			hexs[i] = hexs[i][1:]
			if _, err := common.StringsToNodeIDs(hexs); err == nil {
				rt.Fatalf("an odd text is an id")
			}
			if err := (&viaHex).AppendByHex(hexs[i]); err == nil || len(viaHex) != n {
				rt.Fatalf("an odd text is appended")
			}
			// ids of byte strings: right lengths, no duplicates
			in := cpSlices(idbs)
			bad := len(dup) != n
			switch h.Int(rt, 0, 3, "list") {
			case 0:
				in = append(in, append([]byte{}, in[i]...))
				bad = true
			case 1:
				in[i] = in[i][:63]
				bad = true
			}
			got, err := common.ByteSlicesToNodeIDs(in)
			if (err != nil) != bad || err == nil && !got.Equal(ids) {
				rt.Fatalf("%x is read as %x, %v", in, got, err)
			}
			var hs []common.Hash
			for j, id := range ids {
				if j != i {
					hs = append(hs, id.Hash())
				}
			}
			isIn := false
			for j := range ids {
				isIn = isIn || j != i && ids[j] == ids[i]
			}
			if common.IsNodeIDIn(hs, ids[i]) != isIn || !common.IsNodeIDIn(append(hs, common.BytesToHash(keccak(ids[i][:]))), ids[i]) {
				rt.Fatalf("id %d among hashes: %t", i, !isIn)
			}
		}
	})
}

// ---- C03 -----------------------------------------------------------------------------------

func nid(i int) common.NodeID {
	var n common.NodeID
	n[0], n[63] = byte(i%3), byte(i)
	return n
}

func sortedIDs(m map[common.NodeID]bool) common.NodeIDs {
	r := make(common.NodeIDs, 0, len(m))
	for id := range m {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i][:], r[j][:]) < 0 })
	return r
}

// C03: a set of ids is a set, and its positions and ids belong together.
func TestC03_set(t *testing.T) {
	h.Check(t, "an id that is not the last is deleted, and the set is used afterwards", h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		var in []*common.NodeID
		model := map[common.NodeID]bool{}
		start, pool := h.Len(rt, 6, "start"), 10
		if start > 6 {
			pool = 250
		}
		for i := 0; i < start; i++ {
			id := nid(h.Int(rt, 0, pool-1, "id"))
			in = append(in, &id)
			model[id] = true
			c.Op("start %d", id[63])
		}
		set := common.NewNodeIDSet(in...)
		removed := false
		check := func(what string) {
			if set.Len() != len(model) {
				rt.Fatalf("%s: %d ids, not %d", what, set.Len(), len(model))
			}
			for i := 0; i < set.Len(); i++ {
				id, ok := set.Get(i)
				if !ok || id == nil || !model[*id] {
					rt.Fatalf("%s: at %d is %v, %t", what, i, id, ok)
				}
				if j, ok := set.GetIndex(id); !ok || j != i {
					rt.Fatalf("%s: the id at %d is said to be at %d, %t", what, i, j, ok)
				}
			}
			for i := 0; i < pool; i++ {
				id := nid(i)
				if _, ok := set.GetIndex(&id); ok != model[id] {
					rt.Fatalf("%s: id %d in the set: %t", what, i, ok)
				}
			}
			if _, ok := set.Get(set.Len()); ok {
				rt.Fatalf("%s: there is an id behind the end", what)
			}
			if _, ok := set.Get(-1); ok {
				rt.Fatalf("%s: there is an id before the start", what)
			}
		}
		check("new")
		n := h.Int(rt, 1, 12, "n")
		for i := 0; i < n; i++ {
			k := h.Int(rt, 0, pool-1, "id")
			id := nid(k)
			switch h.Int(rt, 0, 5, "op") {
			case 0, 1:
				c.Op("put %d", k)
				if set.Put(&id) == model[id] {
					rt.Fatalf("putting %d: new %t", k, model[id])
				}
				model[id] = true
			case 2, 3:
				c.Op("delete %d", k)
				j, ok := set.GetIndex(&id)
				set.Delete(&id)
				delete(model, id)
				c.NonTrivial(removed)
				removed = removed || ok && j < len(model)
			case 4:
				c.Op("ids")
				got := set.GetNodeIDs(1)
				if !got.Equal(sortedIDs(model)) || got == nil {
					rt.Fatalf("the ids are %v, not %v", got, sortedIDs(model))
				}
			case 5:
				c.Op("sort")
				sort.Sort(set)
				want := sortedIDs(model)
				for i := range want {
					if x, _ := set.Get(i); *x != want[i] {
						rt.Fatalf("sorted, %v is at %d, not %v", x, i, want[i])
					}
				}
			}
			if set.Put(nil) {
				rt.Fatalf("nothing was put")
			}
			set.Delete(nil)
			check(fmt.Sprintf("after operation %d", i))
		}
	})
}

// C03: a set used from several sides at once.
func TestC03_together(t *testing.T) {
	h.Check(t, "at least two sides change the set", h.N{Quick: 1500, Thorough: 40000}, func(rt *rapid.T, c *h.C) {
		set := common.NewNodeIDSet()
		base := map[common.NodeID]bool{}
		for i := 0; i < 6; i++ {
			id := nid(100 + i)
			set.Put(&id)
			base[id] = true
		}
		writers := h.Int(rt, 1, 3, "writers")
		c.NonTrivial(writers >= 2)
		var fns []func() error
		for w := 0; w < writers; w++ {
			w := w
			seq := rapid.SliceOfN(rapid.IntRange(0, 3), 1, 8).Draw(rt, "seq")
			c.Op("%d: %v", w, seq)
			fns = append(fns, func() error {
				mine := map[common.NodeID]bool{}
				for _, k := range seq { // every writer has ids of its own
					id := nid(w*4 + k)
					if mine[id] {
						if set.Put(&id) {
							return fmt.Errorf("writer %d: id %d was put twice", w, k)
						}
						set.Delete(&id)
						delete(mine, id)
					} else {
						if !set.Put(&id) {
							return fmt.Errorf("writer %d: id %d was there already", w, k)
						}
						mine[id] = true
					}
				}
				for id := range mine {
					set.Delete(&id)
				}
				return nil
			})
		}
		fns = append(fns, func() error {
			for i := 0; i < 6; i++ {
				all := set.GetNodeIDs(0)
				m := all.ToMap()
				if len(m) != len(all) || !sort.SliceIsSorted(all, func(i, j int) bool { return bytes.Compare(all[i][:], all[j][:]) < 0 }) {
					return fmt.Errorf("the ids are %v", all)
				}
				for id := range base {
					if _, ok := m[id]; !ok {
						return fmt.Errorf("id %v is missing for a time", id)
					}
				}
			}
			return nil
		}, func() error {
			for i := 0; i < 12; i++ {
				if id, ok := set.Get(i); ok {
					set.GetIndex(id)
				}
				set.Len()
			}
			return nil
		})
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
		if got := set.GetNodeIDs(0); !got.Equal(sortedIDs(base)) {
			rt.Fatalf("in the end the ids are %v", got)
		}
	})
}

func drawIDs(rt *rapid.T, label string) common.NodeIDs {
	n := h.Int(rt, -1, 6, label)
	if n < 0 {
		return nil
	}
	pool := 8
	if h.OneIn(rt, 40, label+"Many") {
		n, pool = rapid.SampledFrom([]int{16, 17, 33, 65, 130, 257}).Draw(rt, label), 250
	}
	r := make(common.NodeIDs, n)
	for i := range r {
		r[i] = nid(h.Int(rt, 0, pool-1, "id"))
	}
	return r
}

type ident struct{ id common.NodeID }

func (i ident) Priv() []byte            { return nil }
func (i ident) Pub() []byte             { return nil }
func (i ident) NodeID() common.NodeID   { return i.id }
func (i ident) NodeIDP() *common.NodeID { return &i.id }

// C03: lists of ids.
func TestC03_lists(t *testing.T) {
	h.Check(t, "the lists share an id and differ", h.N{Quick: 100000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		a, b := drawIDs(rt, "a"), drawIDs(rt, "b")
		ka, kb := append(common.NodeIDs{}, a...), append(common.NodeIDs{}, b...)
		c.Op("%x %x", last(a), last(b))
		inA, inB, both, left := map[common.NodeID]bool{}, map[common.NodeID]bool{}, map[common.NodeID]bool{}, map[common.NodeID]bool{}
		for _, id := range a {
			inA[id], both[id] = true, true
		}
		for _, id := range b {
			inB[id], both[id] = true, true
		}
		for id := range inA {
			if !inB[id] {
				left[id] = true
			}
		}
		c.NonTrivial(len(left) < len(inA) && len(left) > 0)
		asSet := func(what string, got common.NodeIDs, want map[common.NodeID]bool) {
			s := append(common.NodeIDs{}, got...)
			sort.Sort(s)
			if !s.Equal(sortedIDs(want)) {
				rt.Fatalf("%s of %x and %x is %x", what, last(a), last(b), last(got))
			}
		}
		asSet("the union", a.Union(b), both)
		asSet("the rest", a.Remove(b), left)
		if len(a.ToMap()) != len(inA) {
			rt.Fatalf("%x has %d ids", last(a), len(a.ToMap()))
		}
		for i := 0; i < 8; i++ {
			_, m := a.ToMap()[nid(i)]
			if a.Contains(nid(i)) != inA[nid(i)] || a.IsIn(nid(i)) != inA[nid(i)] || m != inA[nid(i)] {
				rt.Fatalf("%x contains %d: %t", last(a), i, a.Contains(nid(i)))
			}
		}
		eq := len(a) == len(b)
		for i := 0; eq && i < len(a); i++ {
			eq = a[i] == b[i]
		}
		if a.Equal(b) != eq || b.Equal(a) != eq {
			rt.Fatalf("%x equals %x: %t", last(a), last(b), !eq)
		}
		cl, bs := a.Clone(), a.ToBytesSlice()
		if (cl == nil) != (a == nil) || (bs == nil) != (a == nil) || !cl.Equal(a) || len(bs) != len(a) {
			rt.Fatalf("the copy of %x is %x", last(a), last(cl))
		}
		for i := range cl {
			if !bytes.Equal(bs[i], a[i][:]) {
				rt.Fatalf("the bytes of %x are %x", last(a), bs)
			}
			cl[i][5], bs[i][6] = 99, 98
		}
		if !a.Equal(ka) || !b.Equal(kb) {
			rt.Fatalf("the lists were changed to %x %x", last(a), last(b))
		}
		var is []common.NodeIdentifier
		var want common.NodeIDs
		for i, id := range a {
			if i%2 == 1 {
				is = append(is, nil)
			}
			is = append(is, ident{id})
			want = append(want, id)
		}
		if got := common.IdentifiersToNodeIDs(is); !got.Equal(want) {
			rt.Fatalf("the ids of %x are %x", last(a), last(got))
		}
	})
}

// last is a short form of ids.
func last(ids common.NodeIDs) []byte {
	var r []byte
	for _, id := range ids {
		r = append(r, id[63])
	}
	return r
}
