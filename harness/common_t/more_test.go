package common_t

import (
	"bytes"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"
	"strings"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"pgregory.net/rapid"

	"verifharness/h"
)

// C01: hashes, copies and texts of eras, epochs, heights and block numbers.
func TestC01_values(t *testing.T) {
	oldB := common.BlocksInEpoch
	defer func() { common.BlocksInEpoch = oldB }()
	h.Check(t, "the two numbers are equal or one of them is nil", h.N{Quick: 40000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		common.BlocksInEpoch = rapid.SampledFrom([]uint64{1, 2, 64, 1000, 100000}).Draw(rt, "B")
		B := common.BlocksInEpoch
		u, o := drawU64(rt, B, "u"), drawU64(rt, B, "o")
		if h.OneIn(rt, 3, "same") {
			o = u
		}
		c.Op("B %d u %d o %d", B, u, o)
		c.NonTrivial(u == o || u == ^uint64(0) || o == ^uint64(0))
		be := func(u uint64) []byte {
			r := make([]byte, 8)
			for i := 0; i < 8; i++ {
				r[7-i] = byte(u >> (8 * uint(i)))
			}
			return r
		}
		e, eo, en := common.EraNum(u), common.EraNum(o), (*common.EraNum)(nil)
		if x := e.Clone(); x == &e || *x != e || en.Clone() != nil {
			rt.Fatalf("copy of era %d: %v", u, x)
		}
		if e.Equal(&eo) != (u == o) || !e.Equal(&e) || e.Equal(nil) || en.Equal(&e) || !en.Equal(nil) {
			rt.Fatalf("eras %d and %d: Equal", u, o)
		}
		if en.Hash() != common.NilHash {
			rt.Fatalf("hash of no era %x", en.Hash())
		}
		eh, oh := e.Hash(), eo.Hash()
		if (eh == oh) != (u == o) || eh == common.NilHash || eh == (common.Hash{}) {
			rt.Fatalf("hashes of eras %d and %d: %x %x", u, o, eh, oh)
		}
		p := common.EpochNum(u)
		if x := p.Clone(); x == &p || *x != p || (*common.EpochNum)(nil).Clone() != nil {
			rt.Fatalf("copy of epoch %d: %v", u, x)
		}
		hh := common.Height(u)
		want := keccak(be(u))
		if v, err := hh.HashValue(); err != nil || !bytes.Equal(v, want) {
			rt.Fatalf("hash of height %d: %x %v, want %x", u, v, err, want)
		}
		if v := hh.Hash(); !bytes.Equal(v[:], want) || (*common.Height)(nil).Hash() != common.NilHash {
			rt.Fatalf("hash of height %d: %x, want %x", u, v, want)
		}
		bn := common.BlockNum(uint32(o))
		wantS := fmt.Sprint(uint32(o))
		if uint32(o) == ^uint32(0) {
			wantS = "<nil>"
		} else if uint64(uint32(o)) >= B {
			wantS = "<NA>"
		}
		if bn.String() != wantS {
			rt.Fatalf("block %d of %d: %q, want %q", uint32(o), B, bn.String(), wantS)
		}
		id := common.ChainID(uint32(u))
		if v, err := id.HashValue(); err != nil || !bytes.Equal(v, keccak(id.Bytes())) || len(id.Bytes()) != 4 {
			rt.Fatalf("hash of chain %d: %x %v", id, v, err)
		}
		if s := (common.CommID(int(uint16(u)))).String(); s != fmt.Sprintf("CommID:%d", uint16(u)) {
			rt.Fatalf("comm id %d: %q", uint16(u), s)
		}
	})
}

// C02: the remaining copies, comparisons and hashes of ids.
func TestC02_copies(t *testing.T) {
	h.Check(t, "the two values are equal or differ in one byte", h.N{Quick: 40000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		a := h.Roomy(h.Bytes(rt, 0, 70, "a"))
		b := append([]byte(nil), a...)
		switch h.Int(rt, 0, 3, "b") {
		case 0:
			if len(b) > 0 {
				b[h.Int(rt, 0, len(b)-1, "at")] ^= byte(h.Int(rt, 1, 255, "x"))
			}
		case 1:
			b = h.Roomy(h.Bytes(rt, 0, 70, "b"))
		}
		c.Op("a %x b %x", a, b)
		c.NonTrivial(len(a) == len(b))
		n := common.BytesToNodeID(a)
		x := n.New()
		if *x != n {
			rt.Fatalf("copy %x of %x", *x, n)
		}
		x[0]++
		if n != common.BytesToNodeID(a) {
			rt.Fatal("a copy shares bytes")
		}
		want := keccak(crop(a, common.NodeIDBytes))
		if v, err := n.HashValue(); err != nil || !bytes.Equal(v, want) {
			rt.Fatalf("hash of node id: %x %v, want %x", v, err, want)
		}
		if v := n.Hash(); !bytes.Equal(v[:], want) {
			rt.Fatalf("hash of node id: %x, want %x", v, want)
		}
		ad := common.BytesToAddress(a)
		cp := ad.Copy()
		if *cp != ad || ad.Value() != ad || (*common.Address)(nil).Value() != (common.Address{}) {
			rt.Fatalf("copy %x of %x", *cp, ad)
		}
		cp[3]++
		if ad != common.BytesToAddress(a) {
			rt.Fatal("a copy shares bytes")
		}
		var na *common.Address
		f := na.ForRLP()
		if f == nil || *f != common.EmptyAddress || f.FromRLP() != nil || na.FromRLP() != nil {
			rt.Fatalf("no address: for rlp %v", f)
		}
		if r := ad.ForRLP().FromRLP(); ad != common.EmptyAddress && (r == nil || *r != ad) {
			rt.Fatalf("address %x through ForRLP: %v", ad, r)
		}
		f[0] = 1
		if common.EmptyAddress != (common.Address{}) {
			rt.Fatal("ForRLP gives the package's own empty address")
		}
		ha, hb := common.BytesToHash(a), common.BytesToHash(b)
		switch h.Int(rt, 0, 5, "special") {
		case 0:
			ha = common.NilHash
		case 1:
			ha = common.EmptyHash
		case 2:
			ha = common.EmptyNodeHash
		}
		if ha.IsNil() != (ha == common.NilHash) || ha.IsEmpty() != (ha == common.EmptyHash) || ha.IsEmptyNode() != (ha == common.EmptyNodeHash) ||
			ha.Invalid() != (ha.IsNil() || ha.IsEmpty() || ha.IsEmptyNode()) {
			rt.Fatalf("%x: nil %t empty %t empty node %t invalid %t", ha, ha.IsNil(), ha.IsEmpty(), ha.IsEmptyNode(), ha.Invalid())
		}
		if ha.TerminalString() != fmt.Sprintf("%x…%x", ha[:3], ha[29:]) {
			rt.Fatalf("%x: %q", ha, ha.TerminalString())
		}
		var nh *common.Hash
		if !ha.SliceEqual(append([]byte(nil), ha[:]...)) || ha.SliceEqual(ha[1:]) || ha.SliceEqual(nil) || !nh.SliceEqual(nil) || nh.SliceEqual(ha[:]) || ha.SliceEqual(hb[:]) != (ha == hb) {
			rt.Fatal("SliceEqual")
		}
		// lists of hashes
		var hs []common.Hash
		k := h.Int(rt, -1, 4, "list")
		if k >= 0 {
			hs = []common.Hash{}
		}
		for i := 0; i < k; i++ {
			hs = append(hs, common.BytesToHash(append([]byte{byte(h.Int(rt, 0, 2, "e"))}, byte(i))))
		}
		cs := common.CopyHashs(hs)
		if (cs == nil) != (hs == nil) || len(cs) != len(hs) || !common.HashsEquals(cs, hs) || !common.HashsEquals(hs, cs) {
			rt.Fatalf("copy %v of %v", cs, hs)
		}
		if hs != nil && (common.HashsEquals(hs, append(common.CopyHashs(hs), common.NilHash)) || common.HashsEquals(append(common.CopyHashs(hs), common.NilHash), hs)) {
			rt.Fatal("a longer list is called equal")
		}
		if len(hs) > 0 {
			i, at := h.Int(rt, 0, len(hs)-1, "i"), h.Int(rt, 0, 31, "at")
			old := hs[i]
			cs[i][at] ^= 0x40
			if hs[i] != old {
				rt.Fatal("a copied list shares its hashes")
			}
			if common.HashsEquals(cs, hs) || common.HashsEquals(hs, cs) {
				rt.Fatalf("lists differing at %d are called equal", i)
			}
			if common.HashsEquals(hs, nil) || common.HashsEquals(nil, hs) {
				rt.Fatal("a list equals no list")
			}
		}
		sa, sb := common.BytesToSeed(a), common.BytesToSeed(b)
		var ns *common.Seed
		if sa.IsZero() != (sa == common.Seed{}) || ns.IsZero() || ns.Hash() != common.NilHash {
			rt.Fatal("zero seeds")
		}
		if v := sa.Hash(); !bytes.Equal(v[:], keccak(crop(a, common.SeedLength))) {
			rt.Fatalf("hash of seed %x", v)
		}
		if sa.Equals(&sb) != (sa == sb) || sa.Equals(nil) || sa.Equals(sb) || sa.Equals(ns) || ns.Equals(&sa) || !ns.Equals(ns) || sa.Equals(7) {
			rt.Fatalf("seeds %x %x: Equals", sa, sb)
		}
	})
	seen := map[string]bool{}
	h.Enum(t, "always", 200, false, func(t *testing.T, c *h.C, i int) {
		{
			n := common.GenerateNodeID()
			var n2 common.NodeID
			var a common.Address
			var s common.Seed
			if err := n2.Generate(); err != nil {
				t.Fatal(err)
			}
			if err := a.Generate(); err != nil {
				t.Fatal(err)
			}
			if err := s.Generate(); err != nil {
				t.Fatal(err)
			}
			g := common.Hash{}.Generate(mrand.New(mrand.NewSource(int64(i))), 32)
			if _, ok := g.Interface().(common.Hash); !ok {
				t.Fatalf("Hash.Generate gives %v", g)
			}
			bs := common.RandomByteSlices(i%5, i)
			if len(bs) != i%5 {
				t.Fatalf("%d random slices for %d", len(bs), i%5)
			}
			for _, b := range bs {
				if len(b) != i {
					t.Fatalf("%d random bytes for %d", len(b), i)
				}
			}
			for _, v := range [][]byte{n[:], n2[:], a[:], s[:], common.RandomBytes(20)} {
				if seen[string(v)] || len(bytes.Trim(v[len(v)-16:], "\x00")) == 0 || len(bytes.Trim(v[:16], "\x00")) == 0 {
					t.Fatalf("generated %x", v)
				}
				seen[string(v)] = true
				c.NonTrivial(true)
			}
		}
	})
}

// C04: classifications and the order of data nodes.
func TestC04_kinds(t *testing.T) {
	h.Check(t, "genesis and other nodes are mixed", h.N{Quick: 20000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		n := h.Len(rt, 12, "n")
		var ds common.DataNodes
		count := map[common.DataNode]int{}
		g := 0
		for i := 0; i < n; i++ {
			d := common.DataNode{IsGenesis: h.Bool(rt, "g"), NodeID: nid(h.Int(rt, 0, 20, "id"))}
			if h.OneIn(rt, 4, "hi") {
				d.NodeID[0] = byte(h.Int(rt, 0, 3, "hi"))
			}
			if d.IsGenesis {
				g++
			}
			ds = append(ds, d)
			count[d]++
		}
		c.Op("%d nodes, %d genesis", n, g)
		c.NonTrivial(g > 0 && g < n)
		sort.Sort(ds)
		for i, d := range ds {
			if d.IsGenesis != (i < g) {
				rt.Fatalf("at %d of %d (%d genesis): %t", i, n, g, d.IsGenesis)
			}
			if i > 0 && ds[i-1].IsGenesis == d.IsGenesis && bytes.Compare(ds[i-1].NodeID[:], d.NodeID[:]) > 0 {
				rt.Fatalf("%x before %x", ds[i-1].NodeID, d.NodeID)
			}
			count[d]--
			if count[d] < 0 {
				rt.Fatalf("%v: not among those sorted", d)
			}
		}
		// networks
		id := nid(1)
		addrs := [5]string{}
		for i := range addrs {
			if h.Bool(rt, "addr") {
				addrs[i] = fmt.Sprintf("h%d:%d", i, h.Int(rt, 1, 9, "port"))
			}
		}
		ni := common.NewNetInfo(&id, addrs[0], addrs[1], addrs[2], addrs[3], addrs[4])
		nets := []common.NetType{common.BasicNet, common.ConsensusNet1, common.ConsensusNet2, common.RootDataNet, common.BranchDataNet}
		names := map[string]bool{}
		set := h.Int(rt, -1, 4, "set")
		if set >= 0 {
			ni.AddAddr(nets[set], &common.Endpoint{NetType: "udp", Address: "new"})
		}
		for i, nt := range nets {
			ep := ni.GetAddr(nt)
			switch {
			case i == set:
				if ep == nil || ep.Network() != "udp" || ep.String() != "new" {
					rt.Fatalf("net %s: %v", nt, ep)
				}
			case addrs[i] == "":
				if ep != nil {
					rt.Fatalf("net %s without address: %v", nt, ep)
				}
			default:
				if ep == nil || ep.Network() != "tcp" || ep.String() != addrs[i] || ep.IsNil() {
					rt.Fatalf("net %s: %v, want %s", nt, ep, addrs[i])
				}
			}
			names[nt.String()] = true
		}
		if len(names) != 5 || !(common.Endpoint{}).IsNil() {
			rt.Fatalf("names of nets: %v", names)
		}
		e := rapid.Uint64().Draw(rt, "epoch")
		a, b := common.ChooseConNetByEpoch(common.EpochNum(e)), common.ChooseConNetByEpoch(common.EpochNum(e+1))
		if a == b || a != common.ChooseConNetByEpoch(common.EpochNum(e+2)) || (a == common.ConsensusNet1) != (e%2 == 0) {
			rt.Fatalf("consensus nets of epochs %d and the next: %s %s", e, a, b)
		}
		// structure of chains
		var no *common.ChainInfos
		ci := drawInfos(rt)
		if no.ReportTo() != common.NilChainID || ci.IsMainChain() != (ci.ID == common.MainChainID) || !bytes.Equal(ci.Key(), ci.ID.Formalize()) {
			rt.Fatalf("chain %d: main %t", ci.ID, ci.IsMainChain())
		}
		wantTo := common.MainChainID
		if ci.ParentID.IsNil() {
			wantTo = common.NilChainID
		}
		if ci.ReportTo() != wantTo {
			rt.Fatalf("chain %d of %d reports to %d", ci.ID, ci.ParentID, ci.ReportTo())
		}
		d := drawServer(rt)
		var s strings.Builder
		fmt.Fprintf(&s, "%d%s%s%d%d%d%d%d%d", d.ChainID, d.NodeIDString, d.IP, d.BasicPort, d.ConsensusPort0, d.ConsensusPort1, d.DataPort0, d.DataPort1, d.DataRpcPort)
		if v, err := d.HashValue(); err != nil || !bytes.Equal(v, keccak([]byte(s.String()))) {
			rt.Fatalf("hash of %v: %x %v", d, v, err)
		}
		d2 := drawServer(rt)
		if h.OneIn(rt, 2, "near") {
			d2 = d
			d2.NodeIDString = drawServer(rt).NodeIDString
		}
		cmp := d.Compare(d2)
		if cmp != -d2.Compare(d) || d.Compare(d) != 0 || (d.ChainID < d2.ChainID && cmp != -1) || (d.ChainID == d2.ChainID && cmp != strings.Compare(d.NodeIDString, d2.NodeIDString)) {
			rt.Fatalf("%v and %v compare as %d", d, d2, cmp)
		}
	})
	h.Enum(t, "the type has a name in the configuration", 1, true, func(t *testing.T, c *h.C, _ int) {
		byName := map[string]common.ElectionType{"VRF": common.ETVrf, "MANAGED": common.ETManagedCommittee}
		for n, et := range byName {
			if g, ok := common.StringToElectionType(n); !ok || g != et || et.Name() != n {
				t.Fatalf("%q: %v %t, name %q", n, g, ok, et.Name())
			}
		}
		for _, n := range []string{"", "vrf", "Managed", "NONE", "VRF ", "FIXED"} {
			if g, ok := common.StringToElectionType(n); ok {
				t.Fatalf("%q is election type %v", n, g)
			}
		}
		seen := map[string]bool{}
		for i := 0; i < 256; i++ {
			et := common.ElectionType(i)
			valid := i == 0 || i == 1 || i == 4
			known := i <= 4
			c.NonTrivial(i == 1 || i == 4)
			if et.IsValid() != valid || et.IsVrf() != (i <= 1) || et.IsManaged() != (i == 4) || et.Exclusiveness() != (known && i > 1) || et.RewardNeeded() != (i <= 1) {
				t.Fatalf("election type %d: valid %t vrf %t managed %t exclusive %t reward %t", i, et.IsValid(), et.IsVrf(), et.IsManaged(), et.Exclusiveness(), et.RewardNeeded())
			}
			if i != 4 && et.Name() != "VRF" || seen[et.String()] {
				t.Fatalf("election type %d: name %q text %q", i, et.Name(), et.String())
			}
			seen[et.String()] = true
		}
	})
}

// C06: numbers and byte strings prepared for RLP, node types of paths.
func TestC06_prepared(t *testing.T) {
	h.Check(t, "the value is missing or empty", h.N{Quick: 10000, Thorough: 500000}, func(rt *rapid.T, c *h.C) {
		var x *big.Int
		var b []byte
		if !h.OneIn(rt, 3, "nil") {
			x = new(big.Int).SetBytes(h.Bytes(rt, 0, 20, "x"))
			if h.Bool(rt, "neg") {
				x.Neg(x)
			}
			b = h.Roomy(h.Bytes(rt, 0, 20, "b"))
		}
		c.Op("%v %x", x, b)
		c.NonTrivial(x == nil || x.Sign() == 0 || len(b) == 0)
		y, d := common.BigIntForRLP(x), common.BytesForRLP(b)
		if y == nil || d == nil || (x == nil && y.Sign() != 0) || (x != nil && (x == y || x.Cmp(y) != 0)) || !bytes.Equal(b, d) {
			rt.Fatalf("for rlp: %v %x", y, d)
		}
		if x != nil {
			y.Add(y, big.NewInt(1))
			if x.Cmp(y) == 0 {
				rt.Fatal("BigIntForRLP shares the number")
			}
		}
		if len(b) > 0 {
			d[0]++
			if bytes.Equal(b, d) {
				rt.Fatal("BytesForRLP shares the bytes")
			}
		}
		path := strings.Repeat("a", h.Int(rt, 0, 3, "p")) + rapid.SampledFrom([]string{"", "/", "/b", "/b/", "//"}).Draw(rt, "tail")
		f := common.FormalizeBasePath(path)
		want := path
		if path == "" {
			want = "./"
		} else if !strings.HasSuffix(path, "/") {
			want += "/"
		}
		id := drawChain(rt, "id")
		if f != want || common.FormalizeBasePath(f) != f || common.DatabasePath(f, id) != fmt.Sprintf("%sdb%d", f, uint32(id)) {
			rt.Fatalf("path %q: %q, database %q", path, f, common.DatabasePath(f, id))
		}
	})
}
