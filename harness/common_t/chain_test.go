package common_t

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	common "github.com/ThinkiumGroup/go-common"
	"github.com/stephenfire/go-rtl"
	"pgregory.net/rapid"

	"verifharness/h"
)

// C04: the chain structure made is one that is valid, and only such are valid.
func TestC04_struct(t *testing.T) {
	defer func() { common.StandAlone = false }()
	h.Check(t, "the main chain or a nil chain is involved", h.N{Quick: 60000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		id, parent := drawChain(rt, "id"), drawChain(rt, "parent")
		if h.OneIn(rt, 3, "nilparent") {
			parent = common.NilChainID
		}
		common.StandAlone = h.OneIn(rt, 4, "alone")
		c.Op("%d of %d alone %t", id, parent, common.StandAlone)
		c.NonTrivial(id.IsMain() || id.IsNil() || parent.IsMain() || parent.IsNil())
		cs, err := common.NewChainStruct(id, parent)
		switch {
		case err != nil:
			if !id.IsNil() && !parent.IsNil() && !id.IsMain() || id.IsMain() && parent.IsNil() {
				rt.Fatalf("chain %d of %d: %v", id, parent, err)
			}
			c.Class("refused")
		case id.IsNil():
			rt.Fatalf("the nil chain is made")
		default:
			if cs.ID != id || cs.ParentID != parent {
				rt.Fatalf("chain %d of %d is made as %s", id, parent, cs)
			}
			if err := cs.Validate(); err != nil {
				rt.Fatalf("chain %s is made but not valid: %v", cs, err)
			}
			mode := common.Shard
			switch {
			case id.IsMain():
				mode = common.Root
			case parent.IsMain(), parent.IsNil():
				mode = common.Branch
			}
			if cs.Mode != mode {
				rt.Fatalf("chain %d of %d is a %s", id, parent, cs.Mode)
			}
			if o := cs.Clone(); o != *cs {
				rt.Fatalf("copy %s of %s", o, cs)
			}
		}
		// any structure
		x := common.ChainStruct{ID: id, ParentID: parent, Mode: common.ChainMode(h.Int(rt, 0x0e, 0x15, "mode"))}
		if h.OneIn(rt, 10, "mode0") {
			x.Mode = 0
		}
		ok := false
		switch x.Mode {
		case common.Root:
			ok = id.IsMain() && parent.IsNil()
		case common.Branch:
			ok = !id.IsMain() && (parent.IsMain() || parent.IsNil() && common.StandAlone)
		case common.Shard:
			ok = !id.IsMain() && !parent.IsMain() && !parent.IsNil()
		}
		if (x.Validate() == nil) != ok && !id.IsNil() {
			rt.Fatalf("%s valid: %v", x, x.Validate())
		}
	})
}

func drawInfos(rt *rapid.T) *common.ChainInfos {
	ci := &common.ChainInfos{
		ChainStruct:    common.ChainStruct{ID: drawChain(rt, "id"), ParentID: drawChain(rt, "parent"), Mode: common.ChainMode(h.Int(rt, 0x10, 0x13, "mode"))},
		SecondCoinId:   common.CoinID(h.Int(rt, 0, 3, "coin")),
		HaveSecondCoin: h.Bool(rt, "second"),
		AdminPubs:      drawSlices(rt, "admins"),
		GenesisCommIds: drawIDs(rt, "comm"),
		Election:       common.ElectionType(h.Int(rt, 0, 5, "election")),
		Syncblock:      h.Bool(rt, "sync"),
		GenesisDatas:   drawIDs(rt, "gdatas"),
		Datas:          drawIDs(rt, "datas"),
		Auditors:       drawIDs(rt, "auditors"),
		Version:        uint16(h.Int(rt, 0, 2, "version")),
	}
	ci.SecondCoinName = rapid.SampledFrom([]string{"", "TKM", "币"}).Draw(rt, "coinname")
	ci.ChainVersion = rapid.SampledFrom([]string{"", "v1"}).Draw(rt, "cv")
	for i, n := 0, h.Int(rt, 0, 3, "boots"); i < n; i++ {
		ci.BootNodes = append(ci.BootNodes, drawServer(rt))
	}
	for i, n := 0, h.Int(rt, 0, 3, "attrs"); i < n; i++ {
		ci.Attributes = append(ci.Attributes, rapid.SampledFrom([]common.ChainAttr{common.AttrNoGas, common.AttrPoC, common.AttrReward}).Draw(rt, "attr"))
	}
	return ci
}

func drawServer(rt *rapid.T) common.Dataserver {
	id := nid(h.Int(rt, 0, 6, "node"))
	if h.OneIn(rt, 3, "letters") {
		id[0] = byte(0xa0 + h.Int(rt, 0, 2, "first"))
	}
	s := hex.EncodeToString(id[:])
	if h.OneIn(rt, 3, "upper") {
		s = strings.ToUpper(s)
	}
	return common.Dataserver{ChainID: uint32(h.Int(rt, 0, 2, "chain")), NodeIDString: s, IP: rapid.SampledFrom([]string{"", "1.2.3.4"}).Draw(rt, "ip"), BasicPort: uint16(h.Int(rt, 0, 1, "port")), ConsensusPort0: 1, ConsensusPort1: uint16(h.Int(rt, 0, 1, "port1")), DataRpcPort: uint16(h.Int(rt, 0, 65535, "rpc"))}
}

// mutate changes one thing in the value, if there is something to change, and says what.
func mutate(rt *rapid.T, v reflect.Value, path string) string {
	switch v.Kind() {
	case reflect.Struct:
		n := v.NumField()
		for k, i := 0, h.Int(rt, 0, n-1, "field"); k < n; k++ {
			f := (i + k) % n
			if p := mutate(rt, v.Field(f), path+"."+v.Type().Field(f).Name); p != "" {
				return p
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return ""
		}
		i := h.Int(rt, 0, v.Len()-1, "elem")
		return mutate(rt, v.Index(i), fmt.Sprintf("%s[%d]", path, i))
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString(v.String() + "x")
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Int:
		v.SetInt(v.Int() ^ 1)
	default:
		return ""
	}
	return path
}

// C04: chain information: copies are separate, the hash is that of the content of its version,
// and it comes back from its serialization.
func TestC04_infos(t *testing.T) {
	h.Check(t, "at least three of the lists have elements", h.N{Quick: 40000, Thorough: 1000000}, func(rt *rapid.T, c *h.C) {
		ci := drawInfos(rt)
		c.Op("%s boots %v comm %d genesis %d auditors %x", ci, ci.BootNodes, len(ci.GenesisCommIds), len(ci.GenesisDatas), last(ci.Auditors))
		lists := 0
		for _, n := range []int{len(ci.BootNodes), len(ci.AdminPubs), len(ci.GenesisCommIds), len(ci.GenesisDatas), len(ci.Datas), len(ci.Attributes), len(ci.Auditors)} {
			if n > 0 {
				lists++
			}
		}
		c.NonTrivial(lists >= 3)
		cl := ci.Clone()
		if !reflect.DeepEqual(cl, ci) {
			rt.Fatalf("the copy of %v is %v", ci, cl)
		}
		h1, err := common.HashObject(ci)
		if err != nil {
			rt.Fatalf("hash: %v", err)
		}
		keep := ci.Clone()
		what := mutate(rt, reflect.ValueOf(cl).Elem(), "")
		if !reflect.DeepEqual(ci, keep) {
			rt.Fatalf("changing %s of a copy changed the original", what)
		}
		h2, err := common.HashObject(cl)
		if err != nil || len(h2) != 32 {
			rt.Fatalf("hash: %v", err)
		}
		changed := true
		switch {
		case strings.HasPrefix(what, ".BootNodes"): // ports and texts run into each other by design
			changed = !bytes.Equal(h1, h2)
		case strings.HasPrefix(what, ".Auditors"), strings.HasPrefix(what, ".Version"):
			changed = ci.Version != 0 || cl.Version != 0
		}
		if changed == bytes.Equal(h1, h2) {
			rt.Fatalf("changing %s (version %d): hash changed %t", what, ci.Version, !bytes.Equal(h1, h2))
		}
		if h3, err := common.HashObject(keep); err != nil || !bytes.Equal(h1, h3) {
			rt.Fatalf("the copy has another hash")
		}
		if h3 := common.EncodeHash(keep); !bytes.Equal(h1, h3[:]) {
			rt.Fatalf("EncodeHash gives %x, not %x", h3, h1)
		}
		bs, err := rtl.Marshal(ci)
		if err != nil {
			rt.Fatalf("serialized: %v", err)
		}
		back := new(common.ChainInfos)
		if err := rtl.Unmarshal(bs, back); err != nil {
			rt.Fatalf("%v from its serialization: %v", ci, err)
		}
		if h3, err := common.HashObject(back); err != nil || !bytes.Equal(h1, h3) || fmt.Sprint(back) != fmt.Sprint(ci) {
			rt.Fatalf("%v comes back as %v", ci, back)
		}
		js, err := json.Marshal(ci)
		if err != nil {
			rt.Fatalf("in JSON: %v", err)
		}
		back = new(common.ChainInfos)
		if err := json.Unmarshal(js, back); err != nil {
			rt.Fatalf("from JSON: %v", err)
		}
		if !reflect.DeepEqual(back, ci) {
			rt.Fatalf("%s read from JSON is %v", js, back)
		}
	})
}

// C04: nodes of a chain: adding, removing and finding.
func TestC04_nodes(t *testing.T) {
	h.Check(t, "a node is added that is there, or removed and added again", h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		ci := &common.ChainInfos{GenesisDatas: drawIDs(rt, "genesis"), Auditors: drawIDs(rt, "auditors")}
		datas := map[common.NodeID]bool{}
		boots := map[common.NodeID]common.Dataserver{}
		seen := map[string]bool{}
		again := false
		n := h.Int(rt, 1, 14, "n")
		for i := 0; i < n; i++ {
			s := drawServer(rt)
			id, err := s.GetNodeID()
			if err != nil {
				rt.Fatalf("%s: %v", s.NodeIDString, err)
			}
			k := h.Int(rt, 0, 5, "op")
			key := fmt.Sprint(k < 2, id)
			switch k {
			case 0:
				c.Op("add boot %s", s.NodeIDString[:2]+s.NodeIDString[126:])
				_, there := boots[*id]
				if ci.AddBootNode(s) == there {
					rt.Fatalf("adding boot node %s: %t", s, there)
				}
				if !there {
					boots[*id] = s
				}
			case 1:
				c.Op("remove boot %s", s.NodeIDString[:2]+s.NodeIDString[126:])
				_, there := boots[*id]
				if len(boots) > 0 && ci.RemoveBootNode(*id) != there || len(boots) == 0 && len(ci.BootNodes) != 0 {
					rt.Fatalf("removing boot node %s: %t", s, !there)
				}
				delete(boots, *id)
			case 2, 3:
				c.Op("add data %x", (*id)[63])
				if ci.AddDataNode(*id) == datas[*id] {
					rt.Fatalf("adding data node %s: there %t", id, datas[*id])
				}
				datas[*id] = true
			case 4:
				c.Op("remove data %x", (*id)[63])
				if len(datas) > 0 && ci.RemoveDataNode(*id) != datas[*id] {
					rt.Fatalf("removing data node %s: there %t", id, datas[*id])
				}
				delete(datas, *id)
			case 5:
				c.Op("sort")
				ci.Sort()
			}
			again = again || k < 5 && seen[key]
			seen[key] = true
			if !common.NodeIDs(ci.GetDataNodes()).Equal(sortedIDs(datas)) {
				rt.Fatalf("the data nodes are %x, not %x", last(ci.Datas), last(sortedIDs(datas)))
			}
			if len(ci.BootNodes) != len(boots) {
				rt.Fatalf("there are %d boot nodes, not %d", len(ci.BootNodes), len(boots))
			}
			for _, b := range ci.BootNodes {
				id, _ := b.GetNodeID()
				if boots[*id] != b {
					rt.Fatalf("boot node %s is not %s", b, boots[*id])
				}
			}
			if ci.HasDataNode(*id) != datas[*id] || (ci.Index(*id) >= 0) != datas[*id] || datas[*id] && ci.Datas[ci.Index(*id)] != *id {
				rt.Fatalf("data node %s is there: %t, at %d", id, ci.HasDataNode(*id), ci.Index(*id))
			}
			all := map[common.NodeID]bool{}
			for _, l := range []common.NodeIDs{ci.GenesisDatas, ci.Datas, ci.Auditors} {
				for _, id := range l {
					all[id] = true
				}
			}
			if got := ci.GetAuditorIds(); !got.Equal(sortedIDs(all)) || len(ci.GetAuditorMap()) != len(all) {
				rt.Fatalf("the auditors are %x", last(got))
			}
			if ci.IsGenesisDataNode(*id) != ci.GenesisDatas.Contains(*id) {
				rt.Fatalf("%s is a genesis node: %t", id, ci.IsGenesisDataNode(*id))
			}
			if (s.Validation() == nil) != (s.IP != "" && s.BasicPort > 0 && s.ConsensusPort0 > 0 && s.ConsensusPort1 > 0) || s.GetRpcAddr() != fmt.Sprintf("%s:%d", s.IP, s.DataRpcPort) {
				rt.Fatalf("%s is valid: %v, at %s", s, s.Validation(), s.GetRpcAddr())
			}
			if cl := s.Clone(); *cl != s || cl == &s {
				rt.Fatalf("copy %s of %s", cl, s)
			}
		}
		c.NonTrivial(again)
	})
}

// C04: sorting brings equal content to one order, and attributes are a sorted set.
func TestC04_sort(t *testing.T) {
	h.Check(t, "the lists are in another order", h.N{Quick: 30000, Thorough: 600000}, func(rt *rapid.T, c *h.C) {
		a := drawInfos(rt)
		b := a.Clone()
		// boot nodes of one chain and id are kept apart: their order is not fixed
		seen := map[string]bool{}
		var bs []common.Dataserver
		for _, s := range a.BootNodes {
			if k := fmt.Sprint(s.ChainID, s.NodeIDString); !seen[k] {
				seen[k] = true
				bs = append(bs, s)
			}
		}
		a.BootNodes = append([]common.Dataserver(nil), bs...)
		b.BootNodes = append([]common.Dataserver(nil), bs...)
		shuffle := func(n int, swap func(i, j int)) {
			for i := n - 1; i > 0; i-- {
				swap(i, h.Int(rt, 0, i, "perm"))
			}
		}
		shuffle(len(b.AdminPubs), func(i, j int) { b.AdminPubs[i], b.AdminPubs[j] = b.AdminPubs[j], b.AdminPubs[i] })
		shuffle(len(b.BootNodes), func(i, j int) { b.BootNodes[i], b.BootNodes[j] = b.BootNodes[j], b.BootNodes[i] })
		shuffle(len(b.GenesisDatas), b.GenesisDatas.Swap)
		shuffle(len(b.Datas), b.Datas.Swap)
		shuffle(len(b.Attributes), b.Attributes.Swap)
		shuffle(len(b.Auditors), b.Auditors.Swap)
		c.Op("%s %s", a, b)
		c.NonTrivial(!reflect.DeepEqual(a, b))
		a.Sort()
		b.Sort()
		// nil and empty admin keys sort the same
		if !sameSlices(a.AdminPubs, b.AdminPubs) {
			rt.Fatalf("sorted admins %x and %x", a.AdminPubs, b.AdminPubs)
		}
		a.AdminPubs = b.AdminPubs
		if !reflect.DeepEqual(a, b) {
			rt.Fatalf("the same content sorts to\n%+v and\n%+v", a, b)
		}
		for _, id := range b.Datas {
			if !b.HasDataNode(id) {
				rt.Fatalf("data node %s is not found after sorting", id)
			}
		}
		// attributes
		var attrs common.ChainAttrs
		model := map[common.ChainAttr]bool{}
		for i, n := 0, h.Int(rt, 0, 5, "adds"); i < n; i++ {
			names := rapid.SliceOfN(rapid.SampledFrom([]string{"poc", "POC", "Reward", "NOGAS", "nogas", "bad", ""}), 0, 3).Draw(rt, "names")
			ok := true
			for _, s := range names {
				ok = ok && s != "bad" && s != ""
			}
			err := (&attrs).AddByName(names...)
			if (err == nil) != ok {
				rt.Fatalf("adding %q: %v", names, err)
			}
			if ok {
				for _, s := range names {
					model[common.ChainAttr(strings.ToUpper(s))] = true
				}
			}
			if len(attrs) != len(model) || !sort.IsSorted(attrs) {
				rt.Fatalf("attributes %v, not %v", attrs, model)
			}
			for at := range model {
				if !attrs.Contains(at) || !at.IsValid() {
					rt.Fatalf("attribute %s is missing in %v", at, attrs)
				}
			}
		}
		m := attrs.ToMap()
		back := common.ChainAttrs(nil).FromMap(m)
		if !reflect.DeepEqual([]string(back.ToStringSlice()), []string(attrs.ToStringSlice())) {
			rt.Fatalf("%v through a map is %v", attrs, back)
		}
		ci := &common.ChainInfos{Attributes: attrs}
		if ci.IsPocChain() != model[common.AttrPoC] || ci.IsRewardChain() != model[common.AttrReward] || ci.HasAttribute(common.AttrNoGas) != model[common.AttrNoGas] {
			rt.Fatalf("attributes of the chain: %v", attrs)
		}
	})
}

// ---- C05 -----------------------------------------------------------------------------------

// C05: every chain of a group sends an account to the same shard, by the front bits of its address.
func TestC05_route(t *testing.T) {
	h.Check(t, "at least three shards, listed in different orders", h.N{Quick: 8000, Thorough: 400000}, func(rt *rapid.T, c *h.C) {
		n := h.Int(rt, 0, 9, "n")
		if h.OneIn(rt, 6, "many") {
			n = rapid.SampledFrom([]int{16, 17, 100, 127, 128, 129, 200, 255, 256}).Draw(rt, "n")
		}
		parent := common.ChainStruct{ID: common.ChainID(h.Int(rt, 0, 3, "parent")), ParentID: 0, Mode: common.Branch}
		ids := map[common.ChainID]bool{}
		var list common.ChainIDs
		base := rapid.SampledFrom([]int{10, 1000, int(common.ReservedMaxChainID) - 5}).Draw(rt, "base")
		for i := 0; len(list) < n; i++ {
			id := common.ChainID(base + i*(1+i%3))
			if id.IsNil() || ids[id] {
				continue
			}
			ids[id] = true
			list = append(list, id)
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		bits := 0
		for 1<<bits < n {
			bits++
		}
		c.Op("%d shards from %d, parent %d", n, base, parent.ID)
		view := func(cur common.ChainID) common.ShardInfo {
			l := list.Clone()
			for i := len(l) - 1; i > 0; i-- {
				l.Swap(i, h.Int(rt, 0, i, "perm"))
			}
			if len(l) > 0 && h.OneIn(rt, 3, "dup") {
				l = append(l, l[0])
			}
			if len(l) > 1 && l[0] == cur && h.Bool(rt, "without") { // the current chain is added by itself
				l = l[1:]
				if common.ChainIDs(l).Len() > 0 && l[len(l)-1] == cur {
					l = l[:len(l)-1]
				}
			}
			keep := l.Clone()
			s := common.NewShardInfo(parent, cur, l)
			if len(l) == n {
				if as := common.NewAccountShards(parent, l); as.GetMaskBits() != uint(bits) {
					rt.Fatalf("%d shards have %d mask bits", n, as.GetMaskBits())
				}
			}
			if !l.Equal(keep) {
				rt.Fatalf("the list was changed from %v to %v", keep, l)
			}
			return s
		}
		var views []common.ShardInfo
		views = append(views, view(parent.ID))
		for i := 0; i < 3 && n > 0; i++ {
			views = append(views, view(list[h.Int(rt, 0, n-1, "cur")]))
		}
		c.NonTrivial(n >= 3)
		for i, s := range views {
			if !common.ChainIDs(s.AllIDs()).Equal(list) && n > 0 || len(s.AllIDs()) != n {
				rt.Fatalf("view %d has shards %v, not %v", i, s.AllIDs(), list)
			}
			if s.GetMaskBits() != uint(bits) {
				rt.Fatalf("%d shards have %d mask bits", n, s.GetMaskBits())
			}
			for j, id := range list {
				if s.Pos(id) != j {
					rt.Fatalf("shard %d is at %d, not %d", id, s.Pos(id), j)
				}
			}
			if cl := s.Clone().AllIDs(); len(cl) > 0 { // a copy of its own
				cl[0]++
				if s.AllIDs()[0] != list[0] || s.Pos(list[0]) != 0 {
					rt.Fatalf("view %d changed with its copy", i)
				}
			}
			if s.Pos(5) != -1 || s.Pos(common.ChainID(1<<31)) != -1 {
				rt.Fatalf("a foreign chain is at %d", s.Pos(5))
			}
		}
		if s := common.NewShardInfo(parent, common.NilChainID, nil); s.LocalID() != parent.ID || len(s.AllIDs()) != 0 {
			rt.Fatalf("a single chain is %v", s)
		}
		for k := 0; k < 6; k++ {
			a := common.BytesToAddress(h.Bytes(rt, 20, 20, "addr"))
			want := parent.ID
			if n > 0 {
				front := int(a[0])<<8 | int(a[1])
				want = list[(front>>(16-bits))%n]
			}
			for i, s := range views {
				if got, got2, got3 := s.ShardTo(a), s.ShardTo(&a), s.Clone().ShardTo(a); got != want || got2 != want || got3 != want {
					rt.Fatalf("view %d of %d shards sends %x to %d %d %d, not %d", i, n, a[:2], got, got2, got3, want)
				}
			}
		}
	})
}

// C05: prefixes of addresses.
func TestC05_bits(t *testing.T) {
	h.Check(t, "the prefix ends within a byte, or the bytes are too short", h.N{Quick: 100000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		bs := h.Roomy(h.Bytes(rt, 0, 21, "bs"))
		idx := h.Int(rt, 0, len(bs)*8+9, "index")
		c.Op("%x %d", bs, idx)
		c.NonTrivial(idx%8 != 7 || idx >= len(bs)*8)
		bit := func(b []byte, i int) bool { return i/8 < len(b) && b[i/8]>>(7-i%8)&1 == 1 }
		p, v := common.BitIndex(idx), common.Bits(bs)
		if v.Bit(p) != bit(bs, idx) {
			rt.Fatalf("bit %d of %x is %t", idx, bs, v.Bit(p))
		}
		n := h.Int(rt, -1, len(bs)*8+9, "n")
		got := v.Bits(n)
		w := n
		if w > len(bs)*8 {
			w = len(bs) * 8
		}
		if w < 0 {
			w = 0
		}
		if len(got) != w {
			rt.Fatalf("the first %d bits of %x are %d", n, bs, len(got))
		}
		for i := range got {
			if got[i] != bit(bs, i) {
				rt.Fatalf("bit %d of the first %d of %x is %t", i, n, bs, got[i])
			}
		}
		if b, ok := v.Byte(idx); ok != (idx < len(bs)) || ok && b != bs[idx] {
			rt.Fatalf("byte %d of %x is %x, %t", idx, bs, b, ok)
		}
		// an address and a shard
		a := common.BytesToAddress(h.Bytes(rt, 20, 20, "addr"))
		val := append([]byte{}, a[:h.Int(rt, 0, 20, "len")]...)
		switch {
		case h.OneIn(rt, 6, "long"):
			val = append(val, h.Bytes(rt, 1, 2, "tail")...)
		case h.Bool(rt, "other") && len(val) > 0:
			at := h.Int(rt, 0, len(val)*8-1, "flip")
			if h.Bool(rt, "near") && idx < len(val)*8 {
				at = idx + h.Int(rt, -1, 1, "by")
			}
			if at >= 0 && at < len(val)*8 {
				val[at/8] ^= 0x80 >> (at % 8)
			}
		}
		s := &common.AddressShard{Index: p, Value: val}
		in := idx < 160 && idx < len(val)*8
		for i := 0; in && i <= idx; i++ {
			in = bit(val, i) == bit(a[:], i)
		}
		if s.IsIn(a) != in {
			rt.Fatalf("address %x in shard %x to bit %d: %t", a, val, idx, !in)
		}
		if s.IsValid() != (idx < 160 && idx < len(val)*8) {
			rt.Fatalf("shard %x to bit %d is valid: %t", val, idx, s.IsValid())
		}
		var none *common.AddressShard
		if none.IsIn(a) || none.IsValid() || (&common.AddressShard{Index: -1, Value: val}).IsValid() || (&common.AddressShard{Index: -1, Value: val}).IsIn(a) || v.Bit(-1) {
			rt.Fatalf("no shard is one")
		}
		b := byte(h.Int(rt, 0, 255, "b"))
		if m := p.Mask(b); m != b&^byte(0xff>>(idx%8+1)) {
			rt.Fatalf("%x masked to bit %d is %x", b, idx%8, m)
		}
	})
}
