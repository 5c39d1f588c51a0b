package abi_t

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"
	"pgregory.net/rapid"

	"verifharness/h"
)

// topic is the topic of an indexed value.
func (t *at) topic(v *value) common.Hash {
	switch t.k {
	case kBytes, kString:
		return common.BytesToHash(keccak(v.bs))
	case kSlice, kArray, kTuple:
		return common.BytesToHash(keccak(t.enc(v)))
	}
	return common.BytesToHash(t.enc(v))
}

// direct tells whether a topic holds the value itself.
func (t *at) direct() bool { return t.k < kBytes }

func drawEvent(rt *rapid.T) (*entry, []*value) {
	e := &entry{typ: "event", name: "Happened"}
	idx := 0
	for i := h.Int(rt, 0, 5, "args"); i > 0; i-- {
		in := idx < 3 && h.Bool(rt, "indexed")
		depth := 2
		if in && !h.OneIn(rt, 6, "hashed") {
			depth = 0
		}
		t := drawAt(rt, depth)
		if in {
			idx++
			if t.k == kFunc || (depth == 0 && !t.direct()) {
				t = &at{k: kInt, n: 128}
			}
		}
		e.in, e.indexed = append(e.in, t), append(e.indexed, in)
	}
	e.inN = drawNames(rt, len(e.in))
	return e, drawVals(rt, e.in)
}

// A05: an event is decoded with every argument from its own place, wherever the indexed ones are.
func TestA05_event(t *testing.T) {
	h.Check(t, "an event with indexed and other arguments", h.N{Quick: 30000, Thorough: 500000}, func(rt *rapid.T, c *h.C) {
		e, vs := drawEvent(rt)
		js, _ := json.Marshal([]interface{}{e.json()})
		def, err := abi.JSON(bytes.NewReader(js))
		if err != nil {
			rt.Fatalf("%s is refused: %v", js, err)
		}
		ev := def.Events["Happened"]
		topics := []common.Hash{common.BytesToHash(keccak([]byte(e.sig())))}
		var dts []*at
		var dvs []*value
		var dgo []interface{}
		direct := true
		for i, tt := range e.in {
			if e.indexed[i] {
				topics = append(topics, tt.topic(vs[i]))
				direct = direct && tt.direct()
			} else {
				dts, dvs = append(dts, tt), append(dvs, vs[i])
				dgo = append(dgo, tt.goVal(vs[i], ev.Inputs[i].Type.GetType()).Interface())
			}
		}
		data := encSeq(dts, dvs)
		c.Op("%s indexed %v values %s", e.sig(), e.indexed, show(vs))
		c.NonTrivial(len(topics) > 1 && len(dts) > 0)
		c.Class(fmt.Sprintf("indexed=%d direct=%t", len(topics)-1, direct))

		if len(dts) > 0 {
			got, err := def.PackEventArgs("Happened", dgo...)
			if err != nil || !bytes.Equal(got, data) {
				rt.Fatalf("the event data %s pack to %x (%v)", show(dvs), got, err)
			}
		}
		// the values of the data alone, which are those not indexed
		if len(dts) > 0 {
			list, err := def.Unpack("Happened", data)
			if err != nil {
				rt.Fatalf("Unpack of the event data: %v", err)
			}
			if bv, err := fromGos(dts, list); err != nil || len(list) != len(dts) || !eqs(dts, bv, dvs) {
				rt.Fatalf("Unpack of the event data gives %v (%v), not %s", list, err, show(dvs))
			}
			mp := map[string]interface{}{}
			if err := def.UnpackIntoMap(mp, "Happened", data); err != nil || len(mp) != len(dts) {
				rt.Fatalf("UnpackIntoMap of the event data gives %v, %v", mp, err)
			}
			var fs []reflect.StructField
			var at []int
			for i, tt := range e.in {
				name := ev.Inputs[i].Name
				if e.indexed[i] {
					if _, is := mp[name]; is {
						rt.Fatalf("UnpackIntoMap of the event data has the indexed %s", name)
					}
					continue
				}
				v, err := tt.fromGo(reflect.ValueOf(mp[name]))
				if err != nil || !tt.eq(v, vs[i]) {
					rt.Fatalf("UnpackIntoMap of the event data has %v (%v) for %s", mp[name], err, name)
				}
				fs, at = append(fs, reflect.StructField{Name: abi.ToCamelCase(name), Type: ev.Inputs[i].Type.GetType()}), append(at, i)
			}
			if len(e.in) > 1 {
				dst := reflect.New(reflect.StructOf(fs))
				if err := def.UnpackIntoInterface(dst.Interface(), "Happened", data); err != nil {
					rt.Fatalf("UnpackIntoInterface of the event data: %v", err)
				}
				for k, i := range at {
					v, err := e.in[i].fromGo(dst.Elem().Field(k))
					if err != nil || !e.in[i].eq(v, vs[i]) {
						rt.Fatalf("UnpackIntoInterface of the event data puts %v into %s (%v)", dst.Elem().Field(k).Interface(), fs[k].Name, err)
					}
				}
			}
		} else if list, err := def.Unpack("Happened", nil); err != nil || len(list) != 0 {
			rt.Fatalf("Unpack of no event data gives %v, %v", list, err)
		}
		// the text
		var parts []string
		for i, tt := range e.in {
			if tt.direct() || !e.indexed[i] {
				parts = append(parts, ev.Inputs[i].Name+":"+tt.text(vs[i], ev.Inputs[i].Type.GetType()))
			}
		}
		s, err := def.EventString(topics, data)
		if (err == nil) != direct {
			rt.Fatalf("EventString gives %q, %v", s, err)
		}
		if want := "Happened(" + strings.Join(parts, ", ") + ")"; direct && s != want {
			rt.Fatalf("EventString gives %q, not %q", s, want)
		}
		// the values
		decode := func(topics []common.Hash, data []byte) ([]*value, error) {
			if len(e.in) == 1 {
				dst := reflect.New(ev.Inputs[0].Type.GetType())
				if err := def.UnpackEvent(dst.Interface(), topics, data); err != nil {
					return nil, err
				}
				v, err := e.in[0].fromGo(dst.Elem())
				if err != nil {
					rt.Fatalf("%v", err)
				}
				return []*value{v}, nil
			}
			dst := make([]interface{}, len(e.in))
			if err := def.UnpackEvent(&dst, topics, data); err != nil {
				return nil, err
			}
			bv, err := fromGos(e.in, dst)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			return bv, nil
		}
		single := len(e.in) == 1 && e.in[0].k == kTuple // goes to the first field of a struct
		if !single {
			got, err := decode(topics, data)
			if (err == nil) != direct || direct && !eqs(e.in, got, vs) {
				rt.Fatalf("UnpackEvent gives %s, %v", show(got), err)
			}
		}
		if direct && len(e.in) > 1 {
			var fs []reflect.StructField
			order := perm(rt, len(e.in))
			for _, i := range order {
				fs = append(fs, reflect.StructField{Name: abi.ToCamelCase(ev.Inputs[i].Name), Type: ev.Inputs[i].Type.GetType()})
			}
			dst := reflect.New(reflect.StructOf(fs))
			if err := def.UnpackEvent(dst.Interface(), topics, data); err != nil {
				rt.Fatalf("UnpackEvent into a struct: %v", err)
			}
			for k, i := range order {
				v, err := e.in[i].fromGo(dst.Elem().Field(k))
				if err != nil || !e.in[i].eq(v, vs[i]) {
					rt.Fatalf("UnpackEvent puts %v into %s (%v)", dst.Elem().Field(k).Interface(), fs[k].Name, err)
				}
			}
		}
		if single {
			return
		}
		// what is missing is noticed
		if len(topics) > 1 {
			if got, err := decode(topics[:len(topics)-1], data); err == nil {
				rt.Fatalf("UnpackEvent without the last topic gives %s", show(got))
			}
			if s, err := def.EventString(topics[:len(topics)-1], data); err == nil {
				rt.Fatalf("EventString without the last topic gives %q", s)
			}
		}
		if _, err := decode(nil, data); err == nil {
			rt.Fatalf("UnpackEvent without topics gives no error")
		}
		if _, err := def.EventString(nil, data); err == nil {
			rt.Fatalf("EventString without topics gives no error")
		}
		other := append([]common.Hash{}, topics...)
		other[0][h.Int(rt, 0, 31, "at")] ^= 4
		if _, err := decode(other, data); err == nil {
			rt.Fatalf("UnpackEvent of another event gives no error")
		}
		if direct && len(data) > 0 {
			alt := append([]byte{}, data...)
			alt = alt[:h.Int(rt, 0, len(alt), "cut")]
			if len(alt) > 0 && h.Bool(rt, "flip") {
				alt[h.Int(rt, 0, len(alt)-1, "pos")] ^= byte(1 << uint(h.Int(rt, 0, 7, "bit")))
			}
			want, werr := decSeq(dts, alt)
			if len(alt) == 0 {
				werr = errData
			}
			got, err := decode(topics, alt)
			if (err == nil) != (werr == nil) {
				rt.Fatalf("UnpackEvent of the data %x gives %s, %v instead of %v", alt, show(got), err, werr)
			}
			if err == nil {
				n := 0
				for i, tt := range e.in {
					w := vs[i]
					if !e.indexed[i] {
						w = want.l[n]
						n++
					}
					if !tt.eq(got[i], w) {
						rt.Fatalf("UnpackEvent of the data %x gives %s", alt, show(got))
					}
				}
			}
		}
	})
}

// A05: topics for a filter are those of the events, and come back as the values.
func TestA05_topics(t *testing.T) {
	h.Check(t, "a filter with at least two values", h.N{Quick: 40000, Thorough: 600000}, func(rt *rapid.T, c *h.C) {
		n := h.Int(rt, 1, 3, "args")
		var ts []*at
		var names []string
		for i := 0; i < n; i++ {
			t := drawAt(rt, 0)
			if t.k == kFunc {
				t = &at{k: kUint, n: 256}
			}
			ts = append(ts, t)
			names = append(names, fmt.Sprintf("some_field%d", i))
		}
		args := goArgs(rt, ts, names)
		var query [][]interface{}
		var all [][]*value
		total := 0
		for i, tt := range ts {
			args[i].Indexed = true
			var q []interface{}
			var l []*value
			for k := h.Int(rt, 0, 3, "values"); k > 0; k-- {
				v := drawVal(rt, tt)
				g := tt.goVal(v, args[i].Type.GetType())
				q, l = append(q, g.Interface()), append(l, v)
				if tt.k == kFixed && tt.n == 32 && h.Bool(rt, "hash") {
					q[len(q)-1] = common.BytesToHash(v.bs)
				}
				total++
			}
			query, all = append(query, q), append(all, l)
			c.Op("%s %s", tt.sig(), show(l))
		}
		c.NonTrivial(total > 1)
		before := fmt.Sprint(query)
		topics, err := abi.MakeTopics(query...)
		if err != nil || len(topics) != n {
			rt.Fatalf("MakeTopics gives %d positions, %v", len(topics), err)
		}
		if after := fmt.Sprint(query); after != before {
			rt.Fatalf("MakeTopics changed the query from %s to %s", before, after)
		}
		row := make([]common.Hash, n)
		full := true
		for i := range topics {
			if len(topics[i]) != len(all[i]) {
				rt.Fatalf("position %d has %d topics for %d values", i, len(topics[i]), len(all[i]))
			}
			for k, v := range all[i] {
				if topics[i][k] != ts[i].topic(v) {
					rt.Fatalf("the topic of %s %s is %x, not %x", ts[i].sig(), v, topics[i][k][:], ts[i].topic(v))
				}
			}
			if len(topics[i]) == 0 {
				full = false
			} else {
				row[i] = topics[i][0]
			}
		}
		c.Class(fmt.Sprintf("full=%t", full))
		if full {
			mp := map[string]interface{}{}
			if err := abi.ParseTopicsIntoMap(mp, args, row); err != nil || len(mp) != n {
				rt.Fatalf("ParseTopicsIntoMap gives %v, %v", mp, err)
			}
			var fs []reflect.StructField
			for i, a := range args {
				typ := a.Type.GetType()
				if !ts[i].direct() {
					typ = reflect.TypeOf(common.Hash{})
				}
				fs = append(fs, reflect.StructField{Name: abi.ToCamelCase(a.Name), Type: typ})
			}
			dst := reflect.New(reflect.StructOf(fs))
			if err := abi.ParseTopics(dst.Interface(), args, row); err != nil {
				rt.Fatalf("ParseTopics: %v", err)
			}
			for i, tt := range ts {
				for _, got := range []interface{}{mp[names[i]], dst.Elem().Field(i).Interface()} {
					if !tt.direct() {
						if got != row[i] {
							rt.Fatalf("the topic of a %s comes back as %v", tt.sig(), got)
						}
						continue
					}
					v, err := tt.fromGo(reflect.ValueOf(got))
					if err != nil || !tt.eq(v, all[i][0]) {
						rt.Fatalf("the topic of %s %s comes back as %v (%v)", tt.sig(), all[i][0], got, err)
					}
				}
			}
			if err := abi.ParseTopicsIntoMap(mp, args, row[1:]); err == nil {
				rt.Fatalf("a missing topic is not noticed")
			}
			if err := abi.ParseTopicsIntoMap(mp, args, append(row, common.Hash{})); err == nil {
				rt.Fatalf("a topic too many is not noticed")
			}
			k := h.Int(rt, 0, n-1, "plain")
			args[k].Indexed = false
			if err := abi.ParseTopicsIntoMap(mp, args, row); err == nil {
				rt.Fatalf("the topic of an argument that is not indexed is read")
			}
			// hostile topics
			args[k].Indexed = true
			alt := append([]common.Hash{}, row...)
			copy(alt[k][:], fixed(rt, 32))
			mp = map[string]interface{}{}
			err := abi.ParseTopicsIntoMap(mp, args, alt)
			if ts[k].direct() {
				w, werr := ts[k].dec(alt[k][:], 0)
				if (err == nil) != (werr == nil) {
					rt.Fatalf("the topic %x of %s gives %v, %v", alt[k][:], ts[k].sig(), mp[names[k]], err)
				}
				if err == nil {
					v, err := ts[k].fromGo(reflect.ValueOf(mp[names[k]]))
					if err != nil || !ts[k].eq(v, w) {
						rt.Fatalf("the topic %x of %s gives %v", alt[k][:], ts[k].sig(), mp[names[k]])
					}
				}
			}
		}
		// what has no topic is refused
		var nilBig *big.Int
		bad := []interface{}{nil, nilBig, struct{}{}, map[string]int{}, []int{1}, [2]int{}, [33]byte{}, [64]byte{}, 1.5, new(int), [3]bool{}, func() {}}
		b := bad[h.Int(rt, 0, len(bad)-1, "bad")]
		if got, err := abi.MakeTopics([]interface{}{b}); err == nil {
			rt.Fatalf("%T has the topic %x", b, got)
		}
	})
}
