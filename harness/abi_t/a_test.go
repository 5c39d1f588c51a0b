package abi_t

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/ThinkiumGroup/go-common/abi"
	"pgregory.net/rapid"

	"verifharness/h"
)

// variant makes a Go value for v that differs from the type's own one in ways that are allowed:
// pointers, structs with other field order, tags and further fields.
func (t *at) variant(rt *rapid.T, v *value, typ reflect.Type) reflect.Value {
	var out reflect.Value
	switch {
	case t.k == kTuple:
		out = t.structOf(rt, v, typ)
	case (t.k == kSlice || t.k == kArray) && t.el.k == kTuple && len(v.l) > 0:
		// all elements have one type: permute the fields of the element type once
		first := t.el.structOf(rt, v.l[0], typ.Elem())
		var list reflect.Value
		if t.k == kSlice {
			list = reflect.MakeSlice(reflect.SliceOf(first.Type()), len(v.l), len(v.l))
		} else {
			list = reflect.New(reflect.ArrayOf(len(v.l), first.Type())).Elem()
		}
		for i, e := range v.l {
			for j := range t.el.cs {
				f := typ.Elem().Field(j)
				g := fieldFor(first.Type(), f.Name, t.el.name[j])
				list.Index(i).FieldByIndex(g).Set(t.el.cs[j].goVal(e.l[j], f.Type))
			}
		}
		out = list
	default:
		out = t.goVal(v, typ)
	}
	if h.OneIn(rt, 4, "pointer") && !(out.Kind() == reflect.Ptr) {
		p := reflect.New(out.Type())
		p.Elem().Set(out)
		out = p
	}
	return out
}

func fieldFor(st reflect.Type, field, abiName string) []int {
	for i := 0; i < st.NumField(); i++ {
		if st.Field(i).Tag.Get("abi") == abiName {
			return []int{i}
		}
	}
	f, _ := st.FieldByName(field)
	return f.Index
}

// structOf makes a struct value with the fields of the tuple in another order, some of them
// under another name with a tag, and others added.
func (t *at) structOf(rt *rapid.T, v *value, typ reflect.Type) reflect.Value {
	if !distinctCamel(t.name) {
		return t.goVal(v, typ)
	}
	order := perm(rt, len(t.cs))
	var fs []reflect.StructField
	for k, i := range order {
		f := typ.Field(i)
		g := reflect.StructField{Name: f.Name, Type: f.Type}
		if h.OneIn(rt, 4, "tag") {
			g.Name, g.Tag = fmt.Sprintf("Tagged%d", k), reflect.StructTag(fmt.Sprintf(`abi:"%s"`, t.name[i]))
		}
		fs = append(fs, g)
	}
	if h.Bool(rt, "extra") {
		fs = append(fs, reflect.StructField{Name: "Unrelated", Type: reflect.TypeOf(0.5)})
	}
	out := reflect.New(reflect.StructOf(fs)).Elem()
	for k, i := range order {
		out.Field(k).Set(t.cs[i].goVal(v.l[i], fs[k].Type))
	}
	return out
}

func perm(rt *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := h.Int(rt, 0, i, "perm")
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func distinctCamel(names []string) bool {
	seen := map[string]bool{}
	for _, n := range names {
		c := abi.ToCamelCase(n)
		if seen[c] {
			return false
		}
		seen[c] = true
	}
	return true
}

// A01: packing gives the specified bytes, unpacking them the values.
func TestA01_pack(t *testing.T) {
	h.Check(t, "arguments at least one of which is dynamic or composite", h.N{Quick: 30000, Thorough: 500000}, func(rt *rapid.T, c *h.C) {
		ts := drawAts(rt, 1, 4, 3)
		args := goArgs(rt, ts, nil)
		vs := drawVals(rt, ts)
		want := encSeq(ts, vs)
		c.Op("(%s) %s", sigs(ts), show(vs))
		c.NonTrivial(complexTypes(ts) > 0)
		c.Class(fmt.Sprintf("complex=%d", complexTypes(ts)))
		step("packing", func() {
			var gos, vars []interface{}
			for i, t := range ts {
				gos = append(gos, t.goVal(vs[i], args[i].Type.GetType()).Interface())
				vars = append(vars, t.variant(rt, vs[i], args[i].Type.GetType()).Interface())
			}
			got, err := args.Pack(gos...)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("packing gives\n%x (%v), not\n%x", got, err, want)
			}
			got, err = args.PackValues(vars)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("packing %T gives\n%x (%v), not\n%x", vars, got, err, want)
			}
			// unpacking, with anything behind
			data := append([]byte{}, want...)
			if h.OneIn(rt, 3, "more") {
				data = append(data, h.Bytes(rt, 0, 70, "behind")...)
			}
			data = c.Roomy(data)
			back, err := args.Unpack(data)
			if err != nil {
				rt.Fatalf("its own encoding is refused: %v", err)
			}
			bv, err := fromGos(ts, back)
			if err != nil || !eqs(ts, bv, vs) {
				rt.Fatalf("unpacking gives %s (%v)", show(bv), err)
			}
			// what came out can be put in
			got, err = args.Pack(back...)
			if err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("packing the unpacked values gives\n%x (%v), not\n%x", got, err, want)
			}
			if len(ts) > 0 {
				if _, err := args.Pack(gos[1:]...); err == nil {
					rt.Fatalf("one argument too few is accepted")
				}
				if _, err := args.Pack(append(append([]interface{}{}, gos...), gos[0])...); err == nil {
					rt.Fatalf("one argument too many is accepted")
				}
			}
		})
	})
}

var badLeaf = []interface{}{nil, (*big.Int)(nil), "x", uint8(1), int16(-1), uint64(7), 3, 0.5, true, []byte{1, 2}, [3]byte{1}, [19]byte{}, [21]byte{},
	[33]byte{}, [20]uint16{}, [24]int8{}, [40]byte{}, []string{"a"}, []interface{}{1}, map[string]int{}, struct{ A int }{1}, struct{}{}, (*string)(nil), (*[20]byte)(nil),
	(*[]byte)(nil), []*big.Int{nil}, [][]byte{nil, {1}}, func() {}, (*struct{ A *big.Int })(nil), new(interface{}), big.Int{}, []big.Int{{}}, []uint16{1}, [2]*big.Int{},
	[1]uint8{9}, [1]string{"s"}, [][]uint8{}, []bool{true}, []int8{1}}

// fits tells whether a Go value is one a value of the type may be given as.
func (t *at) fits(rv reflect.Value) bool {
	for rv.IsValid() && rv.Kind() == reflect.Ptr && rv.Type() != reflect.TypeOf((*big.Int)(nil)) {
		rv = rv.Elem()
	}
	if !rv.IsValid() {
		return false
	}
	switch t.k {
	case kUint, kInt:
		if !t.native() {
			return rv.Type() == reflect.TypeOf((*big.Int)(nil)) && !rv.IsNil()
		}
		want := map[int][2]reflect.Kind{8: {reflect.Uint8, reflect.Int8}, 16: {reflect.Uint16, reflect.Int16}, 32: {reflect.Uint32, reflect.Int32}, 64: {reflect.Uint64, reflect.Int64}}
		return rv.Kind() == want[t.n][t.k]
	case kBool:
		return rv.Kind() == reflect.Bool
	case kString:
		return rv.Kind() == reflect.String
	case kBytes:
		return rv.Type() == reflect.TypeOf([]byte{})
	case kAddr, kFixed, kFunc:
		n := map[kind]int{kAddr: 20, kFunc: 24, kFixed: t.n}[t.k]
		return rv.Kind() == reflect.Array && rv.Type().Elem().Kind() == reflect.Uint8 && rv.Len() == n
	case kSlice, kArray:
		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array || t.k == kArray && rv.Len() != t.n {
			return false
		}
		for i := 0; i < rv.Len(); i++ {
			if !t.el.fits(rv.Index(i)) {
				return false
			}
		}
		return true
	}
	return rv.Kind() == reflect.Struct // its fields: not among the bad ones
}

// A01: a Go value that is none of the type is refused, not packed as something else and no crash.
func TestA01_wrong(t *testing.T) {
	h.Check(t, "a value of the wrong Go type", h.N{Quick: 20000, Thorough: 300000}, func(rt *rapid.T, c *h.C) {
		ts := []*at{drawAt(rt, 2)}
		args := goArgs(rt, ts, nil)
		bad := rapid.SampledFrom(badLeaf).Draw(rt, "bad")
		tt := ts[0]
		var arg interface{} = bad
		c.Op("%s from %T", tt.sig(), bad)
		within := h.Bool(rt, "within")
		if within && (tt.k == kTuple) && distinctCamel(tt.name) {
			// one field of another type
			v := drawVal(rt, tt)
			rty := args[0].Type.GetType()
			var fs []reflect.StructField
			k := h.Int(rt, 0, len(tt.cs)-1, "field")
			for i := range tt.cs {
				f := reflect.StructField{Name: rty.Field(i).Name, Type: rty.Field(i).Type}
				if i == k && bad != nil {
					f.Type = reflect.TypeOf(bad)
				}
				fs = append(fs, f)
			}
			drop := bad == nil
			if drop {
				fs = append(fs[:k], fs[k+1:]...)
			}
			s := reflect.New(reflect.StructOf(fs)).Elem()
			j := 0
			for i := range tt.cs {
				if i == k {
					if !drop {
						s.Field(j).Set(reflect.ValueOf(bad))
						j++
					}
					continue
				}
				s.Field(j).Set(tt.cs[i].goVal(v.l[i], fs[j].Type))
				j++
			}
			arg = s.Interface()
			if !drop {
				tt = tt.cs[k]
			}
			c.Class("within a tuple")
		}
		ok := bad != nil && tt.fits(reflect.ValueOf(bad)) && tt.k != kTuple
		c.NonTrivial(!ok)
		step(fmt.Sprintf("packing %T as %s", arg, ts[0].sig()), func() {
			got, err := args.Pack(arg)
			if err == nil && !ok && !(tt.k == kSlice || tt.k == kArray || tt.k == kTuple) {
				rt.Fatalf("%T packs as %s: %x", bad, tt.sig(), got)
			}
			if err == nil {
				if _, err := args.Unpack(got); err != nil {
					rt.Fatalf("%T packs as %s to %x, which cannot be unpacked: %v", arg, ts[0].sig(), got, err)
				}
			}
		})
	})
}

// A02: any data unpack to the values the specification gives them or to an error.
func TestA02_hostile(t *testing.T) {
	interesting := func(rt *rapid.T, n int) []byte {
		switch h.Int(rt, 0, 9, "word") {
		case 0:
			return num(n)
		case 1:
			return num(n - 32)
		case 2:
			return num(n - 31)
		case 3:
			return num(32 * h.Int(rt, 0, 8, "k"))
		case 4:
			return num(h.Int(rt, 0, 70, "k"))
		case 5:
			return word(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(h.Int(rt, 55, 66, "sh"))), big.NewInt(int64(h.Int(rt, -64, 64, "d")))))
		case 6:
			return word(big.NewInt(int64(-h.Int(rt, 1, 70, "k"))))
		case 7:
			return word(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(int64(32*h.Int(rt, 0, 8, "k")))))
		case 8:
			return word(new(big.Int).Div(two256, big.NewInt(32)))
		}
		return fixed(rt, 32)
	}
	h.Check(t, "altered data that unpack, or were altered in an offset or length", h.N{Quick: 60000, Thorough: 2000000}, func(rt *rapid.T, c *h.C) {
		ts := drawAts(rt, 1, 3, 3)
		args := goArgs(rt, ts, nil)
		data := encSeq(ts, drawVals(rt, ts))
		for i := h.Int(rt, 0, 3, "alter"); i > 0; i-- {
			switch h.Int(rt, 0, 4, "how") {
			case 0, 1:
				if len(data) >= 32 {
					p := 32 * h.Int(rt, 0, len(data)/32-1, "at")
					copy(data[p:], interesting(rt, len(data)))
				}
			case 2:
				data = data[:h.Int(rt, 0, len(data), "cut")]
			case 3:
				if len(data) > 0 {
					data[h.Int(rt, 0, len(data)-1, "at")] ^= byte(1 << uint(h.Int(rt, 0, 7, "bit")))
				}
			case 4:
				data = append(data, h.Bytes(rt, 0, 40, "more")...)
			}
		}
		c.Op("(%s) %x", sigs(ts), data)
		var got []interface{}
		var err error
		in := c.Roomy(data)
		step("unpacking", func() { got, err = args.Unpack(in) })
		if !bytes.Equal(in, data) {
			rt.Fatalf("unpacking changed the data")
		}
		want, werr := decSeq(ts, data)
		if (err == nil) != (werr == nil) {
			rt.Fatalf("unpacking (%s) from %x gives %v %v, the specification %v %v", sigs(ts), data, got, err, want, werr)
		}
		c.Class(fmt.Sprintf("accepted=%t", err == nil))
		c.NonTrivial(err == nil || complexTypes(ts) > 0)
		if err != nil {
			m := map[string]interface{}{}
			if args.UnpackIntoMap(m, data) == nil {
				rt.Fatalf("UnpackIntoMap accepts what Unpack refuses")
			}
			return
		}
		gv, err := fromGos(ts, got)
		if err != nil || !eqs(ts, gv, want.l) {
			rt.Fatalf("unpacking (%s) from %x gives %s (%v), the specification %s", sigs(ts), data, show(gv), err, want)
		}
		step("packing again", func() {
			again, err := args.Pack(got...)
			if err != nil {
				rt.Fatalf("the values unpacked cannot be packed: %v", err)
			}
			if w := encSeq(ts, want.l); !bytes.Equal(again, w) {
				rt.Fatalf("the values unpacked pack to\n%x, not\n%x", again, w)
			}
		})
	})
}
