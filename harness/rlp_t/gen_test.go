package rlp_t

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	"verifharness/h"
)

var leafTypes = []reflect.Type{
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(uintptr(0)), reflect.TypeOf(false), reflect.TypeOf(""), tBytes, reflect.TypeOf([0]byte{}), reflect.TypeOf([1]byte{}),
	reflect.TypeOf([2]byte{}), reflect.TypeOf([20]byte{}), reflect.TypeOf([56]byte{}), tBig, tBigP, tU256, tU256P, tRaw, tIface,
	tCV, tCP, tCB, reflect.TypeOf(rec{}), reflect.TypeOf(named{}), reflect.TypeOf(myByte(0)), reflect.TypeOf(myBytes{}),
	reflect.TypeOf(myArr{}), reflect.TypeOf(myStr("")), reflect.TypeOf(myBool(false)), reflect.TypeOf(myU(0)), reflect.TypeOf(myRaws{}),
	reflect.TypeOf([3]myByte{}), reflect.TypeOf([]cB{}), reflect.TypeOf([2]cB{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([1]myByte{}),
}

func drawType(rt *rapid.T, depth int) reflect.Type {
	k := 0
	if depth > 0 {
		k = h.Int(rt, 0, 6, "typekind")
	}
	switch k {
	case 3:
		return reflect.PtrTo(drawType(rt, depth-1))
	case 4:
		return reflect.SliceOf(drawType(rt, depth-1))
	case 5:
		return reflect.ArrayOf(h.Int(rt, 0, 3, "arrlen"), drawType(rt, depth-1))
	case 6:
		return drawStruct(rt, depth)
	}
	return rapid.SampledFrom(leafTypes).Draw(rt, "leaf")
}

func drawStruct(rt *rapid.T, depth int) reflect.Type {
	n := h.Int(rt, 0, 5, "fields")
	firstOpt := n
	if h.OneIn(rt, 2, "hasopt") {
		firstOpt = h.Int(rt, 0, n, "firstopt")
	}
	hasTail := n > 0 && h.OneIn(rt, 4, "hastail")
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		t := drawType(rt, depth-1)
		tag := ""
		if i == n-1 && hasTail {
			// the tail swallows what is left
			if t.Kind() != reflect.Slice || isByteElem(t.Elem()) {
				t = reflect.SliceOf(t)
				if isByteElem(t.Elem()) {
					t = reflect.SliceOf(t)
				}
			}
			tag = "tail"
		} else {
			if h.OneIn(rt, 3, "ptr") && t.Kind() != reflect.Ptr {
				t = reflect.PtrTo(t)
			}
			if t.Kind() == reflect.Ptr && t != tBigP && t != tU256P {
				tag = rapid.SampledFrom([]string{"", "nil", "nilList", "nilString"}).Draw(rt, "niltag")
			}
			if i >= firstOpt {
				if tag != "" {
					tag += ", "
				}
				tag += "optional"
			}
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
		if tag != "" {
			f.Tag = reflect.StructTag(`rlp:"` + tag + `"`)
		}
		fs = append(fs, f)
		if h.OneIn(rt, 8, "ignored") && !(hasTail && i == n-1) {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("I%d", i), Type: reflect.TypeOf(""), Tag: `rlp:"-"`})
		}
		if h.OneIn(rt, 8, "private") {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("p%d", i), PkgPath: "verifharness/rlp_t", Type: reflect.TypeOf(0)})
		}
	}
	return reflect.StructOf(fs)
}

func drawUint(rt *rapid.T, bits int) uint64 {
	edge := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0xffffffff, 1 << 32, 1 << 40, 1<<48 - 1, 1 << 56, 1<<64 - 1}
	x := rapid.SampledFrom(edge).Draw(rt, "edge")
	if h.OneIn(rt, 3, "anyuint") {
		x = rapid.Uint64().Draw(rt, "uint")
	}
	if bits < 64 {
		x &= 1<<uint(bits) - 1
	}
	return x
}

func drawBlob(rt *rapid.T) []byte {
	switch h.Int(rt, 0, 5, "blob") {
	case 0:
		return []byte{}
	case 1:
		return []byte{byte(h.Int(rt, 0, 255, "b"))}
	case 2, 3:
		return h.Roomy(h.Bytes(rt, 0, 8, "bs"))
	case 4:
		n := rapid.SampledFrom([]int{54, 55, 56, 57, 255, 256, 257}).Draw(rt, "len")
		b := make([]byte, n)
		b[0] = byte(n)
		return b
	}
	if h.OneIn(rt, 12, "huge") {
		b := make([]byte, 65530+h.Int(rt, 0, 12, "over"))
		return b
	}
	return h.Bytes(rt, 50, 60, "bs2")
}

func drawRaw(rt *rapid.T, depth int) []byte {
	if depth > 0 && h.Bool(rt, "rawlist") {
		var items [][]byte
		for i := h.Int(rt, 0, 3, "rawn"); i > 0; i-- {
			items = append(items, drawRaw(rt, depth-1))
		}
		return refList(items...)
	}
	return refString(drawBlob(rt))
}

// drawValue draws a value of the type; budget bounds the size.
func drawValue(rt *rapid.T, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == tRaw:
		v.SetBytes(drawRaw(rt, 2))
		return v
	case t == tBigP:
		if h.OneIn(rt, 6, "nilbig") {
			return v
		}
		v.Set(reflect.ValueOf(drawBig(rt)))
		return v
	case t == tBig:
		v.Set(reflect.ValueOf(drawBig(rt)).Elem())
		return v
	case t == tU256P, t == tU256:
		if t == tU256P && h.OneIn(rt, 6, "nilu256") {
			return v
		}
		n := h.Int(rt, 0, 32, "u256len")
		b := h.Bytes(rt, n, n, "u256")
		u := new(uint256.Int).SetBytes(b)
		if t == tU256P {
			v.Set(reflect.ValueOf(u))
		} else {
			v.Set(reflect.ValueOf(u).Elem())
		}
		return v
	}
	switch t.Kind() {
	case reflect.Ptr:
		if depth <= 0 || h.OneIn(rt, 3, "nilptr") {
			return v
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(drawValue(rt, t.Elem(), depth-1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(drawUint(rt, t.Bits()))
	case reflect.Bool:
		v.SetBool(h.Bool(rt, "bool"))
	case reflect.String:
		v.SetString(string(drawBlob(rt)))
	case reflect.Slice:
		if isByteElem(t.Elem()) {
			if h.OneIn(rt, 8, "nilslice") {
				return v
			}
			b := drawBlob(rt)
			v.Set(reflect.MakeSlice(t, len(b), len(b)))
			for i := range b {
				v.Index(i).SetUint(uint64(b[i]))
			}
			return v
		}
		n := h.Int(rt, 0, 4, "slicelen")
		if depth == 1 || t.Elem().Kind() < reflect.Array {
			n = h.Len(rt, 4, "slicelen")
		}
		if depth <= 0 {
			n = 0
		}
		if n == 0 && h.Bool(rt, "nilslice2") {
			return v
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(drawValue(rt, t.Elem(), depth-1))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(drawValue(rt, t.Elem(), depth-1))
		}
	case reflect.Struct:
		zero := h.Int(rt, 0, t.NumField()+2, "zerofrom") // a zero suffix shows optional fields
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			if i >= zero && t != tCV && t != tCP {
				break
			}
			v.Field(i).Set(drawValue(rt, t.Field(i).Type, depth-1))
		}
	case reflect.Interface:
		switch h.Int(rt, 0, 7, "ifkind") {
		case 0:
			return v
		case 1:
			v.Set(reflect.ValueOf(uint64(drawUint(rt, 64))))
		case 2:
			v.Set(reflect.ValueOf(string(drawBlob(rt))))
		case 3, 4:
			v.Set(reflect.ValueOf(drawBlob(rt)))
		case 5:
			v.Set(reflect.ValueOf(cV{drawUint(rt, 64)}))
		case 6, 7:
			n := h.Int(rt, 0, 3, "iflen")
			if depth <= 0 {
				n = 0
			}
			l := make([]interface{}, n)
			for i := range l {
				l[i] = drawValue(rt, tIface, depth-1).Interface()
			}
			v.Set(reflect.ValueOf(l))
		}
	}
	return v
}

func drawBig(rt *rapid.T) *big.Int {
	n := h.Int(rt, 0, 40, "biglen")
	if h.OneIn(rt, 20, "long") {
		n = h.Int(rt, 55, 70, "biglen2")
	}
	x := new(big.Int).SetBytes(h.Bytes(rt, n, n, "big"))
	if h.OneIn(rt, 25, "neg") {
		x.Neg(x)
	}
	return x
}

// mutate alters an encoding.
func mutate(rt *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for i := h.Int(rt, 0, 3, "mutations"); i > 0; i-- {
		if len(b) == 0 {
			return []byte{byte(h.Int(rt, 0, 255, "first"))}
		}
		at := h.Int(rt, 0, len(b)-1, "at")
		if h.Bool(rt, "front") {
			at = h.Int(rt, 0, min(len(b)-1, 5), "at2")
		}
		switch h.Int(rt, 0, 6, "how") {
		case 0:
			b[at] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0x81, 0x82, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff}).Draw(rt, "b")
		case 1:
			b[at]++
		case 2:
			b[at]--
		case 3:
			b = append(b[:at], b[at+1:]...)
		case 4:
			b = append(b[:at+1], b[at:]...)
		case 5:
			b = b[:at]
		case 6:
			b = append(b[:at:at], append(rapid.SampledFrom([][]byte{{0x81, 0x05}, {0x80}, {0xc0}, {0x00}, {0x82, 0, 1}, {0xb8, 1, 0}, {0xf8, 2, 1, 1},
				{0xbf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xb9, 0, 56}}).Draw(rt, "ins"), b[at:]...)...)
		}
	}
	return b
}

// drawWire draws bytes: a well-formed random item, altered or not.
func drawWire(rt *rapid.T) []byte {
	return mutate(rt, drawRaw(rt, 3))
}

var _ = rlp.EmptyList
