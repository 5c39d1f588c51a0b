package abi_t

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common/abi"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// ---- types of the contract ABI, written from its specification ----------------------------

type kind int

const (
	kUint kind = iota
	kInt
	kBool
	kAddr
	kFixed
	kFunc
	kBytes
	kString
	kSlice
	kArray
	kTuple
)

type at struct {
	k    kind
	n    int // bits, bytes or elements
	el   *at
	cs   []*at
	name []string
}

// sig is the canonical name of the type.
func (t *at) sig() string {
	switch t.k {
	case kUint:
		return fmt.Sprintf("uint%d", t.n)
	case kInt:
		return fmt.Sprintf("int%d", t.n)
	case kBool:
		return "bool"
	case kAddr:
		return "address"
	case kFixed:
		return fmt.Sprintf("bytes%d", t.n)
	case kFunc:
		return "function"
	case kBytes:
		return "bytes"
	case kString:
		return "string"
	case kSlice:
		return t.el.sig() + "[]"
	case kArray:
		return fmt.Sprintf("%s[%d]", t.el.sig(), t.n)
	}
	return "(" + sigs(t.cs) + ")"
}

func sigs(ts []*at) string {
	var ss []string
	for _, c := range ts {
		ss = append(ss, c.sig())
	}
	return strings.Join(ss, ",")
}

// decl is the way the type is named in a definition: tuples by their components.
func (t *at) decl() (string, []abi.ArgumentMarshaling) {
	switch t.k {
	case kSlice:
		s, c := t.el.decl()
		return s + "[]", c
	case kArray:
		s, c := t.el.decl()
		return fmt.Sprintf("%s[%d]", s, t.n), c
	case kTuple:
		var cs []abi.ArgumentMarshaling
		for i, c := range t.cs {
			cs = append(cs, argDecl(t.name[i], c, false))
		}
		return "tuple", cs
	}
	return t.sig(), nil
}

func argDecl(name string, t *at, indexed bool) abi.ArgumentMarshaling {
	s, c := t.decl()
	return abi.ArgumentMarshaling{Name: name, Type: s, Components: c, Indexed: indexed}
}

func (t *at) dyn() bool {
	switch t.k {
	case kBytes, kString, kSlice:
		return true
	case kArray:
		return t.el.dyn()
	case kTuple:
		for _, c := range t.cs {
			if c.dyn() {
				return true
			}
		}
	}
	return false
}

// head is the number of bytes of the type among its neighbours.
func (t *at) head() int {
	if t.dyn() {
		return 32
	}
	switch t.k {
	case kArray:
		return t.n * t.el.head()
	case kTuple:
		s := 0
		for _, c := range t.cs {
			s += c.head()
		}
		return s
	}
	return 32
}

// value is a value of the type: one of the fields is in use.
type value struct {
	i  *big.Int
	b  bool
	bs []byte
	l  []*value
}

func (v *value) String() string {
	switch {
	case v == nil:
		return "nil"
	case v.i != nil:
		return v.i.String()
	case v.l != nil:
		var ss []string
		for _, e := range v.l {
			ss = append(ss, e.String())
		}
		return "[" + strings.Join(ss, " ") + "]"
	case v.bs != nil:
		return fmt.Sprintf("x%x", v.bs)
	}
	return fmt.Sprint(v.b)
}

func (t *at) eq(a, b *value) bool {
	switch t.k {
	case kUint, kInt:
		return a.i.Cmp(b.i) == 0
	case kBool:
		return a.b == b.b
	case kSlice, kArray:
		if len(a.l) != len(b.l) {
			return false
		}
		for i := range a.l {
			if !t.el.eq(a.l[i], b.l[i]) {
				return false
			}
		}
		return true
	case kTuple:
		for i, c := range t.cs {
			if !c.eq(a.l[i], b.l[i]) {
				return false
			}
		}
		return true
	}
	return bytes.Equal(a.bs, b.bs)
}

func eqs(ts []*at, a, b []*value) bool {
	return (&at{k: kTuple, cs: ts}).eq(&value{l: a}, &value{l: b})
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func word(i *big.Int) []byte {
	w := make([]byte, 32)
	new(big.Int).Mod(i, two256).FillBytes(w)
	return w
}

func num(i int) []byte { return word(big.NewInt(int64(i))) }

func padR(b []byte) []byte {
	out := append([]byte{}, b...)
	for len(out)%32 != 0 {
		out = append(out, 0)
	}
	return out
}

// enc is the encoding of one value, without the offset that leads to it.
func (t *at) enc(v *value) []byte {
	switch t.k {
	case kUint, kInt:
		return word(v.i)
	case kBool:
		if v.b {
			return num(1)
		}
		return num(0)
	case kAddr:
		return append(make([]byte, 12), v.bs...)
	case kFixed, kFunc:
		return padR(v.bs)
	case kBytes, kString:
		return append(num(len(v.bs)), padR(v.bs)...)
	case kSlice:
		ts := make([]*at, len(v.l))
		for i := range ts {
			ts[i] = t.el
		}
		return append(num(len(v.l)), encSeq(ts, v.l)...)
	case kArray:
		ts := make([]*at, len(v.l))
		for i := range ts {
			ts[i] = t.el
		}
		return encSeq(ts, v.l)
	}
	return encSeq(t.cs, v.l)
}

// encSeq is the encoding of a sequence: the heads, then what the offsets among them lead to.
func encSeq(ts []*at, vs []*value) []byte {
	off := 0
	for _, t := range ts {
		off += t.head()
	}
	var head, tail []byte
	for i, t := range ts {
		e := t.enc(vs[i])
		if t.dyn() {
			head = append(head, num(off+len(tail))...)
			tail = append(tail, e...)
		} else {
			head = append(head, e...)
		}
	}
	return append(head, tail...)
}

var errData = errors.New("bad data")

// at reads the word at pos of the region.
func wordAt(region []byte, pos int) ([]byte, error) {
	if pos+32 > len(region) {
		return nil, errData
	}
	return region[pos : pos+32], nil
}

// small reads a word as a number of at most max.
func small(region []byte, pos, max int) (int, error) {
	w, err := wordAt(region, pos)
	if err != nil {
		return 0, err
	}
	i := new(big.Int).SetBytes(w)
	if i.Cmp(big.NewInt(int64(max))) > 0 {
		return 0, errData
	}
	return int(i.Int64()), nil
}

// dec reads a value whose head is at pos of the region. Offsets count from the start of the
// region; anything they lead to must lie within it.
func (t *at) dec(region []byte, pos int) (*value, error) {
	if t.dyn() {
		off, err := small(region, pos, len(region))
		if err != nil {
			return nil, err
		}
		// the head itself has to be there even if the content is empty
		switch t.k {
		case kBytes, kString:
			n, err := small(region, off, len(region)-off-32)
			if err != nil {
				return nil, err
			}
			return &value{bs: append([]byte{}, region[off+32:off+32+n]...)}, nil
		case kSlice:
			n, err := small(region, off, len(region)-off-32)
			if err != nil {
				return nil, err
			}
			if off+32+32*n > len(region) {
				return nil, errData
			}
			return decList(t.el, n, region[off+32:])
		case kArray:
			return decList(t.el, t.n, region[off:])
		}
		return decSeq(t.cs, region[off:])
	}
	w, err := wordAt(region, pos)
	if err != nil {
		return nil, err
	}
	switch t.k {
	case kArray:
		return decList(t.el, t.n, region[pos:])
	case kTuple:
		return decSeq(t.cs, region[pos:])
	case kUint:
		i := new(big.Int).SetBytes(w)
		if t.native() {
			i.And(i, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.n)), big.NewInt(1)))
		}
		return &value{i: i}, nil
	case kInt:
		n := uint(256)
		if t.native() {
			n = uint(t.n)
		}
		m := new(big.Int).Lsh(big.NewInt(1), n)
		i := new(big.Int).Mod(new(big.Int).SetBytes(w), m)
		if i.Bit(int(n)-1) == 1 {
			i.Sub(i, m)
		}
		return &value{i: i}, nil
	case kBool:
		for _, b := range w[:31] {
			if b != 0 {
				return nil, errData
			}
		}
		if w[31] > 1 {
			return nil, errData
		}
		return &value{b: w[31] == 1}, nil
	case kAddr:
		return &value{bs: append([]byte{}, w[12:]...)}, nil
	case kFixed:
		return &value{bs: append([]byte{}, w[:t.n]...)}, nil
	case kFunc:
		for _, b := range w[24:] {
			if b != 0 {
				return nil, errData
			}
		}
		return &value{bs: append([]byte{}, w[:24]...)}, nil
	}
	panic("HARNESS-ERROR type")
}

func decList(el *at, n int, region []byte) (*value, error) {
	ts := make([]*at, n)
	for i := range ts {
		ts[i] = el
	}
	return decSeq(ts, region)
}

func decSeq(ts []*at, region []byte) (*value, error) {
	out, pos := &value{l: []*value{}}, 0
	for _, t := range ts {
		v, err := t.dec(region, pos)
		if err != nil {
			return nil, err
		}
		out.l = append(out.l, v)
		pos += t.head()
	}
	return out, nil
}

// native tells whether Go has the integer type.
func (t *at) native() bool { return t.n == 8 || t.n == 16 || t.n == 32 || t.n == 64 }

// ---- Go values -----------------------------------------------------------------------------

// goVal makes the Go value of type rt for v.
func (t *at) goVal(v *value, rt reflect.Type) reflect.Value {
	out := reflect.New(rt).Elem()
	switch t.k {
	case kUint, kInt:
		switch rt.Kind() {
		case reflect.Ptr:
			out.Set(reflect.ValueOf(new(big.Int).Set(v.i)))
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			out.SetUint(v.i.Uint64())
		default:
			out.SetInt(v.i.Int64())
		}
	case kBool:
		out.SetBool(v.b)
	case kAddr, kFixed, kFunc:
		reflect.Copy(out, reflect.ValueOf(v.bs))
	case kBytes:
		out.SetBytes(h.Roomy(append([]byte{}, v.bs...)))
	case kString:
		out.SetString(string(v.bs))
	case kSlice:
		out.Set(reflect.MakeSlice(rt, len(v.l), len(v.l)))
		for i, e := range v.l {
			out.Index(i).Set(t.el.goVal(e, rt.Elem()))
		}
	case kArray:
		for i, e := range v.l {
			out.Index(i).Set(t.el.goVal(e, rt.Elem()))
		}
	case kTuple:
		for i, e := range v.l {
			out.Field(i).Set(t.cs[i].goVal(e, rt.Field(i).Type))
		}
	}
	return out
}

// fromGo reads a Go value back.
func (t *at) fromGo(rv reflect.Value) (v *value, err error) {
	if rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("a %s came as %v", t.sig(), rv.Type())
		}
	}()
	v = &value{}
	switch t.k {
	case kUint, kInt:
		if !t.native() {
			v.i = new(big.Int).Set(rv.Interface().(*big.Int))
		} else if t.k == kUint {
			if rv.Type().Bits() != t.n {
				return nil, fmt.Errorf("a %s came as %v", t.sig(), rv.Type())
			}
			v.i = new(big.Int).SetUint64(rv.Uint())
		} else {
			if rv.Type().Bits() != t.n {
				return nil, fmt.Errorf("a %s came as %v", t.sig(), rv.Type())
			}
			v.i = big.NewInt(rv.Int())
		}
	case kBool:
		v.b = rv.Bool()
	case kAddr, kFixed, kFunc:
		v.bs = make([]byte, rv.Len())
		reflect.Copy(reflect.ValueOf(v.bs), rv)
	case kBytes:
		v.bs = append([]byte{}, rv.Bytes()...)
	case kString:
		if rv.Kind() != reflect.String {
			return nil, fmt.Errorf("a string came as %v", rv.Type())
		}
		v.bs = []byte(rv.String())
	case kSlice, kArray:
		v.l = []*value{}
		for i := 0; i < rv.Len(); i++ {
			e, err := t.el.fromGo(rv.Index(i))
			if err != nil {
				return nil, err
			}
			v.l = append(v.l, e)
		}
	case kTuple:
		v.l = []*value{}
		if rv.NumField() != len(t.cs) {
			return nil, fmt.Errorf("a %s came as %v", t.sig(), rv.Type())
		}
		for i, c := range t.cs {
			e, err := c.fromGo(rv.Field(i))
			if err != nil {
				return nil, err
			}
			v.l = append(v.l, e)
		}
	}
	return v, nil
}

func fromGos(ts []*at, vs []interface{}) ([]*value, error) {
	if len(ts) != len(vs) {
		return nil, fmt.Errorf("%d values for %d types", len(vs), len(ts))
	}
	out := []*value{}
	for i, t := range ts {
		v, err := t.fromGo(reflect.ValueOf(vs[i]))
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

// ---- generators ----------------------------------------------------------------------------

var tupleNames = []string{"a", "b", "value", "to_addr", "X", "_owner", "data1", "longFieldName", "z_z_z", "amount", "straße", "Zz"}

func drawAt(rt *rapid.T, depth int) *at {
	k := 0
	if depth > 0 {
		k = h.Int(rt, 0, 13, "kind")
	} else {
		k = h.Int(rt, 0, 8, "kind")
	}
	switch k {
	case 0, 1, 2:
		t := &at{k: kUint}
		if h.Bool(rt, "signed") {
			t.k = kInt
		}
		t.n = rapid.SampledFrom([]int{256, 8, 16, 32, 64, 24, 40, 56, 72, 128, 160, 248}).Draw(rt, "bits")
		return t
	case 3:
		return &at{k: kBool}
	case 4:
		return &at{k: kAddr}
	case 5:
		return &at{k: kFixed, n: rapid.SampledFrom([]int{32, 1, 4, 20, 31, 16, 2}).Draw(rt, "size")}
	case 6:
		return &at{k: kBytes}
	case 7:
		return &at{k: kString}
	case 8:
		if h.OneIn(rt, 3, "func") {
			return &at{k: kFunc}
		}
		return &at{k: kUint, n: 256}
	case 9, 10:
		return &at{k: kSlice, el: drawAt(rt, depth-1)}
	case 11:
		t := &at{k: kArray, n: h.Int(rt, 1, 4, "len"), el: drawAt(rt, depth-1)}
		if t.el.dyn() && h.OneIn(rt, 5, "empty") {
			t.n = 0 // arrays of no static elements, which no contract can have, are left out
		}
		return t
	}
	t := &at{k: kTuple}
	n := h.Int(rt, 1, 4, "fields")
	for i := 0; i < n; i++ {
		t.cs = append(t.cs, drawAt(rt, depth-1))
		t.name = append(t.name, tupleNames[(i*3+h.Int(rt, 0, 2, "name"))%len(tupleNames)])
	}
	return t
}

func drawAts(rt *rapid.T, min, max, depth int) []*at {
	var ts []*at
	n := h.Int(rt, min, max, "args")
	if h.OneIn(rt, 40, "manyArgs") {
		n, depth = rapid.SampledFrom([]int{9, 16, 17, 20, 33}).Draw(rt, "args"), 1
	}
	for i := n; i > 0; i-- {
		ts = append(ts, drawAt(rt, depth))
	}
	return ts
}

func drawInt(rt *rapid.T, t *at) *big.Int {
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(t.n))
	if t.k == kInt {
		hi.Rsh(hi, 1)
		lo = new(big.Int).Neg(hi)
	}
	hi = new(big.Int).Sub(hi, big.NewInt(1))
	var i *big.Int
	switch h.Int(rt, 0, 5, "num") {
	case 0:
		i = big.NewInt(0)
	case 1:
		i = new(big.Int).Set(hi)
	case 2:
		i = new(big.Int).Set(lo)
	case 3:
		i = big.NewInt(int64(h.Int(rt, -3, 300, "small")))
	default:
		i = new(big.Int).SetBytes(h.Bytes(rt, 0, t.n/8, "big"))
		if t.k == kInt && h.Bool(rt, "neg") {
			i.Neg(i)
		}
	}
	if i.Cmp(lo) < 0 {
		i = lo
	}
	if i.Cmp(hi) > 0 {
		i = hi
	}
	return i
}

func drawVal(rt *rapid.T, t *at) *value {
	switch t.k {
	case kUint, kInt:
		return &value{i: drawInt(rt, t)}
	case kBool:
		return &value{b: h.Bool(rt, "bool")}
	case kAddr:
		return &value{bs: fixed(rt, 20)}
	case kFixed:
		return &value{bs: fixed(rt, t.n)}
	case kFunc:
		return &value{bs: fixed(rt, 24)}
	case kBytes, kString:
		n := rapid.SampledFrom([]int{0, 1, 5, 31, 32, 33, 64, 70}).Draw(rt, "n")
		b := fixed(rt, n)
		return &value{bs: b}
	case kSlice, kArray:
		n := t.n
		if t.k == kSlice {
			n = h.Int(rt, 0, 3, "n")
			if t.el.k != kSlice && t.el.k != kArray && t.el.k != kTuple {
				n = h.Len(rt, 3, "n")
			}
		}
		v := &value{l: []*value{}}
		for i := 0; i < n; i++ {
			v.l = append(v.l, drawVal(rt, t.el))
		}
		return v
	}
	v := &value{l: []*value{}}
	for _, c := range t.cs {
		v.l = append(v.l, drawVal(rt, c))
	}
	return v
}

func fixed(rt *rapid.T, n int) []byte {
	b := h.Bytes(rt, 0, n, "bytes")
	out := make([]byte, n)
	if h.Bool(rt, "left") {
		copy(out, b)
	} else {
		copy(out[n-len(b):], b)
	}
	return out
}

func drawVals(rt *rapid.T, ts []*at) []*value {
	out := []*value{}
	for _, t := range ts {
		out = append(out, drawVal(rt, t))
	}
	return out
}

// goArgs makes the arguments as this package sees them, from names ("" makes a0, a1 ...).
func goArgs(rt *rapid.T, ts []*at, names []string) abi.Arguments {
	var args abi.Arguments
	for i, t := range ts {
		n := fmt.Sprintf("a%d", i)
		if names != nil {
			n = names[i]
		}
		s, c := t.decl()
		typ, err := abi.NewType(s, "", c)
		if err != nil {
			rt.Fatalf("type %s is refused: %v", t.sig(), err)
		}
		if typ.String() != t.sig() {
			rt.Fatalf("type %s calls itself %s", t.sig(), typ.String())
		}
		args = append(args, abi.Argument{Name: n, Type: typ})
	}
	return args
}

func keccak(b []byte) []byte {
	d := sha3.NewLegacyKeccak256()
	d.Write(b)
	return d.Sum(nil)
}

// complexTypes counts the dynamic or composite types.
func complexTypes(ts []*at) (n int) {
	for _, t := range ts {
		if t.dyn() || t.k >= kSlice {
			n++
		}
	}
	return n
}

func show(vs []*value) string { return (&value{l: vs}).String() }

// step runs a part of a case; a panic in it fails the case.
func step(what string, f func()) { f() }
