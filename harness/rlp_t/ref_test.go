package rlp_t

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"

	"verifharness/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// ---- the format, written from its definition ----------------------------------------------

const (
	kByte = iota
	kString
	kList
)

var errBad = errors.New("ref: malformed")
var errEOL = errors.New("ref: end of list")

func beBytes(n uint64) []byte {
	var b []byte
	for ; n > 0; n >>= 8 {
		b = append([]byte{byte(n)}, b...)
	}
	return b
}

func refHead(small byte, n int) []byte {
	if n <= 55 {
		return []byte{small + byte(n)}
	}
	l := beBytes(uint64(n))
	return append([]byte{small + 55 + byte(len(l))}, l...)
}

func refString(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(refHead(0x80, len(b)), b...)
}

func refList(items ...[]byte) []byte {
	body := bytes.Join(items, nil)
	return append(refHead(0xc0, len(body)), body...)
}

func refUint(n uint64) []byte { return refString(beBytes(n)) }

// refSplit takes the first value off b. Its head must be canonical and its content complete;
// the content of a list is not looked into.
func refSplit(b []byte) (kind int, content, rest []byte, err error) {
	if len(b) == 0 {
		return 0, nil, nil, errEOL
	}
	h0 := b[0]
	if h0 < 0x80 {
		return kByte, b[:1], b[1:], nil
	}
	kind = kString
	base := byte(0x80)
	if h0 >= 0xc0 {
		kind, base = kList, 0xc0
	}
	n := h0 - base
	var size uint64
	head := 1
	if n <= 55 {
		size = uint64(n)
	} else {
		ll := int(n - 55)
		if len(b) < 1+ll {
			return 0, nil, nil, errBad
		}
		if b[1] == 0 {
			return 0, nil, nil, errBad
		}
		for _, x := range b[1 : 1+ll] {
			size = size<<8 | uint64(x)
		}
		if size <= 55 {
			return 0, nil, nil, errBad
		}
		head += ll
	}
	if size > uint64(len(b)-head) {
		return 0, nil, nil, errBad
	}
	return kind, b[head : head+int(size)], b[head+int(size):], nil
}

// refStr takes a string (or single byte) off b; one byte below 0x80 has no head.
func refStr(b []byte) (s, rest []byte, err error) {
	k, c, rest, err := refSplit(b)
	if err != nil {
		return nil, nil, err
	}
	if k == kList || (k == kString && len(c) == 1 && c[0] < 0x80) {
		return nil, nil, errBad
	}
	return c, rest, nil
}

// refInt takes an unsigned integer of at most max bytes off b (max<0: any size).
func refInt(b []byte, max int) (*big.Int, []byte, error) {
	s, rest, err := refStr(b)
	if err != nil {
		return nil, nil, err
	}
	if len(s) > 0 && s[0] == 0 || (max >= 0 && len(s) > max) {
		return nil, nil, errBad
	}
	return new(big.Int).SetBytes(s), rest, nil
}

// ---- types with their own methods -----------------------------------------------------------

// cV encodes by value as the list [A, A+1].
type cV struct{ A uint64 }

func (c cV) EncodeRLP(w io.Writer) error { return rlp.Encode(w, []uint64{c.A, c.A + 1}) }
func (c *cV) DecodeRLP(s *rlp.Stream) error {
	var x [2]uint64
	if err := s.Decode(&x); err != nil {
		return err
	}
	if x[1] != x[0]+1 {
		return errors.New("not consecutive")
	}
	c.A = x[0]
	return nil
}

// cP encodes by pointer with the buffer interface as [B, [S]]; fields are private to reflection.
type cP struct {
	B bool
	S string
}

func (c *cP) EncodeRLP(w io.Writer) error {
	if c == nil { // "it may also be called for nil pointers"
		_, err := w.Write(rlp.EmptyList)
		return err
	}
	buf := rlp.NewEncoderBuffer(w)
	l := buf.List()
	buf.WriteBool(c.B)
	i := buf.List()
	buf.WriteString(c.S)
	buf.ListEnd(i)
	buf.ListEnd(l)
	return buf.Flush()
}

func (c *cP) DecodeRLP(s *rlp.Stream) (err error) {
	if _, err = s.List(); err != nil {
		return err
	}
	if c.B, err = s.Bool(); err != nil {
		return fmt.Errorf("B: %v", err)
	}
	if _, err = s.List(); err != nil {
		return fmt.Errorf("S: %v", err)
	}
	var b []byte
	if b, err = s.Bytes(); err != nil {
		return fmt.Errorf("S: %v", err)
	}
	c.S = string(b)
	if err = s.ListEnd(); err != nil {
		return err
	}
	return s.ListEnd()
}

// cB is a byte which is encoded as a list of itself.
type cB byte

func (c cB) EncodeRLP(w io.Writer) error { return rlp.Encode(w, []uint8x{uint8x(c)}) }
func (c *cB) DecodeRLP(s *rlp.Stream) error {
	var x [1]uint8x
	if err := s.Decode(&x); err != nil {
		return err
	}
	*c = cB(x[0])
	return nil
}

type uint8x uint16 // so that a slice of it is a list

// rec is recursive.
type rec struct {
	V    uint32
	Next *rec `rlp:"nil"`
	Kids []*rec
}

type named struct {
	A uint8
	B string `rlp:"optional"`
}

type (
	myByte  byte
	myBytes []myByte
	myArr   [4]byte
	myStr   string
	myBool  bool
	myU     uint16
	myRaws  []rlp.RawValue
)

var (
	tBig    = reflect.TypeOf(big.Int{})
	tBigP   = reflect.TypeOf(&big.Int{})
	tU256   = reflect.TypeOf(uint256.Int{})
	tU256P  = reflect.TypeOf(&uint256.Int{})
	tRaw    = reflect.TypeOf(rlp.RawValue{})
	tIface  = reflect.TypeOf((*interface{})(nil)).Elem()
	tBytes  = reflect.TypeOf([]byte{})
	tIfaces = reflect.TypeOf([]interface{}{})
	tCV     = reflect.TypeOf(cV{})
	tCP     = reflect.TypeOf(cP{})
	tCB     = reflect.TypeOf(cB(0))
)

type tags struct {
	nilOK    bool
	nilList  bool
	optional bool
	tail     bool
	ignored  bool
}

// refTags reads a tag which is known to be valid.
func refTags(f reflect.StructField) tags {
	var t tags
	for _, x := range strings.Split(f.Tag.Get("rlp"), ",") {
		switch strings.TrimSpace(x) {
		case "-":
			t.ignored = true
		case "nil":
			t.nilOK, t.nilList = true, refNilList(f.Type.Elem())
		case "nilList":
			t.nilOK, t.nilList = true, true
		case "nilString":
			t.nilOK = true
		case "optional":
			t.optional = true
		case "tail":
			t.tail = true
		}
	}
	return t
}

func isByteElem(t reflect.Type) bool { return t.Kind() == reflect.Uint8 && t != tCB }

// refNilList: what a nil pointer to t is by default; true for the empty list.
func refNilList(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return false
	case reflect.Slice, reflect.Array:
		return !isByteElem(t.Elem())
	}
	return true
}

type refField struct {
	i int
	t tags
}

func refFields(t reflect.Type) (fs []refField) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		if tg := refTags(f); !tg.ignored {
			fs = append(fs, refField{i, tg})
		}
	}
	return
}

// lossy is set by refEnc when the encoding does not determine the value.
type encState struct{ lossy bool }

func (st *encState) enc(v reflect.Value, tg tags) ([]byte, error) {
	t := v.Type()
	switch {
	case t == tRaw:
		if k, c, rest, err := refSplit(v.Bytes()); err != nil || len(rest) > 0 || (k == kString && len(c) == 1 && c[0] < 0x80) {
			st.lossy = true
		}
		return v.Bytes(), nil
	case t == tBigP, t == tU256P:
		if v.IsNil() {
			st.lossy = true
			return []byte{0x80}, nil
		}
		return st.enc(v.Elem(), tags{})
	case t == tBig:
		x := v.Addr().Interface().(*big.Int)
		if x.Sign() < 0 {
			return nil, errBad
		}
		return refString(x.Bytes()), nil
	case t == tU256:
		x := v.Addr().Interface().(*uint256.Int)
		return refString(x.ToBig().Bytes()), nil
	case t.Kind() == reflect.Ptr:
		if v.IsNil() {
			l := refNilList(t.Elem())
			if tg.nilOK {
				l = tg.nilList
			} else {
				st.lossy = true
			}
			if l {
				return []byte{0xc0}, nil
			}
			return []byte{0x80}, nil
		}
		b, err := st.enc(v.Elem(), tags{})
		if tg.nilOK && len(b) == 1 && (b[0] == 0x80 || b[0] == 0xc0) {
			st.lossy = true
		}
		return b, err
	case t == tCV:
		a := v.Field(0).Uint()
		return refList(refUint(a), refUint(a+1)), nil
	case t == tCP:
		b := []byte{0x80}
		if v.Field(0).Bool() {
			b[0] = 1
		}
		return refList(b, refList(refString([]byte(v.Field(1).String())))), nil
	case t == tCB:
		return refList(refUint(v.Uint())), nil
	}
	switch t.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return refUint(v.Uint()), nil
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0x80}, nil
	case reflect.String:
		return refString([]byte(v.String())), nil
	case reflect.Slice, reflect.Array:
		if isByteElem(t.Elem()) {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return refString(b), nil
		}
		var items [][]byte
		for i := 0; i < v.Len(); i++ {
			b, err := st.enc(v.Index(i), tags{})
			if err != nil {
				return nil, err
			}
			items = append(items, b)
		}
		if tg.tail {
			return bytes.Join(items, nil), nil
		}
		return refList(items...), nil
	case reflect.Struct:
		fs := refFields(t)
		last := len(fs)
		anyOpt := false
		for _, f := range fs {
			anyOpt = anyOpt || f.t.optional
		}
		for last > 0 && (fs[last-1].t.optional || anyOpt && fs[last-1].t.tail) && v.Field(fs[last-1].i).IsZero() {
			last--
		}
		var items [][]byte
		for _, f := range fs[:last] {
			b, err := st.enc(v.Field(f.i), f.t)
			if err != nil {
				return nil, err
			}
			items = append(items, b)
		}
		return refList(items...), nil
	case reflect.Interface:
		if v.IsNil() {
			st.lossy = true
			return []byte{0xc0}, nil
		}
		e := v.Elem()
		if e.Type() != tBytes && e.Type() != tIfaces {
			st.lossy = true
		}
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		return st.enc(c, tags{})
	}
	return nil, errBad
}

// refDec decodes the first value of b into a fresh value of type t. errEOL means that b is
// empty: the list ended before the value.
func refDec(t reflect.Type, tg tags, b []byte) (v reflect.Value, rest []byte, err error) {
	v = reflect.New(t).Elem()
	bad := func(err error) (reflect.Value, []byte, error) { return v, nil, err }
	if tg.tail {
		v.Set(reflect.MakeSlice(t, 0, 0))
		for len(b) > 0 {
			var e reflect.Value
			if e, b, err = refDec(t.Elem(), tags{}, b); err != nil {
				return bad(errBad)
			}
			v.Set(reflect.Append(v, e))
		}
		return v, nil, nil
	}
	if len(b) == 0 {
		return bad(errEOL)
	}
	switch {
	case t == tRaw:
		_, _, rest, err := refSplit(b)
		if err != nil {
			return bad(err)
		}
		v.SetBytes(append([]byte{}, b[:len(b)-len(rest)]...))
		return v, rest, nil
	case t == tBigP || t == tBig:
		x, rest, err := refInt(b, -1)
		if err != nil {
			return bad(err)
		}
		if t == tBigP {
			v.Set(reflect.ValueOf(x))
		} else {
			v.Set(reflect.ValueOf(x).Elem())
		}
		return v, rest, nil
	case t == tU256P || t == tU256:
		x, rest, err := refInt(b, 32)
		if err != nil {
			return bad(err)
		}
		u, _ := uint256.FromBig(x)
		if t == tU256P {
			v.Set(reflect.ValueOf(u))
		} else {
			v.Set(reflect.ValueOf(u).Elem())
		}
		return v, rest, nil
	case t.Kind() == reflect.Ptr:
		if tg.nilOK {
			k, c, rest, err := refSplit(b)
			if err != nil {
				return bad(err)
			}
			if k != kByte && len(c) == 0 {
				if (k == kList) != tg.nilList {
					return bad(errBad)
				}
				return v, rest, nil
			}
		}
		e, rest, err := refDec(t.Elem(), tags{}, b)
		if err != nil {
			return bad(err)
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(e)
		v.Set(p)
		return v, rest, nil
	case t == tCV:
		k, c, rest, err := refSplit(b)
		if err != nil || k != kList {
			return bad(errBad)
		}
		x, c, err := refInt(c, 8)
		if err != nil {
			return bad(errBad)
		}
		y, c, err := refInt(c, 8)
		if err != nil || len(c) > 0 || y.Uint64() != x.Uint64()+1 {
			return bad(errBad)
		}
		v.Field(0).SetUint(x.Uint64())
		return v, rest, nil
	case t == tCP:
		k, c, rest, err := refSplit(b)
		if err != nil || k != kList {
			return bad(errBad)
		}
		x, c, err := refInt(c, 1)
		if err != nil || x.Uint64() > 1 {
			return bad(errBad)
		}
		k, c2, more, err := refSplit(c)
		if err != nil || k != kList || len(more) > 0 {
			return bad(errBad)
		}
		s, more, err := refStr(c2)
		if err != nil || len(more) > 0 {
			return bad(errBad)
		}
		v.Field(0).SetBool(x.Uint64() == 1)
		v.Field(1).SetString(string(s))
		return v, rest, nil
	case t == tCB:
		k, c, rest, err := refSplit(b)
		if err != nil || k != kList {
			return bad(errBad)
		}
		x, c, err := refInt(c, 2)
		if err != nil || len(c) > 0 {
			return bad(errBad)
		}
		v.SetUint(x.Uint64() & 0xff)
		return v, rest, nil
	}
	switch t.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x, rest, err := refInt(b, t.Bits()/8)
		if err != nil {
			return bad(err)
		}
		v.SetUint(x.Uint64())
		return v, rest, nil
	case reflect.Bool:
		x, rest, err := refInt(b, 1)
		if err != nil || x.Uint64() > 1 {
			return bad(errBad)
		}
		v.SetBool(x.Uint64() == 1)
		return v, rest, nil
	case reflect.String:
		s, rest, err := refStr(b)
		if err != nil {
			return bad(err)
		}
		v.SetString(string(s))
		return v, rest, nil
	case reflect.Interface:
		k, c, rest, err := refSplit(b)
		if err != nil {
			return bad(err)
		}
		if k != kList {
			if _, _, err := refStr(b); err != nil {
				return bad(err)
			}
			v.Set(reflect.ValueOf(append([]byte{}, c...)))
			return v, rest, nil
		}
		l := []interface{}{}
		for len(c) > 0 {
			var e reflect.Value
			if e, c, err = refDec(tIface, tags{}, c); err != nil {
				return bad(errBad)
			}
			l = append(l, e.Interface())
		}
		v.Set(reflect.ValueOf(l))
		return v, rest, nil
	case reflect.Slice, reflect.Array:
		if isByteElem(t.Elem()) {
			s, rest, err := refStr(b)
			if err != nil {
				return bad(err)
			}
			if t.Kind() == reflect.Array {
				if len(s) != t.Len() {
					return bad(errBad)
				}
			} else {
				v.Set(reflect.MakeSlice(t, len(s), len(s)))
			}
			for i := range s {
				v.Index(i).SetUint(uint64(s[i]))
			}
			return v, rest, nil
		}
		k, c, rest, err := refSplit(b)
		if err != nil || k != kList {
			return bad(errBad)
		}
		if t.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(t, 0, 0))
		}
		for i := 0; len(c) > 0; i++ {
			var e reflect.Value
			if e, c, err = refDec(t.Elem(), tags{}, c); err != nil {
				return bad(errBad)
			}
			if t.Kind() == reflect.Slice {
				v.Set(reflect.Append(v, e))
			} else if i < t.Len() {
				v.Index(i).Set(e)
			} else {
				return bad(errBad)
			}
			if t.Kind() == reflect.Array && len(c) == 0 && i != t.Len()-1 {
				return bad(errBad)
			}
		}
		if t.Kind() == reflect.Array && t.Len() > 0 {
			if k, c, _, _ := refSplit(b); k == kList && len(c) == 0 {
				return bad(errBad)
			}
		}
		return v, rest, nil
	case reflect.Struct:
		k, c, rest, err := refSplit(b)
		if err != nil || k != kList {
			return bad(errBad)
		}
		for _, f := range refFields(t) {
			if len(c) == 0 && f.t.optional {
				break
			}
			var e reflect.Value
			if e, c, err = refDec(t.Field(f.i).Type, f.t, c); err != nil {
				return bad(errBad)
			}
			v.Field(f.i).Set(e)
		}
		if len(c) > 0 {
			return bad(errBad)
		}
		return v, rest, nil
	}
	return bad(errBad)
}

// eq compares two values of one type: nil and empty slices are the same, integers compare by value.
func eq(a, b reflect.Value) bool {
	t := a.Type()
	if t != b.Type() {
		return false
	}
	switch {
	case t == tBig:
		x, y := a.Interface().(big.Int), b.Interface().(big.Int)
		return x.Cmp(&y) == 0
	case t.Kind() == reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	case t.Kind() == reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" || t.Field(i).Tag.Get("rlp") == "-" {
				if t == tU256 {
					continue
				}
				continue
			}
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
