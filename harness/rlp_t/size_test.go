package rlp_t

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"testing"
	"verifharness/h"

	"github.com/ThinkiumGroup/go-common/rlp"
)

// every length at which the form of a head changes, and its neighbours
var edgeSizes = func() (r []int) {
	r = append(r, 0, 1, 2)
	for _, e := range []int{55, 1 << 8, 1 << 16, 1 << 24} {
		for d := -2; d <= 2; d++ {
			if d == 0 || d == -1 || e < 1<<24 {
				r = append(r, e+d)
			}
		}
	}
	return r
}()

const sizeForms = 8

func patterned(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// R01: lengths at the edges of the forms of a head.
func TestR01_sizes(t *testing.T) {
	h.Enum(t, "a size of at least 55", len(edgeSizes)*sizeForms, true, func(t *testing.T, c *h.C, i int) {
		n, form := edgeSizes[i/sizeForms], i%sizeForms
		c.Op("size %d form %d", n, form)
		c.NonTrivial(n >= 55)
		b := patterned(n, byte(i))
		small := make([]byte, n) // a payload of n single byte items
		for k := range small {
			small[k] = 1 + b[k]%0x7f
		}
		var v reflect.Value
		var want []byte
		switch form {
		case 0:
			v, want = reflect.ValueOf(b), refString(b)
		case 1:
			v, want = reflect.ValueOf(string(b)), refString(b)
		case 2:
			v = reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
			reflect.Copy(v, reflect.ValueOf(b))
			want = refString(b)
		case 3:
			if n > 70000 {
				return
			}
			if n > 0 {
				b[0] |= 0x80
			}
			v, want = reflect.ValueOf(new(big.Int).SetBytes(b)), refString(b)
		case 4:
			l := make([]uint16, n)
			for k := range l {
				l[k] = uint16(small[k])
			}
			v, want = reflect.ValueOf(l), refList(small)
		case 5: // the payload is a single string
			v, want = reflect.ValueOf([][]byte{b}), refList(refString(b))
		case 6: // within others
			type S struct {
				A uint8
				B []byte
				C []rlp.RawValue
				D string
			}
			raw := refList(small)
			v = reflect.ValueOf(S{7, b, []rlp.RawValue{raw, {1}}, "xx"})
			want = refList([]byte{7}, refString(b), refList(raw, []byte{1}), refString([]byte("xx")))
		case 7: // as anything
			v = reflect.ValueOf([]interface{}{b, []interface{}{b}, []byte{}})
			want = refList(refString(b), refList(refString(b)), []byte{0x80})
		}
		got, err := rlp.EncodeToBytes(v.Interface())
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("EncodeToBytes form %d of size %d: %v\n= %s, want\n  %s", form, n, err, hexs(got), hexs(want))
		}
		size, r, err := rlp.EncodeToReader(v.Interface())
		if err != nil || size != len(want) {
			t.Fatalf("EncodeToReader form %d of size %d: %d %v", form, n, size, err)
		}
		if got, err = io.ReadAll(r); err != nil || !bytes.Equal(got, want) {
			t.Fatalf("EncodeToReader form %d of size %d: %v", form, n, err)
		}
		for how := 0; how < 2; how++ {
			x := reflect.New(v.Type())
			if how == 0 {
				err = rlp.DecodeBytes(want, x.Interface())
			} else {
				err = rlp.Decode(bytes.NewReader(want), x.Interface())
			}
			same := false
			switch a := v.Interface().(type) { // eq is slow
			case []byte:
				same = bytes.Equal(a, *x.Interface().(*[]byte))
			case []uint16:
				b := *x.Interface().(*[]uint16)
				same = len(a) == len(b)
				for k := 0; same && k < n; k++ {
					same = a[k] == b[k]
				}
			default:
				same = eq(x.Elem(), v)
			}
			if err != nil || !same {
				t.Fatalf("decoding (%d) form %d of size %d: %v", how, form, n, err)
			}
		}
		if err := rlp.DecodeBytes(append(append([]byte{}, want...), 0), reflect.New(v.Type()).Interface()); err == nil {
			t.Fatalf("a byte behind form %d of size %d is accepted", form, n)
		}
		if err := rlp.DecodeBytes(want[:len(want)-1], reflect.New(v.Type()).Interface()); err == nil {
			t.Fatalf("form %d of size %d without its last byte is accepted", form, n)
		}
		k, content, rest, err := rlp.Split(want)
		_, wc, _, _ := refSplit(want)
		if err != nil || len(rest) > 0 || !bytes.Equal(content, wc) || (k == rlp.List) != (want[0] >= 0xc0) {
			t.Fatalf("Split of form %d of size %d: %v %v", form, n, k, err)
		}
	})
}

var errBroken = errors.New("broken for the test")

// broken fails once n bytes went through it, taking what fits first.
type broken struct {
	n    int
	w    io.Writer
	r    io.Reader
}

func (b *broken) Write(p []byte) (int, error) {
	if len(p) > b.n {
		k, _ := b.w.Write(p[:b.n])
		b.n = 0
		return k, errBroken
	}
	b.n -= len(p)
	return b.w.Write(p)
}

func (b *broken) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, errBroken
	}
	if len(p) > b.n {
		p = p[:b.n]
	}
	k, err := b.r.Read(p)
	b.n -= k
	return k, err
}

func brokenErr(err error) string {
	if err == nil {
		return "it succeeds"
	}
	if !errors.Is(err, errBroken) {
		return fmt.Sprintf("it says %v", err)
	}
	return ""
}
