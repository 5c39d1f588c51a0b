package rlp_t

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common/rlp"
	"pgregory.net/rapid"

	"verifharness/h"
)

var tagWords = []string{"nil", "nilList", "nilString", "optional", "tail", "-", "", "nul", "omitempty"}

var badTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(map[string]uint{}),
	reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)),
}

// tagsValid is the documented rule of struct tags.
func tagsValid(fs []reflect.StructField) (ok, opts bool) {
	last := -1
	for i, f := range fs {
		if f.PkgPath == "" {
			last = i
		}
	}
	ok = true
	open := false // an optional or tail field was there
	for i, f := range fs {
		if f.PkgPath != "" {
			continue
		}
		var opt, tail, ign bool
		for _, w := range strings.Split(f.Tag.Get("rlp"), ",") {
			switch strings.TrimSpace(w) {
			case "":
			case "-":
				ign = true
			case "nil", "nilList", "nilString":
				if f.Type.Kind() != reflect.Ptr {
					ok = false
				}
			case "optional":
				opt = true
			case "tail":
				tail = true
				if i != last || f.Type.Kind() != reflect.Slice {
					ok = false
				}
			default:
				ok = false
			}
		}
		if opt && tail {
			ok = false
		}
		if ign {
			continue
		}
		if opt || tail {
			open = true
		} else if open {
			ok = false
		}
		opts = opts || opt
	}
	return ok, opts
}

// R05: tag combinations are accepted exactly when the rules say so, the same by every way, and
// unsupported types are refused without a panic.
func TestR05_tags(t *testing.T) {
	h.Check(t, "a struct with at least two tagged fields", h.N{Quick: 5000, Thorough: 20000}, func(rt *rapid.T, c *h.C) {
		n := h.Int(rt, 1, 4, "fields")
		var fs []reflect.StructField
		tagged := 0
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
			f.Type = drawType(rt, 1)
			switch h.Int(rt, 0, 3, "shape") {
			case 0:
				f.Type = reflect.PtrTo(f.Type)
			case 1:
				if !isByteElem(f.Type) {
					f.Type = reflect.SliceOf(f.Type)
				}
			}
			var ws []string
			for j := h.Int(rt, 0, 2, "words"); j > 0; j-- {
				k := h.Int(rt, 0, 6, "word")
				if h.OneIn(rt, 10, "unknown") {
					k = h.Int(rt, 7, 8, "word2")
				}
				ws = append(ws, tagWords[k])
			}
			if len(ws) > 0 {
				tagged++
				f.Tag = reflect.StructTag(`rlp:"` + strings.Join(ws, rapid.SampledFrom([]string{",", ", "}).Draw(rt, "sep")) + `"`)
			}
			if h.OneIn(rt, 10, "private") {
				f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "verifharness/rlp_t"
			}
			fs = append(fs, f)
		}
		typ := reflect.StructOf(fs)
		c.Op("%v", typ)
		c.NonTrivial(tagged >= 2)
		ok, _ := tagsValid(fs)
		c.Class(fmt.Sprintf("valid=%t", ok))
		p := reflect.New(typ)
		_, e1 := rlp.EncodeToBytes(p.Interface())
		e2 := rlp.DecodeBytes([]byte{0xc0}, p.Interface())
		_, e3 := rlp.EncodeToBytes(reflect.New(reflect.SliceOf(typ)).Interface())
		refused := func(e error) bool { return e != nil && strings.Contains(e.Error(), "invalid struct tag") }
		if refused(e1) == ok || refused(e2) == ok || refused(e3) == ok {
			rt.Fatalf("tags of %v: valid=%t, encoding %v, decoding %v, in a slice %v", typ, ok, e1, e2, e3)
		}
		if _, e := rlp.EncodeToBytes(p.Interface()); fmt.Sprint(e) != fmt.Sprint(e1) {
			rt.Fatalf("%v: first %v, then %v", typ, e1, e)
		}
	})
}

func TestR05_unsupported(t *testing.T) {
	h.Check(t, "an unsupported type within a supported one", h.N{Quick: 5000, Thorough: 24000}, func(rt *rapid.T, c *h.C) {
		bad := rapid.SampledFrom(badTypes).Draw(rt, "bad")
		typ := bad
		for i := h.Int(rt, 0, 3, "wrap"); i > 0; i-- {
			c.NonTrivial(true)
			switch h.Int(rt, 0, 3, "how") {
			case 0:
				typ = reflect.PtrTo(typ)
			case 1:
				typ = reflect.SliceOf(typ)
			case 2:
				typ = reflect.ArrayOf(h.Int(rt, 0, 2, "len"), typ)
			case 3:
				typ = reflect.StructOf([]reflect.StructField{{Name: "A", Type: drawType(rt, 1)}, {Name: "B", Type: typ}})
			}
		}
		c.Op("%v", typ)
		p := reflect.New(typ)
		for i := 0; i < 2; i++ {
			if b, err := rlp.EncodeToBytes(p.Interface()); err == nil {
				rt.Fatalf("%v is encoded as %x", typ, b)
			}
			if err := rlp.DecodeBytes(drawWire(rt), p.Interface()); err == nil {
				rt.Fatalf("decoded into %v", typ)
			}
		}
		var iface interface{} = []interface{}{uint(1), reflect.Zero(typ).Interface()}
		if iface.([]interface{})[1] == nil {
			return
		}
		if b, err := rlp.EncodeToBytes(iface); err == nil {
			rt.Fatalf("%v in an interface is encoded as %x", typ, b)
		}
		// the error must leave the pooled buffers clean
		if b, err := rlp.EncodeToBytes([]string{"ok"}); err != nil || !bytes.Equal(b, []byte{0xc3, 0x82, 'o', 'k'}) {
			rt.Fatalf("after a refused value: %x %v", b, err)
		}
		// targets which cannot be written to
		for _, target := range []interface{}{nil, uint(3), (*uint)(nil), struct{}{}, []byte{1}, "x"} {
			if err := rlp.DecodeBytes([]byte{1}, target); err == nil {
				rt.Fatalf("decoded into %T(%v)", target, target)
			}
			if err := rlp.Decode(bytes.NewReader([]byte{1}), target); err == nil || err == io.EOF {
				rt.Fatalf("decoded into %T(%v) from a reader: %v", target, target, err)
			}
		}
	})
}

// R07: the type cache and the buffer pools are shared by goroutines.
func TestR07_concurrent(t *testing.T) {
	h.Check(t, ">=3 goroutines coding values of types none of which was seen before", h.N{Quick: 1500, Thorough: 12000}, func(rt *rapid.T, c *h.C) {
		var types []reflect.Type
		nt := h.Int(rt, 1, 4, "types")
		for i := 0; i < nt; i++ {
			types = append(types, drawStruct(rt, 2))
		}
		g := h.Int(rt, 2, 6, "goroutines")
		c.NonTrivial(g >= 3)
		var fns []func() error
		for i := 0; i < g; i++ {
			type job struct {
				v    reflect.Value
				want []byte
				fail bool
				how  int
			}
			var jobs []job
			for j := h.Int(rt, 2, 6, "jobs"); j > 0; j-- {
				typ := rapid.SampledFrom(types).Draw(rt, "type")
				v := drawValue(rt, typ, 3)
				st := &encState{}
				w, err := st.enc(v, tags{})
				p := reflect.New(typ)
				p.Elem().Set(v)
				jobs = append(jobs, job{p, w, err != nil, h.Int(rt, 0, 3, "how")})
			}
			c.Op("g%d: %d values", i, len(jobs))
			fns = append(fns, func() error {
				for _, j := range jobs {
					var got []byte
					var err error
					switch j.how {
					case 0:
						got, err = rlp.EncodeToBytes(j.v.Interface())
					case 1:
						var buf bytes.Buffer
						err = rlp.Encode(&buf, j.v.Interface())
						got = buf.Bytes()
					case 2:
						var r io.Reader
						if _, r, err = rlp.EncodeToReader(j.v.Interface()); err == nil {
							got, err = io.ReadAll(r)
						}
					case 3:
						var buf bytes.Buffer
						eb := rlp.NewEncoderBuffer(&buf)
						err = rlp.Encode(eb, j.v.Interface())
						if e := eb.Flush(); err == nil {
							err = e
						}
						got = buf.Bytes()
					}
					if (err != nil) != j.fail {
						return fmt.Errorf("encoding %s: %v", show(j.v.Elem()), err)
					}
					if err != nil {
						continue
					}
					if !bytes.Equal(got, j.want) {
						return fmt.Errorf("%s is encoded as %s, want %s", show(j.v.Elem()), hexs(got), hexs(j.want))
					}
					want, rest, werr := refDec(j.v.Type().Elem(), tags{}, got)
					if werr == nil && len(rest) > 0 {
						werr = errBad
					}
					x := reflect.New(j.v.Type().Elem())
					if j.how%2 == 0 {
						err = rlp.DecodeBytes(got, x.Interface())
					} else {
						err = rlp.Decode(bytes.NewBuffer(got), x.Interface())
					}
					if (err == nil) != (werr == nil) || err == nil && !eq(x.Elem(), want) {
						return fmt.Errorf("%s is read as %s (%v), want %s (%v)", hexs(got), show(x.Elem()), err, show(want), werr)
					}
				}
				return nil
			})
		}
		if err := h.Together(fns...); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}
