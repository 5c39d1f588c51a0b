package rlp_t

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"
	"pgregory.net/rapid"

	"verifharness/h"
)

func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// prefill makes the target dirty: what was there must not show.
func decodeInto(rt *rapid.T, t reflect.Type, wire []byte, how int) (reflect.Value, error) {
	p := reflect.New(t)
	var err error
	switch how {
	case 0:
		err = rlp.DecodeBytes(wire, p.Interface())
	case 1:
		p.Elem().Set(drawValue(rt, t, 3))
		err = rlp.DecodeBytes(wire, p.Interface())
	}
	return p.Elem(), err
}

// R01: encoding is the format's, and decoding gives the value back.
func TestR01_roundtrip(t *testing.T) {
	h.Check(t, "a value of a composite type with a non-zero encoding", h.N{Quick: 24000, Thorough: 60000}, func(rt *rapid.T, c *h.C) {
		typ := drawType(rt, 3)
		c.Op("%v", typ)
		var kept, keptWant [][]byte
		defer func() { // what was returned stays
			for i := range kept {
				if !bytes.Equal(kept[i], keptWant[i]) {
					rt.Fatalf("the result %s of an earlier EncodeToBytes became %s", hexs(keptWant[i]), hexs(kept[i]))
				}
			}
		}()
		for i := 0; i < 3; i++ {
			v := drawValue(rt, typ, 4)
			c.Op("%s", show(v))
			st := &encState{}
			want, werr := st.enc(v, tags{})
			// pass it by pointer and, where it needs no address, by value
			p := reflect.New(typ)
			p.Elem().Set(v)
			got, err := rlp.EncodeToBytes(p.Interface())
			if (err == nil) != (werr == nil) {
				rt.Fatalf("EncodeToBytes(%v %s): %v, reference: %v", typ, show(v), err, werr)
			}
			if err != nil {
				c.Class("not encodable")
				continue
			}
			if !bytes.Equal(got, want) {
				rt.Fatalf("EncodeToBytes(%v %s)\n= %s, want\n  %s", typ, show(v), hexs(got), hexs(want))
			}
			kept, keptWant = append(kept, got), append(keptWant, want)
			if v.Kind() != reflect.Interface && v.Kind() != reflect.Ptr {
				if byValue, err := rlp.EncodeToBytes(v.Interface()); err == nil && !bytes.Equal(byValue, want) {
					rt.Fatalf("EncodeToBytes by value = %s, want %s", hexs(byValue), hexs(want))
				}
			}
			c.NonTrivial(len(want) > 2 && (typ.Kind() == reflect.Struct || typ.Kind() == reflect.Slice || typ.Kind() == reflect.Array || typ.Kind() == reflect.Ptr))
			ref, rest, rerr := refDec(typ, tags{}, want)
			if rerr == nil && len(rest) > 0 {
				rerr = errBad
			}
			if !st.lossy && (rerr != nil || !eq(ref, v)) {
				rt.Fatalf("HARNESS-ERROR reference does not read %v %s back: %v", typ, show(v), rerr)
			}
			for how := 0; how < 2; how++ {
				d, err := decodeInto(rt, typ, got, how)
				if (err == nil) != (rerr == nil) {
					rt.Fatalf("DecodeBytes(%s) into %v (%d): %v, reference: %v", hexs(got), typ, how, err, rerr)
				}
				if err == nil && !eq(d, ref) {
					rt.Fatalf("DecodeBytes(%s) into %v (%d)\n= %s, want\n  %s", hexs(got), typ, how, show(d), show(ref))
				}
			}
			if !st.lossy {
				c.Class("exact round trip")
			}
		}
	})
}

// R02: bytes are accepted for a type only in the one canonical form.
func TestR02_canonical(t *testing.T) {
	h.Check(t, "altered encodings, at least one of them accepted and one refused", h.N{Quick: 40000, Thorough: 90000}, func(rt *rapid.T, c *h.C) {
		typ := drawType(rt, 3)
		c.Op("%v", typ)
		acc, ref := 0, 0
		for i := 0; i < 6; i++ {
			var wire []byte
			if h.OneIn(rt, 4, "free") {
				wire = drawWire(rt)
			} else {
				st := &encState{}
				w, err := st.enc(drawValue(rt, typ, 4), tags{})
				if err != nil {
					continue
				}
				wire = mutate(rt, w)
			}
			wire = c.Roomy(wire)
			c.Op("%s", hexs(wire))
			want, rest, werr := refDec(typ, tags{}, wire)
			if werr == nil && len(rest) > 0 {
				werr = errBad
			}
			for how := 0; how < 2; how++ {
				d, err := decodeInto(rt, typ, wire, how)
				if (err == nil) != (werr == nil) {
					rt.Fatalf("DecodeBytes(%s) into %v (%d): %v, reference: %v", hexs(wire), typ, how, err, werr)
				}
				if err == nil && !eq(d, want) {
					rt.Fatalf("DecodeBytes(%s) into %v (%d)\n= %s, want\n  %s", hexs(wire), typ, how, show(d), show(want))
				}
				if err == nil && how == 0 {
					// the canonical form: encoding gives the same bytes back, except for optional fields
					// which were there with their zero value
					p := reflect.New(typ)
					p.Elem().Set(d)
					if strings.Contains(typ.String(), "optional") || strings.Contains(typ.String(), "named") || strings.Contains(typ.String(), "cB") {
						continue
					}
					back, err := rlp.EncodeToBytes(p.Interface())
					if err != nil || !bytes.Equal(back, wire) {
						rt.Fatalf("%s was read into %v as %s, which is written as %s (%v)", hexs(wire), typ, show(d), hexs(back), err)
					}
				}
			}
			if werr == nil {
				acc++
			} else {
				ref++
			}
		}
		c.NonTrivial(acc > 0 && ref > 0)
	})
}

type chunks struct {
	b []byte
	n []int
	i int
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n[r.i%len(r.n)]
	r.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// R04: every way to encode gives the same bytes, every way to decode the same value.
func TestR04_entrypoints(t *testing.T) {
	h.Check(t, "a value whose encoding has several pieces", h.N{Quick: 24000, Thorough: 60000}, func(rt *rapid.T, c *h.C) {
		typ := drawType(rt, 3)
		v := drawValue(rt, typ, 4)
		c.Op("%v %s", typ, show(v))
		p := reflect.New(typ)
		p.Elem().Set(v)
		want, err := rlp.EncodeToBytes(p.Interface())
		var buf bytes.Buffer
		err2 := rlp.Encode(&buf, p.Interface())
		size, r, err3 := rlp.EncodeToReader(p.Interface())
		eb := rlp.NewEncoderBuffer(nil)
		err4 := rlp.Encode(eb, p.Interface())
		if (err == nil) != (err2 == nil) || (err == nil) != (err3 == nil) || (err == nil) != (err4 == nil) {
			rt.Fatalf("EncodeToBytes: %v, Encode: %v, EncodeToReader: %v, to EncoderBuffer: %v", err, err2, err3, err4)
		}
		if err != nil {
			_ = eb.Flush()
			return
		}
		c.NonTrivial(len(want) > 3)
		if !bytes.Equal(buf.Bytes(), want) {
			rt.Fatalf("Encode wrote %s, EncodeToBytes %s", hexs(buf.Bytes()), hexs(want))
		}
		if size != len(want) {
			rt.Fatalf("EncodeToReader tells %d bytes, there are %d", size, len(want))
		}
		// another encoding between the reads must not disturb it
		var got []byte
		tmp := make([]byte, h.Int(rt, 1, 9, "chunk"))
		for i := 0; ; i++ {
			n, rerr := r.Read(tmp)
			got = append(got, tmp[:n]...)
			if rerr == io.EOF {
				break
			}
			if rerr != nil || i > 10*len(want)+100 {
				rt.Fatalf("reading: %v", rerr)
			}
			if i < 5 {
				_, _ = rlp.EncodeToBytes([]uint64{1, 2, 3})
			}
		}
		if n, rerr := r.Read(tmp); n != 0 || rerr != io.EOF {
			rt.Fatalf("reading after the end gives %d,%v", n, rerr)
		}
		if !bytes.Equal(got, want) {
			rt.Fatalf("the reader gave %s, want %s", hexs(got), hexs(want))
		}
		if x := eb.ToBytes(); !bytes.Equal(x, want) {
			rt.Fatalf("EncoderBuffer holds %s, want %s", hexs(x), hexs(want))
		}
		pre := h.Bytes(rt, 0, 4, "pre")
		if x := eb.AppendToBytes(append([]byte{}, pre...)); !bytes.Equal(x, append(append([]byte{}, pre...), want...)) {
			rt.Fatalf("AppendToBytes gave %s", hexs(x))
		}
		if err := eb.Flush(); err != nil {
			rt.Fatalf("Flush: %v", err)
		}
		buf.Reset()
		eb = rlp.NewEncoderBuffer(&buf)
		l := eb.List()
		if err := rlp.Encode(eb, p.Interface()); err != nil {
			rt.Fatalf("%v", err)
		}
		inner := rlp.NewEncoderBuffer(eb) // derived: writes to the same buffer
		inner.WriteString("x")
		if err := inner.Flush(); err != nil {
			rt.Fatalf("%v", err)
		}
		eb.ListEnd(l)
		if err := eb.Flush(); err != nil || !bytes.Equal(buf.Bytes(), refList(want, []byte("x"))) {
			rt.Fatalf("the buffer wrote %s (%v), want %s", hexs(buf.Bytes()), err, hexs(refList(want, []byte("x"))))
		}

		// ---- decoding ----
		ref, rest, rerr := refDec(typ, tags{}, want)
		if rerr != nil || len(rest) > 0 {
			return
		}
		extra := h.Bytes(rt, 0, 3, "extra")
		stream := append(append([]byte{}, want...), extra...)
		how := h.Int(rt, 0, 6, "reader")
		c.Op("reader %d, %x behind", how, extra)
		var rd io.Reader
		limit := uint64(0)
		switch how {
		case 0:
			rd = bytes.NewReader(stream)
		case 1:
			rd = bytes.NewBuffer(append([]byte{}, stream...))
		case 2:
			rd = strings.NewReader(string(stream))
		case 3:
			rd = iotest.OneByteReader(bytes.NewReader(stream))
		case 4:
			rd = iotest.DataErrReader(bytes.NewReader(stream))
		case 5:
			rd = &chunks{b: stream, n: []int{h.Int(rt, 1, 7, "c1"), h.Int(rt, 1, 70, "c2")}}
		case 6:
			rd = &chunks{b: stream, n: []int{h.Int(rt, 1, 7, "c1")}}
			limit = uint64(len(want)) + uint64(h.Int(rt, 0, 2, "limit"))
		}
		x := reflect.New(typ)
		if limit == 0 {
			err = rlp.Decode(rd, x.Interface())
		} else {
			err = rlp.NewStream(rd, limit).Decode(x.Interface())
		}
		if err != nil || !eq(x.Elem(), ref) {
			rt.Fatalf("Decode from reader %d: %v, %s, want %s", how, err, show(x.Elem()), show(ref))
		}
		if err := rlp.DecodeBytes(stream, reflect.New(typ).Interface()); (err != nil) != (len(extra) > 0) {
			rt.Fatalf("DecodeBytes with %d bytes behind: %v", len(extra), err)
		}
		// a limit below the size refuses
		if len(want) > 1 {
			if err := rlp.NewStream(bytes.NewReader(want), uint64(len(want)-1)).Decode(reflect.New(typ).Interface()); err == nil {
				rt.Fatalf("a limit of %d did not stop a value of %d bytes", len(want)-1, len(want))
			}
		}
		// cut anywhere it is refused
		cut := h.Int(rt, 0, len(want)-1, "cut")
		err = rlp.DecodeBytes(want[:cut], reflect.New(typ).Interface())
		if err == nil {
			rt.Fatalf("%s cut at %d is accepted", hexs(want), cut)
		}
		if err = rlp.Decode(&chunks{b: want[:cut], n: []int{3}}, reflect.New(typ).Interface()); err == nil {
			rt.Fatalf("%s cut at %d is accepted from a reader", hexs(want), cut)
		}
		// a writer or reader which breaks is reported
		cut = h.Int(rt, 0, len(want)-1, "broken")
		buf.Reset()
		if s := brokenErr(rlp.Encode(&broken{n: cut, w: &buf}, p.Interface())); s != "" || !bytes.HasPrefix(want, buf.Bytes()) {
			rt.Fatalf("Encode to a writer breaking after %d of %d bytes: %s, wrote %s", cut, len(want), s, hexs(buf.Bytes()))
		}
		buf.Reset()
		eb = rlp.NewEncoderBuffer(&broken{n: cut, w: &buf})
		if err = rlp.Encode(eb, p.Interface()); err == nil {
			err = eb.Flush()
		}
		if s := brokenErr(err); s != "" {
			rt.Fatalf("Flush to a writer breaking after %d of %d bytes: %s", cut, len(want), s)
		}
		bad := &broken{n: cut, r: bytes.NewReader(want)}
		if err = rlp.Decode(bad, reflect.New(typ).Interface()); err == nil || !strings.Contains(err.Error(), errBroken.Error()) {
			rt.Fatalf("Decode from a reader breaking after %d of %s: %v", cut, hexs(want), err)
		}
		// several values behind one another
		s := rlp.NewStream(&chunks{b: append(append([]byte{}, want...), want...), n: []int{2, 5}}, 0)
		for i := 0; i < 2; i++ {
			x := reflect.New(typ)
			if err := s.Decode(x.Interface()); err != nil || !eq(x.Elem(), ref) {
				rt.Fatalf("value %d of a stream: %v %s", i, err, show(x.Elem()))
			}
		}
		if err := s.Decode(reflect.New(typ).Interface()); err != io.EOF {
			rt.Fatalf("after the last value of a stream: %v", err)
		}
	})
}

// walk reads one value with the stream's own operations and writes it out again.
func walk(rt *rapid.T, s *rlp.Stream, eb rlp.EncoderBuffer, depth int) error {
	k, size, err := s.Kind()
	if err != nil {
		return err
	}
	if k2, size2, err2 := s.Kind(); k2 != k || size2 != size || err2 != nil {
		return fmt.Errorf("Kind twice: %v %d %v", k2, size2, err2)
	}
	if k == rlp.List && depth > 0 && !h.OneIn(rt, 6, "raw") {
		n, err := s.List()
		if err != nil {
			return err
		}
		if n != size {
			return fmt.Errorf("List gives %d, Kind %d", n, size)
		}
		l := eb.List()
		for s.MoreDataInList() {
			if err := walk(rt, s, eb, depth-1); err != nil {
				return err
			}
		}
		if _, _, err := s.Kind(); err != rlp.EOL {
			return fmt.Errorf("at the end of the list Kind gives %v", err)
		}
		eb.ListEnd(l)
		return s.ListEnd()
	}
	op := h.Int(rt, 0, 8, "op")
	if k == rlp.List {
		if _, err := s.Bytes(); err != rlp.ErrExpectedString {
			return fmt.Errorf("Bytes of a list: %v", err)
		}
		op = 5
	}
	switch op {
	case 0, 1:
		b, err := s.Bytes()
		if err != nil {
			return err
		}
		eb.WriteBytes(b)
	case 2:
		n := size
		if k == rlp.Byte {
			n = 1
		}
		if n > 1<<20 {
			return errors.New("large")
		}
		b := make([]byte, n)
		if err := s.ReadBytes(b); err != nil {
			return err
		}
		eb.WriteString(string(b))
	case 3:
		x, err := s.BigInt()
		if err != nil {
			return err
		}
		eb.WriteBigInt(x)
	case 4:
		if size > 32 {
			return errors.New("large")
		}
		var x uint256.Int
		if err := s.ReadUint256(&x); err != nil {
			return err
		}
		eb.WriteUint256(&x)
	case 5:
		b, err := s.Raw()
		if err != nil {
			return err
		}
		_, _ = eb.Write(b)
	case 6:
		x, err := s.Uint()
		if err != nil {
			return err
		}
		eb.WriteUint64(x)
	case 7:
		x, err := s.String()
		if err != nil {
			return err
		}
		eb.WriteString(x)
	case 8:
		x, err := s.Bool()
		if err != nil {
			return err
		}
		eb.WriteBool(x)
	}
	return nil
}

// R03: whatever the bytes are, every reader of them fails cleanly or agrees with the format.
func TestR03_hostile(t *testing.T) {
	var targets []reflect.Type
	targets = append(targets, leafTypes...)
	h.Check(t, "bytes of which a first value can be read", h.N{Quick: 200000, Thorough: 3000000}, func(rt *rapid.T, c *h.C) {
		var wire []byte
		if h.OneIn(rt, 3, "noise") {
			wire = h.Roomy(h.Bytes(rt, 0, 40, "noise"))
		} else {
			wire = drawWire(rt)
		}
		wire = c.Roomy(wire)
		c.Op("%s", hexs(wire))
		checkHostile(rt.Fatalf, wire, func(ok bool) { c.NonTrivial(ok) })
		typ := rapid.SampledFrom(targets).Draw(rt, "target")
		p := reflect.New(typ)
		want, rest, werr := refDec(typ, tags{}, wire)
		if werr == nil && len(rest) > 0 {
			werr = errBad
		}
		if err := rlp.DecodeBytes(wire, p.Interface()); (err == nil) != (werr == nil) || (err == nil && !eq(p.Elem(), want)) {
			rt.Fatalf("DecodeBytes(%s) into %v: %v, reference: %v", hexs(wire), typ, err, werr)
		}
		// the same value token by token, written out again token by token
		eb := rlp.NewEncoderBuffer(nil)
		defer func() { _ = eb.Flush() }()
		rd := bytes.NewReader(wire)
		if err := walk(rt, rlp.NewStream(rd, uint64(len(wire))), eb, 6); err == nil {
			c.Class("walked")
			used := wire[:len(wire)-rd.Len()]
			if out := eb.ToBytes(); !bytes.Equal(out, used) {
				rt.Fatalf("%s was read token by token and written as %s", hexs(used), hexs(out))
			}
			_, _, rest, err := refSplit(wire)
			if err != nil || len(rest) != rd.Len() {
				rt.Fatalf("the stream accepted %s and left %d bytes, reference: %d %v", hexs(wire), rd.Len(), len(rest), err)
			}
		}
	})
}

func kindOf(k int) rlp.Kind { return []rlp.Kind{rlp.Byte, rlp.String, rlp.List}[k] }

// checkHostile compares the readers of raw bytes with the reference.
func checkHostile(fatalf func(string, ...interface{}), wire []byte, nontrivial func(bool)) {
	// rawSplit is refSplit plus the rule for single bytes, which the raw readers check on strings
	rawSplit := func(b []byte) (int, []byte, []byte, error) {
		k, cont, rest, err := refSplit(b)
		if err == nil && k == kString && len(cont) == 1 && cont[0] < 0x80 {
			err = errBad
		}
		return k, cont, rest, err
	}
	k, cont, rest, rerr := rawSplit(wire)
	nontrivial(rerr == nil)
	gk, gc, gr, err := rlp.Split(wire)
	if (err == nil) != (rerr == nil) {
		fatalf("Split(%s): %v, reference: %v", hexs(wire), err, rerr)
	}
	if err == nil && (gk != kindOf(k) || !bytes.Equal(gc, cont) || !bytes.Equal(gr, rest)) {
		fatalf("Split(%s)=%v %s %s", hexs(wire), gk, hexs(gc), hexs(gr))
	}
	if err != nil && !bytes.Equal(gr, wire) {
		fatalf("a failed Split gives %s as the rest", hexs(gr))
	}
	gc, gr, err = rlp.SplitString(wire)
	if (err == nil) != (rerr == nil && k != kList) || (err == nil && (!bytes.Equal(gc, cont) || !bytes.Equal(gr, rest))) || (err != nil && !bytes.Equal(gr, wire)) {
		fatalf("SplitString(%s)=%s %s %v", hexs(wire), hexs(gc), hexs(gr), err)
	}
	gc, gr, err = rlp.SplitList(wire)
	if (err == nil) != (rerr == nil && k == kList) || (err == nil && (!bytes.Equal(gc, cont) || !bytes.Equal(gr, rest))) || (err != nil && !bytes.Equal(gr, wire)) {
		fatalf("SplitList(%s)=%s %s %v", hexs(wire), hexs(gc), hexs(gr), err)
	}
	x, gr, err := rlp.SplitUint64(wire)
	wx, wrest, werr := refInt(wire, 8)
	if (err == nil) != (werr == nil) {
		// the split form takes any content for small sizes
		fatalf("SplitUint64(%s): %v, reference: %v", hexs(wire), err, werr)
	}
	if err == nil && (x != wx.Uint64() || !bytes.Equal(gr, wrest)) || (err != nil && !bytes.Equal(gr, wire)) {
		fatalf("SplitUint64(%s)=%d %s, want %d", hexs(wire), x, hexs(gr), wx)
	}
	// number of values
	n, b := 0, wire
	cerr := error(nil)
	for len(b) > 0 {
		if _, _, b, cerr = rawSplit(b); cerr != nil {
			break
		}
		n++
	}
	gn, err := rlp.CountValues(wire)
	if (err == nil) != (cerr == nil) || (err == nil && gn != n) {
		fatalf("CountValues(%s)=%d %v, reference: %d %v", hexs(wire), gn, err, n, cerr)
	}
	// list iterator
	it, err := rlp.NewListIterator(wire)
	if (err == nil) != (rerr == nil && k == kList) {
		fatalf("NewListIterator(%s): %v", hexs(wire), err)
	}
	if err == nil {
		b := cont
		steps := 0
		for it.Next() {
			if steps++; steps > len(wire)+2 {
				fatalf("the iterator of %s does not come to its end", hexs(wire))
				return
			}
			if it.Err() != nil {
				continue
			}
			_, _, r, err := rawSplit(b)
			if err != nil {
				fatalf("the iterator of %s goes over a malformed value", hexs(wire))
				return
			}
			if !bytes.Equal(it.Value(), b[:len(b)-len(r)]) {
				fatalf("the iterator of %s gives %s, want %s", hexs(wire), hexs(it.Value()), hexs(b[:len(b)-len(r)]))
			}
			b = r
		}
		if (len(b) > 0) != (it.Err() != nil) {
			fatalf("the iterator of %s ended with %v, %d bytes left", hexs(wire), it.Err(), len(b))
		}
	}
}

// R04: the size and append helpers agree with the encoder.
func TestR04_helpers(t *testing.T) {
	h.Check(t, "always", h.N{Quick: 40000, Thorough: 400000}, func(rt *rapid.T, c *h.C) {
		u := drawUint(rt, 64)
		b := drawBlob(rt)
		c.Op("%d %s", u, hexs(b))
		c.NonTrivial(true)
		if got := rlp.AppendUint64([]byte{9}, u); !bytes.Equal(got, append([]byte{9}, refUint(u)...)) {
			rt.Fatalf("AppendUint64(%d)=%x", u, got)
		}
		if rlp.IntSize(u) != len(refUint(u)) {
			rt.Fatalf("IntSize(%d)=%d", u, rlp.IntSize(u))
		}
		if rlp.BytesSize(b) != uint64(len(refString(b))) || rlp.StringSize(string(b)) != uint64(len(refString(b))) {
			rt.Fatalf("size of %s: %d %d, want %d", hexs(b), rlp.BytesSize(b), rlp.StringSize(string(b)), len(refString(b)))
		}
		n := u >> 3
		if n <= 1<<20 {
			if rlp.ListSize(n) != uint64(len(refHead(0xc0, int(n))))+n {
				rt.Fatalf("ListSize(%d)=%d", n, rlp.ListSize(n))
			}
		}
		// unsigned readers take what fits
		for _, bits := range []int{8, 16, 32, 64} {
			s := rlp.NewStream(bytes.NewReader(refUint(u)), 0)
			var x uint64
			var err error
			switch bits {
			case 8:
				var y uint8
				y, err = s.Uint8()
				x = uint64(y)
			case 16:
				var y uint16
				y, err = s.Uint16()
				x = uint64(y)
			case 32:
				var y uint32
				y, err = s.Uint32()
				x = uint64(y)
			case 64:
				x, err = s.Uint64()
			}
			fits := bits == 64 || u>>uint(bits) == 0
			if (err == nil) != fits || (fits && x != u) {
				rt.Fatalf("Uint%d of %d gives %d %v", bits, u, x, err)
			}
		}
		s := rlp.NewStream(bytes.NewReader(refUint(u)), 0)
		if ok, err := s.Bool(); (err == nil) != (u <= 1) || (err == nil && ok != (u == 1)) {
			rt.Fatalf("Bool of %d gives %t %v", u, ok, err)
		}
		// a list stream starts inside a list
		items := [][]byte{refUint(u), refString(b), refList()}
		body := bytes.Join(items, nil)
		ls := rlp.NewListStream(bytes.NewReader(body), uint64(len(body)))
		if _, err := ls.List(); err != nil {
			rt.Fatalf("NewListStream: %v", err)
		}
		for i, want := range items {
			if got, err := ls.Raw(); err != nil || !bytes.Equal(got, want) {
				rt.Fatalf("item %d of a list stream is %s %v", i, hexs(got), err)
			}
		}
		if err := ls.ListEnd(); err != nil {
			rt.Fatalf("ListEnd: %v", err)
		}
		if err := ls.ListEnd(); err == nil {
			rt.Fatalf("ListEnd outside of a list")
		}
		// the stream is usable again after Reset, whatever state it was in
		rs := rlp.NewStream(bytes.NewReader(body), 0)
		_, _, _ = rs.Kind()
		if h.Bool(rt, "inlist") {
			rs.Reset(bytes.NewReader(refList(body)), 0)
			_, _ = rs.List()
			_, _ = rs.Raw()
		}
		rs.Reset(bytes.NewReader(refString(b)), 0)
		if got, err := rs.Bytes(); err != nil || !bytes.Equal(got, b) {
			rt.Fatalf("after Reset: %s %v", hexs(got), err)
		}
		// too large for an unsigned 256 bit integer
		bi := new(big.Int).Lsh(big.NewInt(int64(u|1)&0x7fffffff), uint(h.Int(rt, 200, 300, "shift")))
		var u256 uint256.Int
		err := rlp.NewStream(bytes.NewReader(refString(bi.Bytes())), 0).ReadUint256(&u256)
		if (err == nil) != (bi.BitLen() <= 256) || (err == nil && u256.ToBig().Cmp(bi) != 0) {
			rt.Fatalf("ReadUint256 of %s: %s %v", bi, u256.ToBig(), err)
		}
		got, err := rlp.NewStream(bytes.NewReader(refString(bi.Bytes())), 0).BigInt()
		if err != nil || got.Cmp(bi) != 0 {
			rt.Fatalf("BigInt of %s: %s %v", bi, got, err)
		}
	})
}
