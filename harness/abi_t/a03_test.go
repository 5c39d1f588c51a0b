package abi_t

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/abi"
	"pgregory.net/rapid"

	"verifharness/h"
)

// entry is one item of a definition.
type entry struct {
	typ, name, mut string
	constant, pay  bool
	anon           bool
	in, out        []*at
	inN, outN      []string
	indexed        []bool
	key            string // name in the parsed definition
}

func (e *entry) sig() string { return e.name + "(" + sigs(e.in) + ")" }

func jsonArgs(ts []*at, names []string, indexed []bool) []interface{} {
	out := []interface{}{}
	for i, t := range ts {
		m := jsonArg(names[i], t)
		if indexed != nil {
			m["indexed"] = indexed[i]
		}
		out = append(out, m)
	}
	return out
}

func jsonArg(name string, t *at) map[string]interface{} {
	s, _ := t.decl()
	m := map[string]interface{}{"name": name, "type": s, "internalType": s}
	for t.k == kSlice || t.k == kArray {
		t = t.el
	}
	if t.k == kTuple {
		m["components"] = jsonArgs(t.cs, t.name, nil)
		m["internalType"] = "struct Some.Thing"
	}
	return m
}

func (e *entry) json() map[string]interface{} {
	m := map[string]interface{}{"type": e.typ, "name": e.name, "inputs": jsonArgs(e.in, e.inN, e.indexed), "outputs": jsonArgs(e.out, e.outN, nil)}
	if e.mut != "" {
		m["stateMutability"] = e.mut
	}
	if e.constant {
		m["constant"] = true
	}
	if e.pay {
		m["payable"] = true
	}
	if e.anon {
		m["anonymous"] = true
	}
	return m
}

func drawNames(rt *rapid.T, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		s := rapid.SampledFrom([]string{"", "x", "from", "_to", "value", "b_c", "anArgumentWhichIsLongerThanAWordOfThirtyTwoBytes"}).Draw(rt, "name")
		if s != "" {
			s += fmt.Sprint(i)
		}
		out = append(out, s)
	}
	return out
}

func drawEntry(rt *rapid.T) *entry {
	e := &entry{typ: rapid.SampledFrom([]string{"function", "function", "function", "event", "event", "error", "constructor", "fallback", "receive"}).Draw(rt, "type")}
	e.name = rapid.SampledFrom([]string{"f", "f", "f0", "g", "transfer", "set_value", "f1", "aNameWhichIsLongerThanAWordOfThirtyTwoBytes", "élan"}).Draw(rt, "fname")
	switch e.typ {
	case "function", "constructor":
		e.mut = rapid.SampledFrom([]string{"", "pure", "view", "nonpayable", "payable"}).Draw(rt, "mut")
		e.constant, e.pay = h.OneIn(rt, 5, "const"), h.OneIn(rt, 5, "pay")
	case "receive":
		e.mut = "payable"
	}
	if e.typ != "fallback" && e.typ != "receive" {
		e.in = drawAts(rt, 0, 3, 2)
		e.inN = drawNames(rt, len(e.in))
	}
	if e.typ == "function" {
		e.out = drawAts(rt, 0, 2, 2)
		e.outN = drawNames(rt, len(e.out))
	}
	if e.typ == "event" {
		e.anon = h.OneIn(rt, 4, "anon")
		for range e.in {
			e.indexed = append(e.indexed, h.OneIn(rt, 3, "indexed"))
		}
	}
	return e
}

func (e *entry) goIn(rt *rapid.T, args abi.Arguments, vs []*value, ts []*at) []interface{} {
	out := []interface{}{}
	for i, t := range ts {
		out = append(out, t.goVal(vs[i], args[i].Type.GetType()).Interface())
	}
	return out
}

func sameArgs(rt *rapid.T, what string, got abi.Arguments, ts []*at, names []string, indexed []bool, fill bool) {
	if len(got) != len(ts) {
		rt.Fatalf("%s has %d arguments, not %d", what, len(got), len(ts))
	}
	for i, t := range ts {
		n := names[i]
		if n == "" && fill {
			n = fmt.Sprintf("arg%d", i)
		}
		if got[i].Type.String() != t.sig() || got[i].Name != n || got[i].Indexed != (indexed != nil && indexed[i]) {
			rt.Fatalf("%s: argument %d is %q %s indexed=%t", what, i, got[i].Name, got[i].Type.String(), got[i].Indexed)
		}
	}
}

// text is how a value is printed.
func (t *at) text(v *value, typ reflect.Type) string {
	u8 := t.k == kSlice || t.k == kArray
	if u8 {
		u8 = t.el.k == kUint && t.el.n == 8
	}
	switch {
	case t.k == kAddr || t.k == kFixed || t.k == kFunc || t.k == kBytes:
		return fmt.Sprintf("0x%x", v.bs)
	case u8:
		s := "0x"
		for _, e := range v.l {
			s += fmt.Sprintf("%02x", e.i.Uint64())
		}
		return s
	}
	return fmt.Sprintf("%v", t.goVal(v, typ).Interface())
}

func texts(ts []*at, vs []*value, args abi.Arguments) string {
	var ss []string
	for i, t := range ts {
		ss = append(ss, args[i].Name+":"+t.text(vs[i], args[i].Type.GetType()))
	}
	return strings.Join(ss, ", ")
}

func (e *entry) methodString() string {
	var in, out []string
	for i, t := range e.in {
		in = append(in, t.sig()+" "+e.inN[i])
	}
	for i, t := range e.out {
		s := t.sig()
		if e.outN[i] != "" {
			s += " " + e.outN[i]
		}
		out = append(out, s)
	}
	mut := ""
	if e.mut != "" && e.mut != "nonpayable" {
		mut = e.mut + " "
	}
	return fmt.Sprintf("function %s(%s) %sreturns(%s)", e.name, strings.Join(in, ", "), mut, strings.Join(out, ", "))
}

// A03: a definition is read as it says: every item is there under its own name, with the
// selector of its signature, and the calls through it pack and unpack accordingly.
func TestA03_definition(t *testing.T) {
	h.Check(t, "a definition with at least two items, one of which has arguments", h.N{Quick: 12000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		var es []*entry
		args := 0
		for i := h.Int(rt, 0, 7, "items"); i > 0; i-- {
			es = append(es, drawEntry(rt))
			args += len(es[len(es)-1].in)
		}
		var list []interface{}
		for _, e := range es {
			list = append(list, e.json())
			c.Op("%s %s out (%s)", e.typ, e.sig(), sigs(e.out))
		}
		c.NonTrivial(len(es) > 1 && args > 0)
		if list == nil {
			list = []interface{}{}
		}
		text, _ := json.Marshal(list)
		def, err := abi.JSON(bytes.NewReader(text))
		// what must come
		wantErr := false
		methods, events, errs := map[string]*entry{}, map[string]*entry{}, map[string]*entry{}
		var ctor *entry
		fb, rc := 0, 0
		unique := func(m map[string]*entry, e *entry) {
			n := e.name
			for i := 0; m[n] != nil; i++ {
				n = fmt.Sprintf("%s%d", e.name, i)
			}
			m[n], e.key = e, n
		}
		for _, e := range es {
			switch e.typ {
			case "function":
				unique(methods, e)
			case "event":
				unique(events, e)
			case "error":
				errs[e.name] = e
			case "constructor":
				ctor = e
			case "fallback":
				fb++
			case "receive":
				rc++
			}
		}
		wantErr = fb > 1 || rc > 1
		if (err != nil) != wantErr {
			rt.Fatalf("reading gives %v: %s", err, text)
		}
		if p, _ := h.NoPanic(func() {
			if must := abi.MustInitAbi("x", string(text)); len(must.Methods) != len(def.Methods) || len(must.Events) != len(def.Events) || len(must.Errors) != len(def.Errors) {
				rt.Errorf("MustInitAbi gives %v", must)
			}
		}); (p != nil) != wantErr {
			rt.Fatalf("MustInitAbi panics with %v", p)
		}
		if err != nil {
			c.Class("refused")
			return
		}
		if len(def.Methods) != len(methods) || len(def.Events) != len(events) || len(def.Errors) != len(errs) || def.HasFallback() != (fb > 0) || def.HasReceive() != (rc > 0) {
			rt.Fatalf("reading gives %d methods, %d events, %d errors, fallback %t, receive %t", len(def.Methods), len(def.Events), len(def.Errors), def.HasFallback(), def.HasReceive())
		}
		sigCount := map[string]int{}
		for _, e := range methods {
			sigCount[e.sig()]++
		}
		evCount := map[string]int{}
		for _, e := range events {
			evCount[e.sig()]++
		}
		if ctor != nil {
			sameArgs(rt, "the constructor", def.Constructor.Inputs, ctor.in, ctor.inN, nil, false)
			vs := drawVals(rt, ctor.in)
			got, err := def.Pack("", ctor.goIn(rt, def.Constructor.Inputs, vs, ctor.in)...)
			if err != nil || !bytes.Equal(got, encSeq(ctor.in, vs)) {
				rt.Fatalf("constructor arguments %s pack to %x (%v)", show(vs), got, err)
			}
		}
		for _, e := range es {
			switch e.typ {
			case "function":
				m, ok := def.Methods[e.key]
				if !ok || m.Name != e.key || m.RawName != e.name || m.Type != abi.Function || m.StateMutability != e.mut || m.Constant != e.constant || m.Payable != e.pay {
					rt.Fatalf("method %s is %t %+v", e.key, ok, m)
				}
				if m.IsConstant() != (e.constant || e.mut == "view" || e.mut == "pure") || m.IsPayable() != (e.pay || e.mut == "payable") {
					rt.Fatalf("method %s: constant %t, payable %t", e.key, m.IsConstant(), m.IsPayable())
				}
				if m.Sig != e.sig() || !bytes.Equal(m.ID, keccak([]byte(e.sig()))[:4]) {
					rt.Fatalf("method %s has signature %s and id %x, not %s", e.key, m.Sig, m.ID, e.sig())
				}
				if m.String() != e.methodString() {
					rt.Fatalf("method %s prints as %q, not %q", e.key, m.String(), e.methodString())
				}
				sameArgs(rt, e.key, m.Inputs, e.in, e.inN, nil, false)
				sameArgs(rt, e.key+" returns", m.Outputs, e.out, e.outN, nil, false)
				e.checkCalls(rt, def, m, sigCount[e.sig()] == 1)
			case "event":
				v, ok := def.Events[e.key]
				if !ok || v.Name != e.key || v.RawName != e.name || v.Anonymous != e.anon || v.Sig != e.sig() || !bytes.Equal(v.ID[:], keccak([]byte(e.sig()))) {
					rt.Fatalf("event %s is %t %+v", e.key, ok, v)
				}
				sameArgs(rt, e.key, v.Inputs, e.in, e.inN, e.indexed, true)
				by, err := def.EventByID(v.ID)
				if err != nil || by.Sig != e.sig() || evCount[e.sig()] == 1 && by.Name != e.key {
					rt.Fatalf("EventByID of %s gives %v, %v", e.key, by, err)
				}
			case "error":
				last := errs[e.name]
				v, ok := def.Errors[e.name]
				if !ok || v.Sig != last.sig() || !bytes.Equal(v.ID[:], keccak([]byte(last.sig()))) {
					rt.Fatalf("error %s is %t %+v", e.name, ok, v)
				}
				vs := drawVals(rt, last.in)
				data := append(append([]byte{}, keccak([]byte(last.sig()))[:4]...), encSeq(last.in, vs)...)
				got, err := v.Unpack(data)
				if err != nil {
					rt.Fatalf("error data %x: %v", data, err)
				}
				bv, err := fromGos(last.in, got.([]interface{}))
				if err != nil || !eqs(last.in, bv, vs) {
					rt.Fatalf("error data %x unpack to %v (%v)", data, got, err)
				}
				data[h.Int(rt, 0, 3, "at")] ^= 1
				if _, err := v.Unpack(data); err == nil {
					rt.Fatalf("data of another error are accepted")
				}
			}
		}
		if _, err := def.Pack("nothing"); err == nil {
			rt.Fatalf("an unknown method packs")
		}
	})
}

func (e *entry) checkCalls(rt *rapid.T, def abi.ABI, m abi.Method, only bool) {
	by, err := def.MethodById(append(append([]byte{}, m.ID...), 1, 2, 3))
	if err != nil || by.Sig != m.Sig || only && by.Name != m.Name {
		rt.Fatalf("MethodById of %s gives %v, %v", e.key, by, err)
	}
	vs := drawVals(rt, e.in)
	in := encSeq(e.in, vs)
	gos := e.goIn(rt, m.Inputs, vs, e.in)
	want := append(append([]byte{}, keccak([]byte(e.sig()))[:4]...), in...)
	got, err := def.Pack(e.key, gos...)
	if err != nil || !bytes.Equal(got, want) {
		rt.Fatalf("%s%s packs to %x (%v), not %x", e.key, show(vs), got, err, want)
	}
	for i := range got {
		got[i] ^= 0xff // the caller's own
	}
	got = append(got[:0], make([]byte, 8)...)
	again, err := def.Pack(e.key, gos...)
	if err != nil || !bytes.Equal(again, want) {
		rt.Fatalf("after the packed bytes were changed by their owner %s packs to %x (%v), not %x", e.key, again, err, want)
	}
	bare, err := def.PackInputWithoutID(e.key, gos...)
	if err != nil || !bytes.Equal(bare, in) {
		rt.Fatalf("without id: %x (%v)", bare, err)
	}
	s, err := def.MethodString(want)
	if only {
		wantS := e.key + "(" + texts(e.in, vs, m.Inputs) + ")"
		if err != nil || s != wantS {
			rt.Fatalf("MethodString %q (%v), not %q", s, err, wantS)
		}
	}
	// calls of nothing, and cut ones
	no := append([]byte{}, m.ID...)
	for taken := true; taken; {
		no[h.Int(rt, 0, 3, "which")] ^= byte(h.Int(rt, 1, 255, "mask"))
		taken = false
		for _, x := range def.Methods {
			taken = taken || bytes.Equal(x.ID, no)
		}
	}
	bads := [][]byte{nil, {}, want[:h.Int(rt, 0, 3, "short")], append(append([]byte{}, no...), in...), no}
	if len(e.in) > 0 {
		bads = append(bads, want[:4+h.Int(rt, 0, 31, "rest")])
	}
	for _, b := range bads {
		if s, err := def.MethodString(h.Roomy(b)); err == nil {
			rt.Fatalf("MethodString of %x gives %q", b, s)
		}
		if len(b) > 4 {
			b = b[:4]
		}
		if s, err := def.ReturnsString(h.Roomy(b), encSeq(e.out, drawVals(rt, e.out))); err == nil && !bytes.Equal(b, m.ID) {
			rt.Fatalf("ReturnsString of %x gives %q", b, s)
		}
	}
	if len(e.out) > 0 && only {
		if s, err := def.ReturnsString(m.ID, make([]byte, h.Int(rt, 0, 31, "rest"))); err == nil {
			rt.Fatalf("ReturnsString of too few bytes gives %q", s)
		}
	}
	mp := map[string]interface{}{}
	err = def.InputUnpack(mp, e.key, in)
	if (err == nil) != (len(in) > 0) {
		rt.Fatalf("InputUnpack: %v", err)
	}
	// returns
	rs := drawVals(rt, e.out)
	out := encSeq(e.out, rs)
	got, err = def.PackReturns(e.key, e.goIn(rt, m.Outputs, rs, e.out)...)
	if err != nil || !bytes.Equal(got, out) {
		rt.Fatalf("returns %s pack to %x (%v)", show(rs), got, err)
	}
	if def.Events[e.key].Name == "" { // no event of the same key
		vals, err := def.Unpack(e.key, out)
		if err != nil {
			rt.Fatalf("returns %x: %v", out, err)
		}
		bv, err := fromGos(e.out, vals)
		if err != nil || !eqs(e.out, bv, rs) {
			rt.Fatalf("returns unpack to %v (%v), not %s", vals, err, show(rs))
		}
	}
	if only {
		s, err = def.ReturnsString(m.ID, out)
		if wantS := "returns (" + texts(e.out, rs, m.Outputs) + ")"; err != nil || s != wantS {
			rt.Fatalf("ReturnsString %q (%v), not %q", s, err, wantS)
		}
	}
	if distinct(e.outN) && len(out) > 0 {
		mp = map[string]interface{}{}
		if err := def.UnpackReturnsMap(mp, e.key, out); err != nil || len(mp) != len(e.out) {
			rt.Fatalf("UnpackReturnsMap gives %v, %v", mp, err)
		}
		for i, t := range e.out {
			v, err := t.fromGo(reflect.ValueOf(mp[e.outN[i]]))
			if err != nil || !t.eq(v, rs[i]) {
				rt.Fatalf("UnpackReturnsMap gives %v for %q", mp[e.outN[i]], e.outN[i])
			}
		}
	}
	if distinct(e.outN) && len(out) > 0 && def.Events[e.key].Name == "" {
		mp = map[string]interface{}{}
		if err := def.UnpackIntoMap(mp, e.key, out); err != nil || len(mp) != len(e.out) {
			rt.Fatalf("UnpackIntoMap gives %v, %v", mp, err)
		}
		for i, t := range e.out {
			v, err := t.fromGo(reflect.ValueOf(mp[e.outN[i]]))
			if err != nil || !t.eq(v, rs[i]) {
				rt.Fatalf("UnpackIntoMap gives %v for %q", mp[e.outN[i]], e.outN[i])
			}
		}
	}
	if len(e.out) > 1 {
		calls := []func(dst interface{}) error{func(d interface{}) error { return def.UnpackReturns(d, e.key, out) }}
		if def.Events[e.key].Name == "" {
			calls = append(calls, func(d interface{}) error { return def.UnpackIntoInterface(d, e.key, out) })
		}
		for _, call := range calls {
			rdst := make([]interface{}, len(e.out))
			if err := call(&rdst); err != nil {
				rt.Fatalf("returns into a list: %v", err)
			}
			bv, err := fromGos(e.out, rdst)
			if err != nil || !eqs(e.out, bv, rs) {
				rt.Fatalf("returns into a list: %v (%v), not %s", rdst, err, show(rs))
			}
		}
		for _, err := range []error{def.UnpackReturns(new(interface{}), e.key, nil), def.UnpackReturns(&[]interface{}{1, 2}, e.key, out[1:]),
			def.UnpackReturnsMap(mp, e.key, nil), def.UnpackReturnsMap(mp, e.key, out[1:]), def.UnpackReturns(&rs, "nothing", out), def.UnpackIntoMap(mp, "nothing", out)} {
			if err == nil {
				rt.Fatal("returns that cannot be are unpacked")
			}
		}
	}
	// an object with the inputs of the call
	dst := make([]interface{}, len(e.in))
	if len(e.in) > 1 {
		if err := def.UnpackInputObject(&dst, e.key, want); err != nil {
			rt.Fatalf("UnpackInputObject: %v", err)
		}
		bv, err := fromGos(e.in, dst)
		if err != nil || !eqs(e.in, bv, vs) {
			rt.Fatalf("UnpackInputObject gives %v (%v)", dst, err)
		}
		dst = make([]interface{}, len(e.in))
		if err := def.UnpackInput(&dst, e.key, in); err != nil {
			rt.Fatalf("UnpackInput: %v", err)
		}
	}
	other := append([]byte{}, want...)
	other[h.Int(rt, 0, 3, "at")] ^= 1
	if err := def.UnpackInputObject(&dst, e.key, other); err != abi.ErrInputNotMatch {
		rt.Fatalf("UnpackInputObject of another method's call: %v", err)
	}
	if err := def.UnpackInputObject(&dst, e.key, want[:3]); err != abi.ErrInputTooShort {
		rt.Fatalf("UnpackInputObject of 3 bytes: %v", err)
	}
}

func distinct(ss []string) bool {
	m := map[string]bool{}
	for _, s := range ss {
		if m[s] {
			return false
		}
		m[s] = true
	}
	return true
}

// A03: definitions of any text are read or refused; what was read can be used without a crash.
func TestA03_garbage(t *testing.T) {
	odd := []string{"bytes33", "bytes64", "bytes0", "bytes", "uint7", "uint", "int", "uint264", "uint512", "int0", "uint256[99999999999999999999]", "uint256[2305843009213693952]",
		"uint8[9223372036854775807]", "uint256[1152921504606846976][2]", "string[4294967296][4294967296]", "uint256[1000000][1000000]", "tuple", "tuple[]", "tuple[2]",
		"function[3]", "uint256[][", "]uint256[", "[]", "[2]", "", "uint256[-1]", "uint256[0]", "uint256[0][]", "string[0]", "tuple[0]", "bytes32[1][1][1]", "fixed128x18", "address20", "bool8",
		"uint256 ", "uint256foo", "struct Foo", "uint256[a]", "uint256[1 2]", "bytes18446744073709551616", "uint9223372036854775807"}
	h.Check(t, "a definition with an odd type or altered text that is read", h.N{Quick: 10000, Thorough: 200000}, func(rt *rapid.T, c *h.C) {
		// these name nothing at all
		none := []string{"bytes33", "bytes64", "uint256[99999999999999999999]", "uint256[2305843009213693952]", "uint8[9223372036854775807]", "uint256[1152921504606846976][2]",
			"string[4294967296][4294967296]", "uint256[][", "[]", "", "struct Foo", "foo", "map", "mapping(uint256)", "bytes18446744073709551616", "fo[3]", "bytes33[]", "bytes33[2][]"}
		var list []interface{}
		impossible, intact := false, true
		for i := h.Int(rt, 1, 3, "items"); i > 0; i-- {
			m := drawEntry(rt).json()
			which := rapid.SampledFrom([]string{"inputs", "outputs"}).Draw(rt, "side")
			if in, ok := m[which].([]interface{}); ok && len(in) > 0 && h.OneIn(rt, 3, "none") && (which == "inputs" || m["type"] == "function") && m["type"] != "fallback" && m["type"] != "receive" {
				a := in[h.Int(rt, 0, len(in)-1, "arg")].(map[string]interface{})
				for {
					cs, ok := a["components"].([]interface{})
					if !ok || !h.Bool(rt, "deeper") {
						break
					}
					a = cs[h.Int(rt, 0, len(cs)-1, "component")].(map[string]interface{})
				}
				a["type"] = rapid.SampledFrom(none).Draw(rt, "nothing")
				impossible = true
				list = append(list, m)
				continue
			}
			if in, ok := m["inputs"].([]interface{}); ok && len(in) > 0 {
				a := in[h.Int(rt, 0, len(in)-1, "arg")].(map[string]interface{})
				a["type"] = rapid.SampledFrom(odd).Draw(rt, "odd")
				if cs, ok := a["components"].([]interface{}); ok && h.Bool(rt, "inner") {
					a["type"] = "tuple"
					cs[0].(map[string]interface{})["type"] = rapid.SampledFrom(odd).Draw(rt, "odd2")
					if h.OneIn(rt, 4, "cname") {
						cs[0].(map[string]interface{})["name"] = rapid.SampledFrom([]string{"", "_", "1a", "ä", "变", "a变", "$", "a b", "a\"b", "String", "Error"}).Draw(rt, "cn")
					}
				}
			}
			list = append(list, m)
		}
		text, _ := json.Marshal(list)
		for i := h.Int(rt, 0, 2, "alter"); i > 0; i-- {
			p := h.Int(rt, 0, len(text)-1, "at")
			intact = false
			switch h.Int(rt, 0, 3, "how") {
			case 0:
				text[p] = rapid.SampledFrom([]byte(`"[]{},:0159nultrefas`)).Draw(rt, "byte")
			case 1:
				text = append(text[:p:p], text[p+1:]...)
			}
		}
		c.Op("%s", text)
		def, err := abi.JSON(bytes.NewReader(text))
		c.Class(fmt.Sprintf("read=%t", err == nil))
		c.NonTrivial(err == nil)
		if err != nil {
			return
		}
		if intact && impossible {
			rt.Fatalf("a definition with a type that cannot be is read")
		}
		data := append(num(32), fixed(rt, 32*h.Int(rt, 0, 4, "words"))...)
		if h.Bool(rt, "zero") {
			data = make([]byte, 32*h.Int(rt, 0, 6, "words"))
		}
		for _, m := range def.Methods {
			_, _ = m.Inputs.Unpack(data)
			_, _ = m.Outputs.Unpack(data)
			_, _ = def.MethodString(append(append([]byte{}, m.ID...), data...))
			_ = m.String()
		}
		for _, e := range def.Events {
			_, _ = e.Inputs.Unpack(data)
			_, _ = def.EventString([]common.Hash{e.ID, {}, {1}, {2}}, data)
			_ = e.String()
		}
		for _, e := range def.Errors {
			_, _ = e.Unpack(append(append([]byte{}, e.ID[:4]...), data...))
			_ = e.String()
		}
	})
}

// A03: revert reasons.
func TestA03_revert(t *testing.T) {
	h.Check(t, "always", h.N{Quick: 8000, Thorough: 100000}, func(rt *rapid.T, c *h.C) {
		st := &at{k: kString}
		v := drawVal(rt, st)
		data := append(keccak([]byte("Error(string)"))[:4], encSeq([]*at{st}, []*value{v})...)
		c.Op("%x", data)
		c.NonTrivial(true)
		got, err := abi.UnpackRevert(data)
		if err != nil || got != string(v.bs) {
			rt.Fatalf("revert data give %q, %v", got, err)
		}
		p := h.Int(rt, 0, len(data)-1, "at")
		alt := append([]byte{}, data...)
		alt[p] ^= byte(1 << uint(h.Int(rt, 0, 7, "bit")))
		cut := alt[:h.Int(rt, 0, len(alt), "cut")]
		for _, d := range [][]byte{alt, cut} {
			var want []byte
			var werr error = errData
			if len(d) > 4 && bytes.Equal(d[:4], data[:4]) {
				var l *value
				if l, werr = decSeq([]*at{st}, d[4:]); werr == nil {
					want = l.l[0].bs
				}
			}
			got, err := abi.UnpackRevert(d)
			if (err == nil) != (werr == nil) || err == nil && got != string(want) {
				rt.Fatalf("revert data %x give %q, %v instead of %q, %v", d, got, err, want, werr)
			}
		}
	})
}
