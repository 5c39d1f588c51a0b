package abi_t

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/ThinkiumGroup/go-common/abi"
	"pgregory.net/rapid"

	"verifharness/h"
)

// ---- A04: selectors ------------------------------------------------------------------------

// sel is a type in a selector: an elementary one by its text, or a tuple, maybe a list of them.
type sel struct {
	el   string
	cs   []*sel
	list bool
}

func (s *sel) String() string {
	if s.cs == nil {
		return s.el
	}
	out := "(" + sels(s.cs) + ")"
	if s.list {
		out += "[]"
	}
	return out
}

func sels(ss []*sel) string {
	var out []string
	for _, s := range ss {
		out = append(out, s.String())
	}
	return strings.Join(out, ",")
}

func drawSel(rt *rapid.T, depth int) *sel {
	if depth > 0 && h.OneIn(rt, 3, "tuple") {
		s := &sel{list: h.OneIn(rt, 3, "list")}
		for i := h.Int(rt, 1, 4, "fields"); i > 0; i-- {
			s.cs = append(s.cs, drawSel(rt, depth-1))
		}
		return s
	}
	e := rapid.SampledFrom([]string{"uint256", "int8", "address", "bool", "bytes", "string", "bytes32", "function", "uint64"}).Draw(rt, "el")
	for h.OneIn(rt, 4, "array") {
		e += rapid.SampledFrom([]string{"[]", "[1]", "[3]", "[12]"}).Draw(rt, "dim")
	}
	return &sel{el: e}
}

func checkSel(rt *rapid.T, where string, got []abi.ArgumentMarshaling, ss []*sel) {
	if len(got) != len(ss) {
		rt.Fatalf("%s has %d arguments, not %d", where, len(got), len(ss))
	}
	for i, s := range ss {
		typ := s.el
		if s.cs != nil {
			typ = "tuple"
			if s.list {
				typ = "tuple[]"
			}
		}
		if got[i].Type != typ || got[i].InternalType != typ || got[i].Indexed || got[i].Name != fmt.Sprintf("name%d", i) {
			rt.Fatalf("%s: argument %d is %+v, not %s", where, i, got[i], s)
		}
		checkSel(rt, where+"."+got[i].Name, got[i].Components, s.cs)
	}
}

var (
	selOuter = regexp.MustCompile(`(?s)^[a-zA-Z$_][a-zA-Z0-9$_]*\((.*)\)$`)
	selEl    = `(?:#|[a-zA-Z][a-zA-Z0-9]*(?:\[[0-9]*\])*)`
	selInner = regexp.MustCompile(`\(` + selEl + `(?:,` + selEl + `)*\)(?:\[\])?`)
	selList  = regexp.MustCompile(`^` + selEl + `(?:,` + selEl + `)*$`)
)

// isSelector tells whether the text is a selector, by reducing it from the inside.
func isSelector(s string) bool {
	m := selOuter.FindStringSubmatch(s)
	if m == nil || strings.Contains(s, "#") {
		return false
	}
	in := m[1]
	if in == "" {
		return true
	}
	for {
		next := selInner.ReplaceAllStringFunc(in, func(string) string { return "#" })
		if next == in {
			break
		}
		in = next
	}
	return selList.MatchString(in)
}

// A04: a selector is read exactly if it is one, as the method it names.
func TestA04_selector(t *testing.T) {
	h.Check(t, "a selector with a tuple, or altered text", h.N{Quick: 60000, Thorough: 1500000}, func(rt *rapid.T, c *h.C) {
		name := rapid.SampledFrom([]string{"f", "transfer", "_x", "$a", "set_value1", "A9$", "zZ0", "Zero", "aNameWhichIsLongerThanAWordOfThirtyTwoBytes"}).Draw(rt, "name")
		var ss []*sel
		for i := h.Int(rt, 0, 4, "args"); i > 0; i-- {
			ss = append(ss, drawSel(rt, 3))
		}
		text := name + "(" + sels(ss) + ")"
		if !isSelector(text) {
			rt.Fatalf("HARNESS-ERROR %s", text)
		}
		c.Op("%s", text)
		got, err := abi.ParseSelector(text)
		if err != nil {
			rt.Fatalf("%s is refused: %v", text, err)
		}
		if got.Name != name || got.Type != "function" {
			rt.Fatalf("%s is %q of type %q", text, got.Name, got.Type)
		}
		checkSel(rt, text, got.Inputs, ss)
		tup := strings.Contains(sels(ss), "(")
		// the same as a definition
		js, err := json.Marshal([]interface{}{got})
		if err != nil {
			rt.Fatalf("%s: %v", text, err)
		}
		def, err := abi.JSON(bytes.NewReader(js))
		if err != nil || len(def.Methods) != 1 {
			rt.Fatalf("the definition %s made of %s is refused: %v", js, text, err)
		}
		m := def.Methods[name]
		if m.Sig != text || !bytes.Equal(m.ID, keccak([]byte(text))[:4]) {
			rt.Fatalf("%s becomes %s", text, m.Sig)
		}
		// other texts
		alt := []byte(text)
		for i := h.Int(rt, 0, 3, "alter"); i > 0; i-- {
			if len(alt) == 0 {
				break
			}
			p := h.Int(rt, 0, len(alt)-1, "at")
			b := rapid.SampledFrom([]byte("()[],azAZ09_$ -#@`{/:\x00\xff")).Draw(rt, "byte")
			switch h.Int(rt, 0, 3, "how") {
			case 0:
				alt[p] = b
			case 1:
				alt = append(alt[:p:p], alt[p+1:]...)
			case 2:
				alt = append(alt[:p:p], append([]byte{b}, alt[p:]...)...)
			default:
				alt = alt[:p]
			}
		}
		as := string(alt)
		c.Op("altered %q", as)
		c.NonTrivial(tup || as != text)
		_, err = abi.ParseSelector(as)
		want := isSelector(as)
		c.Class(fmt.Sprintf("altered=%t selector=%t", as != text, want))
		if (err == nil) != want {
			rt.Fatalf("%q is read with %v; selector: %t", as, err, want)
		}
	})
}

// A04: any text.
func FuzzA04_selector(f *testing.F) {
	for _, s := range []string{"f()", "f(uint256,(bool,address[])[],bytes32)", "foo", "f(uint256)[]", "f((a,b)[2])", "", "f(uint256;bool)"} {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, s string) {
		_, err := abi.ParseSelector(s)
		if (err == nil) != isSelector(s) {
			t.Fatalf("%q is read with %v; selector: %t", s, err, isSelector(s))
		}
	})
}

// ---- A06: destinations ---------------------------------------------------------------------

// altType is another Go type a value of the type may be put in.
func (t *at) altType(rt *rapid.T, typ reflect.Type) reflect.Type {
	out := typ
	switch t.k {
	case kSlice:
		out = reflect.SliceOf(t.el.altType(rt, typ.Elem()))
	case kArray:
		out = reflect.ArrayOf(t.n, t.el.altType(rt, typ.Elem()))
	case kTuple:
		var fs []reflect.StructField
		for i, c := range t.cs {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Part%d", i), Type: c.altType(rt, typ.Field(i).Type)})
		}
		out = reflect.StructOf(fs)
	}
	switch {
	case h.OneIn(rt, 8, "any"):
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case h.OneIn(rt, 6, "pointer") && out.Kind() != reflect.Ptr:
		return reflect.PtrTo(out)
	}
	return out
}

// plain follows pointers and interfaces to the value read, except to numbers.
func (t *at) plain(rv reflect.Value) reflect.Value {
	for {
		switch {
		case rv.Kind() == reflect.Interface && !rv.IsNil():
			rv = rv.Elem()
		case rv.Kind() == reflect.Ptr && !rv.IsNil() && rv.Type().String() != "*big.Int":
			rv = rv.Elem()
		default:
			return rv
		}
	}
}

// readBack reads what came into a destination made by altType.
func (t *at) readBack(rv reflect.Value) (*value, error) {
	rv = t.plain(rv)
	switch t.k {
	case kSlice, kArray:
		v := &value{l: []*value{}}
		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
			return nil, fmt.Errorf("a %s came as %v", t.sig(), rv.Kind())
		}
		for i := 0; i < rv.Len(); i++ {
			e, err := t.el.readBack(rv.Index(i))
			if err != nil {
				return nil, err
			}
			v.l = append(v.l, e)
		}
		return v, nil
	case kTuple:
		if rv.Kind() != reflect.Struct || rv.NumField() != len(t.cs) {
			return nil, fmt.Errorf("a %s came as %v", t.sig(), rv.Kind())
		}
		v := &value{l: []*value{}}
		for i, c := range t.cs {
			e, err := c.readBack(rv.Field(i))
			if err != nil {
				return nil, err
			}
			v.l = append(v.l, e)
		}
		return v, nil
	}
	return t.fromGo(rv)
}

// hasAny: holding a pointer to a number, an interface does not take another type (as upstream).
func hasAny(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Interface:
		return true
	case reflect.Slice, reflect.Array, reflect.Ptr:
		return hasAny(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField() && t != reflect.TypeOf(big.Int{}); i++ {
			if hasAny(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

type unfit struct{ A, B float64 }

// A06: values go where the names say, or nowhere with an error.
func TestA06_destination(t *testing.T) {
	h.Check(t, "more than one argument, or a composite one", h.N{Quick: 30000, Thorough: 500000}, func(rt *rapid.T, c *h.C) {
		ts := drawAts(rt, 1, 4, 3)
		var names []string
		for i := range ts {
			names = append(names, rapid.SampledFrom([]string{"a", "to_addr", "_owner", "longName", "X"}).Draw(rt, "name")+fmt.Sprint(i))
		}
		args := goArgs(rt, ts, names)
		vs := drawVals(rt, ts)
		data := encSeq(ts, vs)
		c.Op("(%s) %s", sigs(ts), show(vs))
		c.NonTrivial(len(ts) > 1 || complexTypes(ts) > 0)

		// a map
		mp := map[string]interface{}{}
		if err := args.UnpackIntoMap(mp, data); err != nil || len(mp) != len(ts) {
			rt.Fatalf("into a map: %v, %v", mp, err)
		}
		for i, tt := range ts {
			v, err := tt.fromGo(reflect.ValueOf(mp[names[i]]))
			if err != nil || !tt.eq(v, vs[i]) {
				rt.Fatalf("the map has %v (%v) for %s", mp[names[i]], err, names[i])
			}
		}
		if err := args.UnpackIntoMap(nil, data); err == nil {
			rt.Fatalf("unpacking into a nil map gives no error")
		}

		// one value
		if len(ts) == 1 {
			dt := ts[0].altType(rt, args[0].Type.GetType())
			if dt.Kind() == reflect.Struct || h.Bool(rt, "wrapped") {
				dt = reflect.StructOf([]reflect.StructField{{Name: "Only", Type: dt}})
			}
			dst := reflect.New(dt)
			c.Op("into %v", dt)
			if err := args.UnpackIntoInterface(dst.Interface(), data); err != nil {
				rt.Fatalf("into %v: %v", dt, err)
			}
			got := dst.Elem()
			if dt.Kind() == reflect.Struct && dt.NumField() == 1 && dt.Field(0).Name == "Only" {
				got = got.Field(0)
			}
			v, err := ts[0].readBack(got)
			if err != nil || !ts[0].eq(v, vs[0]) {
				rt.Fatalf("%v holds %v (%v)", dt, got.Interface(), err)
			}
		} else {
			// a struct with the fields in another order
			order := perm(rt, len(ts))
			var fs []reflect.StructField
			tagged := map[string]bool{}
			for k, i := range order {
				f := reflect.StructField{Name: abi.ToCamelCase(names[i]), Type: ts[i].altType(rt, args[i].Type.GetType())}
				if h.OneIn(rt, 4, "tag") {
					f.Name, f.Tag = fmt.Sprintf("Tagged%d", k), reflect.StructTag(fmt.Sprintf(`abi:"%s"`, names[i]))
					tagged[names[i]] = true
				}
				fs = append(fs, f)
			}
			if h.Bool(rt, "extra") {
				fs = append(fs, reflect.StructField{Name: "Unrelated", Type: reflect.TypeOf("")})
			}
			st := reflect.StructOf(fs)
			dst := reflect.New(st)
			c.Op("into %v", st)
			if err := args.UnpackIntoInterface(dst.Interface(), data); err != nil {
				rt.Fatalf("into %v: %v", st, err)
			}
			for k, i := range order {
				v, err := ts[i].readBack(dst.Elem().Field(k))
				if err != nil || !ts[i].eq(v, vs[i]) {
					rt.Fatalf("%s of %v holds %v (%v), not %s", st.Field(k).Name, st, dst.Elem().Field(k).Interface(), err, vs[i])
				}
			}
			// once more into the same struct: the new values, and lists kept from before stay as they are
			if again := drawVals(rt, ts); !hasAny(st) {
				kept := make([]reflect.Value, len(order))
				for k := range order {
					kept[k] = reflect.New(st.Field(k).Type).Elem()
					kept[k].Set(dst.Elem().Field(k))
				}
				c.Op("again %s", show(again))
				if err := args.UnpackIntoInterface(dst.Interface(), encSeq(ts, again)); err != nil {
					rt.Fatalf("into %v again: %v", st, err)
				}
				for k, i := range order {
					v, err := ts[i].readBack(dst.Elem().Field(k))
					if err != nil || !ts[i].eq(v, again[i]) {
						rt.Fatalf("%s of %v holds %v (%v), not %s, when unpacked into again", st.Field(k).Name, st, dst.Elem().Field(k).Interface(), err, again[i])
					}
					if kk := kept[k].Kind(); kk == reflect.Slice || kk == reflect.Array || kk == reflect.String {
						if v, err := ts[i].readBack(kept[k]); err != nil || !ts[i].eq(v, vs[i]) {
							rt.Fatalf("what was kept of %s of %v became %v (%v) from %s when %s was unpacked", st.Field(k).Name, st, kept[k].Interface(), err, vs[i], again[i])
						}
					}
				}
				c.Class("again")
			}
			// structs that do not fit
			k := h.Int(rt, 0, len(order)-1, "bad")
			bad := append([]reflect.StructField{}, fs...)
			what := rapid.SampledFrom([]string{"kind", "missing", "unknown tag", "empty tag", "two", "unexported", "stolen", "double"}).Draw(rt, "what")
			switch what {
			case "kind":
				bad[k].Type = reflect.TypeOf(0.5)
			case "missing":
				bad = append(bad[:k:k], bad[k+1:]...)
			case "unknown tag":
				bad = append(bad, reflect.StructField{Name: "Odd", Type: reflect.TypeOf(""), Tag: `abi:"nobody"`})
			case "empty tag":
				bad = append(bad, reflect.StructField{Name: "Odd", Type: reflect.TypeOf(""), Tag: `abi:""`})
			case "two":
				bad = append(bad, reflect.StructField{Name: "Odd1", Type: bad[k].Type, Tag: reflect.StructTag(fmt.Sprintf(`abi:"%s"`, names[order[k]]))},
					reflect.StructField{Name: "Odd2", Type: bad[k].Type, Tag: reflect.StructTag(fmt.Sprintf(`abi:"%s"`, names[order[k]]))})
			case "stolen": // a field of one argument's name, tagged with another's
				j := (k + 1) % len(order)
				bad[k].Name, bad[k].Tag = abi.ToCamelCase(names[order[j]]), reflect.StructTag(fmt.Sprintf(`abi:"%s"`, names[order[k]]))
				bad[j].Name, bad[j].Tag = "Elsewhere", ""
			case "double": // one field by name, another one by tag
				bad[k].Name, bad[k].Tag = "Other", reflect.StructTag(fmt.Sprintf(`abi:"%s"`, names[order[k]]))
				bad = append(bad, reflect.StructField{Name: abi.ToCamelCase(names[order[k]]), Type: bad[k].Type})
			case "unexported":
				bad[k].Name, bad[k].PkgPath, bad[k].Tag = "hidden", "some/where", ""
			}
			c.Class("unfit=" + what)
			bt := reflect.StructOf(bad)
			if err := args.UnpackIntoInterface(reflect.New(bt).Interface(), data); err == nil {
				rt.Fatalf("%v takes the values although it does not fit (%s)", bt, what)
			}
			// a list
			list := make([]interface{}, len(ts)+h.Int(rt, 0, 1, "more"))
			if err := args.UnpackIntoInterface(&list, data); err != nil {
				rt.Fatalf("into a list: %v", err)
			}
			if bv, err := fromGos(ts, list[:len(ts)]); err != nil || !eqs(ts, bv, vs) {
				rt.Fatalf("the list has %v (%v)", list, err)
			}
			list = make([]interface{}, len(ts)-1)
			if err := args.UnpackIntoInterface(&list, data); err == nil {
				rt.Fatalf("a list of %d takes %d values", len(list), len(ts))
			}
			// names that become the same field
			i := h.Int(rt, 0, len(ts)-2, "twin")
			twin := append(abi.Arguments{}, args...)
			twin[i+1].Name = "_" + twin[i].Name
			var tf []reflect.StructField
			for j, a := range twin {
				if j != i+1 {
					tf = append(tf, reflect.StructField{Name: abi.ToCamelCase(a.Name), Type: a.Type.GetType()})
				}
			}
			if err := twin.UnpackIntoInterface(reflect.New(reflect.StructOf(tf)).Interface(), data); err == nil {
				rt.Fatalf("arguments %s and %s both went to one field", twin[i].Name, twin[i+1].Name)
			}
		}

		// destinations of any kind: an error or the values, not a crash
		shape := ts[h.Int(rt, 0, len(ts)-1, "shape")]
		s, cs := shape.decl()
		typ, _ := abi.NewType(s, "", cs)
		gt := typ.GetType()
		var nilPtr *unfit
		var nilStr *string
		odd := []interface{}{nil, 0, "x", nilPtr, nilStr, &nilPtr, &nilStr, new(int), new(string), new(unfit), new(struct{}), new([]unfit), new([2]unfit), new([2][2]byte),
			new(map[string]int), new(func()), new(chan int), new(*[3]unfit), new(**unfit), new([32]byte), new([]byte), new(interface{}), new(error), unfit{}, []interface{}{1}, map[string]interface{}{},
			new(struct{ A []unfit }), new(struct{ A [1]int }), new(struct{ A struct{} }), new(struct{ A *struct{ b int } }), new(struct{ a []byte }), new(struct{ A [4]byte }),
			reflect.New(reflect.SliceOf(gt)).Interface(), reflect.New(reflect.ArrayOf(2, gt)).Interface(), reflect.New(reflect.PtrTo(gt)).Interface(), reflect.Zero(gt).Interface(), reflect.Zero(reflect.PtrTo(gt)).Interface(),
			reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "B", Type: gt}})).Interface()}
		d := odd[h.Int(rt, 0, len(odd)-1, "odd")]
		c.Op("into odd %T", d)
		err := args.UnpackIntoInterface(d, data)
		c.Class(fmt.Sprintf("odd=%t", err == nil))
		if rv := reflect.ValueOf(d); err == nil && (rv.Kind() != reflect.Ptr || rv.IsNil()) {
			rt.Fatalf("a %T takes values", d)
		}
	})
}
