package rlp_t

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"

	"verifharness/h"
)

// ---- random struct types as source text ---------------------------------------------------

type srcGen struct {
	r *rand.Rand
	// nil tags: the generated decoder does not consume the empty value (known finding), what is
	// compared for these types is left to the child
	nilTags bool
}

func (g *srcGen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

func (g *srcGen) leaf() string {
	return g.pick("bool", "uint8", "uint16", "uint32", "uint64", "string", "[]byte", "[]uint8", "xBytes", "[0]byte", "[1]byte", "[2]byte", "[20]byte",
		"[60]byte", "xArr", "big.Int", "*big.Int", "uint256.Int", "*uint256.Int", "rlp.RawValue", "*cP", "xStruct", "*xStruct", "xList")
}

// typ: comparable tells whether == must be possible (for optional structs).
func (g *srcGen) typ(depth int) string {
	if depth <= 0 {
		return g.leaf()
	}
	switch g.r.Intn(7) {
	case 0:
		l := g.leaf()
		if strings.HasPrefix(l, "*") || l == "rlp.RawValue" || l == "xBytes" || l == "xList" {
			return l
		}
		return "*" + l
	case 1:
		return "[]" + g.typ(depth-1)
	case 2:
		return g.strct(depth-1, false)
	case 3:
		return "*" + g.strct(depth-1, false)
	}
	return g.leaf()
}

// opt is a type of an optional field: comparable to its zero value by the generated code.
func (g *srcGen) opt(depth int) string {
	return g.pick("bool", "uint8", "uint16", "uint64", "string", "[]byte", "xBytes", "[1]byte", "[20]byte", "xArr", "*big.Int", "uint256.Int",
		"*uint256.Int", "*cP", "*xStruct", "xStruct", "*uint32", "[]uint64", "[][]byte", "*[]string", "struct{ A uint8; B string }", "[]"+g.typ(depth-1),
		"*"+g.strct(depth-1, false))
}

func (g *srcGen) strct(depth int, top bool) string {
	var b strings.Builder
	b.WriteString("struct {")
	n := 1 + g.r.Intn(3)
	if top {
		n = 1 + g.r.Intn(6)
	}
	firstOpt := n
	if g.r.Intn(2) == 0 {
		firstOpt = g.r.Intn(n + 1)
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("F%d", i)
		t, tag := g.typ(depth), ""
		if i >= firstOpt {
			t, tag = g.opt(depth), "optional"
		} else if g.nilTags && g.r.Intn(2) == 0 {
			t = "*" + g.pick("uint8", "string", "[]byte", "[4]byte", "xStruct", "[]uint64", "[1]byte", "xArr")
			tag = g.pick("nil", "nilList", "nilString")
		}
		if g.r.Intn(12) == 0 {
			fmt.Fprintf(&b, " ; p%d uint8", i)
		}
		if g.r.Intn(12) == 0 {
			fmt.Fprintf(&b, " ; I%d int `rlp:\"-\"`", i)
		}
		fmt.Fprintf(&b, " ; %s %s", name, t)
		if tag != "" {
			fmt.Fprintf(&b, " `rlp:\"%s\"`", tag)
		}
	}
	b.WriteString(" }")
	s := strings.Replace(b.String(), "struct { ;", "struct {", 1)
	return s
}

const childText = `package rlp_t

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"testing"

	"github.com/ThinkiumGroup/go-common/rlp"
	"pgregory.net/rapid"

	"verifharness/h"
)

// plain makes empty optional slices nil, so that both codings take them as zero.
func plain(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			plain(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		if v.Type() == tRaw {
			return
		}
		for i := 0; i < v.Len(); i++ {
			plain(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == tBig || v.Type() == tU256 || v.Type() == tCP {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			if f.Kind() == reflect.Slice && f.Len() == 0 {
				f.Set(reflect.Zero(f.Type()))
			}
			plain(f)
		}
	}
}

// filled makes pointers of nil tags point to values which are not empty (known finding: the
// generated decoder goes wrong on the empty value).
func filled(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			filled(v.Elem())
		}
	case reflect.Slice:
		if v.Type() == tRaw {
			return
		}
		for i := 0; i < v.Len(); i++ {
			filled(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == tBig || v.Type() == tU256 || v.Type() == tCP {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() || v.Type().Field(i).Tag.Get("rlp") == "-" {
				continue
			}
			if refTags(v.Type().Field(i)).nilOK {
				if f.IsNil() {
					f.Set(reflect.New(f.Type().Elem()))
				}
				e := f.Elem()
				switch e.Kind() {
				case reflect.Uint8:
					e.SetUint(7)
				case reflect.String:
					e.SetString("s")
				case reflect.Slice:
					e.Set(reflect.MakeSlice(e.Type(), 2, 2))
				}
			}
			filled(f)
		}
	}
}

func TestChild(t *testing.T) {
	var cases []childCase = childCases
	only := os.Getenv("R06_ONLY")
	for _, cc := range cases {
		if only != "" && only != cc.name {
			continue
		}
		tg, tw := cc.gen, cc.twin
		n := 0
		t.Run(cc.name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				n++
				v := reflect.New(tw)
				v.Elem().Set(drawValue(rt, tw, 5))
				plain(v.Elem())
				g := reflect.New(tg)
				g.Elem().Set(v.Elem().Convert(tg))
				want, werr := rlp.EncodeToBytes(v.Interface())
				got, gerr := rlp.EncodeToBytes(g.Interface())
				if (werr == nil) != (gerr == nil) || !bytes.Equal(want, got) {
					rt.Fatalf("%s %s: generated %s (%v), reflection %s (%v)", cc.src, show(v.Elem()), hexs(got), gerr, hexs(want), werr)
				}
				if werr != nil {
					return
				}
				wires := [][]byte{want}
				if !cc.nilTags {
					wires = append(wires, mutate(rt, want), mutate(rt, want), drawWire(rt))
				} else {
					filled(v.Elem())
					w, err := rlp.EncodeToBytes(v.Interface())
					if err != nil {
						rt.Fatalf("HARNESS-ERROR %v", err)
					}
					wires = [][]byte{w}
				}
				for _, wire := range wires {
					w, g := reflect.New(tw), reflect.New(tg)
					werr := rlp.DecodeBytes(wire, w.Interface())
					gerr := rlp.DecodeBytes(wire, g.Interface())
					if (werr == nil) != (gerr == nil) {
						rt.Fatalf("%s: wire %s: generated %v, reflection %v", cc.src, hexs(wire), gerr, werr)
					}
					if werr == nil && !eq(g.Elem().Convert(tw), w.Elem()) {
						rt.Fatalf("%s: wire %s: generated gives %s, reflection %s", cc.src, hexs(wire), show(g.Elem().Convert(tw)), show(w.Elem()))
					}
				}
			})
		})
		if t.Failed() {
			return
		}
		fmt.Printf("R06OK %s %d\n", cc.name, n)
	}
	_ = h.Thorough
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
`

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	return out.String(), err
}

func repoDir(t *testing.T, wd string) string {
	out, err := run(wd, nil, "go", "list", "-mod=mod", "-m", "-f", "{{.Dir}}", "github.com/ThinkiumGroup/go-common")
	if err != nil {
		t.Fatalf("HARNESS-ERROR go list: %v %s", err, out)
	}
	return strings.TrimSpace(out)
}

// patchedTools makes a scratch copy of the repository's go.mod in which golang.org/x/tools is a
// scratch copy with one line added: x/tools v0.10.0 expects types.SizesFor to give a
// *types.StdSizes and crashes with the Go versions (1.21 and later) where it does not.
func patchedTools(t *testing.T, repo, tmp string) string {
	out, err := run(repo, []string{"GOFLAGS=-mod=readonly"}, "go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/tools")
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v %s", err, out)
	}
	src, dst := strings.TrimSpace(out), filepath.Join(tmp, "xtools")
	err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == "testdata" || rel == "gopls" || rel == "cmd" || rel == "godoc" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || (!strings.HasSuffix(p, ".go") && fi.Name() != "go.mod") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if rel == filepath.Join("go", "packages", "golist.go") {
			const line = "response.dr.Sizes, _ = sizes.(*types.StdSizes)\n"
			b = []byte(strings.Replace(string(b), line, line+"if response.dr.Sizes == nil { response.dr.Sizes = &types.StdSizes{WordSize: 8, MaxAlign: 8} }\n", 1))
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		t.Fatalf("HARNESS-ERROR %v", err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
		if f == "go.mod" {
			b = append(b, []byte("\nreplace golang.org/x/tools => "+dst+"\n")...)
		}
		if err := os.WriteFile(filepath.Join(tmp, "gen."+strings.TrimPrefix(f, "go.")), b, 0o644); err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
	}
	return filepath.Join(tmp, "gen.mod")
}

// R06: what rlpgen generates codes values exactly as the reflection does.
func TestR06_rlpgen(t *testing.T) {
	_ = debug.SetGCPercent(100)
	perShard, checks := 12, "300"
	if h.Thorough() {
		perShard, checks = 60, "4000"
	}
	wd := filepath.Join(os.Getenv("VERIF_HARNESS"), "rlp_t")
	if os.Getenv("VERIF_HARNESS") == "" {
		wd, _ = os.Getwd()
	}
	repo := repoDir(t, wd)
	tmp := t.TempDir()
	// the generator is built from the repository's own module
	tool := filepath.Join(tmp, "rlpgen")
	if out, err := run(repo, []string{"GOFLAGS="}, "go", "build", "-modfile", patchedTools(t, repo, tmp), "-o", tool, "./rlp/rlpgen"); err != nil {
		t.Fatalf("rlpgen does not build: %v %s", err, out)
	}
	mod := filepath.Join(tmp, "m")
	pkg := filepath.Join(mod, "rlp_t")
	if err := os.MkdirAll(pkg, 0o755); err != nil {
		t.Fatal(err)
	}
	copyFile := func(from, to string, edit func(string) string) {
		b, err := os.ReadFile(from)
		if err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
		s := string(b)
		if edit != nil {
			s = edit(s)
		}
		if err := os.WriteFile(to, []byte(s), 0o644); err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
	}
	copyFile(filepath.Join(wd, "..", "go.mod"), filepath.Join(mod, "go.mod"), func(s string) string {
		s = strings.Replace(s, "module verifharness", "module scratch", 1)
		return s + fmt.Sprintf("\nrequire verifharness v0.0.0\n\nreplace verifharness => %s\n", filepath.Dir(wd))
	})
	copyFile(filepath.Join(wd, "..", "go.sum"), filepath.Join(mod, "go.sum"), nil)
	copyFile(filepath.Join(wd, "ref_test.go"), filepath.Join(pkg, "ref.go"), func(s string) string {
		s = strings.Replace(s, "func TestMain(m *testing.M) { h.Main(m) }", "", 1)
		s = strings.Replace(s, "\t\"testing\"\n", "", 1)
		return strings.Replace(s, "\t\"verifharness/h\"\n", "", 1)
	})
	copyFile(filepath.Join(wd, "gen_test.go"), filepath.Join(pkg, "gen_test.go"), nil)
	if err := os.WriteFile(filepath.Join(pkg, "child_test.go"), []byte(childText), 0o644); err != nil {
		t.Fatal(err)
	}

	g := &srcGen{r: rand.New(rand.NewSource(int64(h.Seed("R06"))))}
	var types strings.Builder
	types.WriteString(`package rlp_t

import (
	"math/big"

	"github.com/ThinkiumGroup/go-common/rlp"
	"github.com/holiman/uint256"
)

var (
	_ big.Int
	_ rlp.Kind
	_ uint256.Int
)

type (
	xBytes  []byte
	xArr    [5]byte
	xList   []uint32
	xStruct struct {
		A uint8
		B [3]byte
		C string
	}
)
`)
	type tc struct {
		name, src string
		nilTags   bool
	}
	var all []tc
	for i := 0; i < perShard; i++ {
		g.nilTags = i%4 == 3
		src := g.strct(2, true)
		all = append(all, tc{fmt.Sprintf("T%d", i), src, g.nilTags})
		fmt.Fprintf(&types, "\ntype T%d %s\n\ntype T%dw %s\n", i, src, i, src)
	}
	if err := os.WriteFile(filepath.Join(pkg, "types.go"), []byte(types.String()), 0o644); err != nil {
		t.Fatal(err)
	}
	var cases strings.Builder
	cases.WriteString("package rlp_t\n\nimport \"reflect\"\n\ntype childCase struct {\n\tname, src string\n\tgen, twin reflect.Type\n\tnilTags bool\n}\n\nvar childCases = []childCase{\n")
	// the generator works on the module it is run in
	goEnv := []string{"GOFLAGS=-mod=mod", "GOWORK=off"}
	for _, x := range all {
		out, err := run(pkg, goEnv, tool, "-dir", ".", "-type", x.name, "-decoder", "-out", "gen_"+strings.ToLower(x.name)+".go.new")
		if err != nil {
			t.Fatalf("rlpgen refuses type %s: %v %s", x.src, err, out)
		}
		fmt.Fprintf(&cases, "\t{%q, %q, reflect.TypeOf(%s{}), reflect.TypeOf(%sw{}), %t},\n", x.name, x.src, x.name, x.name, x.nilTags)
	}
	cases.WriteString("}\n")
	for _, x := range all {
		f := filepath.Join(pkg, "gen_"+strings.ToLower(x.name)+".go")
		if err := os.Rename(f+".new", f); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.WriteFile(filepath.Join(pkg, "cases_test.go"), []byte(cases.String()), 0o644); err != nil {
		t.Fatal(err)
	}
	out, err := run(pkg, append(goEnv, "VERIF_STATS="), "go", "test", "-count=1", "-vet=off", "-run", "^TestChild$", "-timeout", "30m", ".",
		"-rapid.checks="+checks, "-rapid.nofailfile", fmt.Sprintf("-rapid.seed=%d", h.Seed("R06child")))
	okLines := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if f := strings.Fields(l); len(f) == 3 && f[0] == "R06OK" {
			okLines[f[1]] = f[2]
		}
	}
	n := len(all)
	h.EnumAll(t, "a generated type whose coder agreed with reflection on all its values and altered encodings", n, func(t *testing.T, c *h.C, i int) {
		x := all[i]
		c.Op("%s: %s cases", x.src, okLines[x.name])
		c.Class(fmt.Sprintf("nil tags=%t", x.nilTags))
		c.NonTrivial(strings.Count(x.src, "F") > 1)
		if okLines[x.name] == "" && err != nil {
			if strings.Contains(out, "[build failed]") || strings.Contains(out, "[setup failed]") {
				t.Fatalf("what rlpgen generated does not compile (types %s):\n%s", types.String(), tail(out))
			}
			t.Fatalf("type %s:\n%s", x.src, tail(out))
		}
	})
	if err != nil && len(okLines) == n {
		t.Fatalf("HARNESS-ERROR %s", tail(out))
	}
}

func tail(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.Contains(l, "[rapid] draw") {
			keep = append(keep, l)
		}
	}
	s = strings.Join(keep, "\n")
	if len(s) > 5000 {
		s = s[:2500] + "\n...\n" + s[len(s)-2500:]
	}
	return s
}
