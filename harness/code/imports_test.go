package code

import (
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
	"verif/harness/h"
)

// A universe of packages with awkward paths; each declares the same type names.
var upkgs = [][2]string{ // path, package name
	{"x.test/a/util", "util"}, {"x.test/b/util", "util"}, {"x.test/c/util2", "util2"}, {"x.test/go-util", "util"}, {"x.test/util/v2", "util"},
	{"gopkg.in/yaml.v3", "yaml"}, {"x.test/d/type", "typ"}, {"x.test/d/string", "str"}, {"x.test/d/error", "errs"}, {"x.test/e/odd", "different"},
	{"util", "util"}, {"x.test/f/9lives", "lives"}, {"x.test/g/init", "start"}, {"x.test/h/nil", "null"}, {"x.test/i/func", "fun"},
	{"x.test/j/a.b", "ab"}, {"x.test/k/a_b", "a_b"}, {"x.test/l/int", "integer"}, {"x.test/m/util", "other"}, {"x.test/n/_", "under"},
}

type universe map[string]*types.Package

func (u universe) Import(path string) (*types.Package, error) {
	if p, ok := u[path]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("no package %q", path)
}

func newUniverse() universe {
	u := universe{}
	for _, s := range upkgs {
		p := types.NewPackage(s[0], s[1])
		for _, n := range []string{"T", "U", "Context"} {
			tn := types.NewTypeName(token.NoPos, p, n, nil)
			types.NewNamed(tn, types.Typ[types.Int], nil)
			p.Scope().Insert(tn)
		}
		tn := types.NewTypeName(token.NoPos, p, "Box", nil)
		named := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
		tp := types.NewTypeParam(types.NewTypeName(token.NoPos, p, "P", nil), types.Universe.Lookup("any").Type())
		named.SetTypeParams([]*types.TypeParam{tp})
		p.Scope().Insert(tn)
		fn := types.NewFunc(token.NoPos, p, "F", types.NewSignatureType(nil, nil, nil, nil, nil, false))
		p.Scope().Insert(fn)
		p.MarkComplete()
		u[s[0]] = p
	}
	return u
}

type pair struct {
	code gocode.TypeName
	typ  types.Type
}

type tgen struct {
	t    *rapid.T
	u    universe
	pool []string // package paths in use
}

var basicTypes = append([]string{}, basicNames...)

func (g *tgen) gen(depth int, comparable bool) pair {
	k := rapid.IntRange(0, 13).Draw(g.t, "kind")
	if depth <= 0 {
		k = k % 6
	}
	if comparable && k >= 7 {
		k = k % 6
	}
	switch k {
	case 0, 1:
		n := rapid.SampledFrom(basicTypes).Draw(g.t, "basic")
		if comparable && n == "error" {
			n = "string"
		}
		return pair{&gocode.BasicType{Name: n}, types.Universe.Lookup(n).Type()}
	case 2, 3, 4, 5:
		p := g.u[rapid.SampledFrom(g.pool).Draw(g.t, "pkg")]
		n := rapid.SampledFrom([]string{"T", "U", "Context"}).Draw(g.t, "name")
		return pair{&gocode.UserType{Package: p.Path(), Name: n}, p.Scope().Lookup(n).Type()}
	case 6:
		e := g.gen(depth-1, false)
		return pair{&gocode.Pointer{PointerTo: e.code}, types.NewPointer(e.typ)}
	case 7, 8:
		e := g.gen(depth-1, false)
		return pair{&gocode.Slice{SliceOf: e.code}, types.NewSlice(e.typ)}
	case 9:
		e := g.gen(depth-1, false)
		n := rapid.IntRange(0, 3).Draw(g.t, "len")
		return pair{&gocode.Array{Length: fmt.Sprint(n), ArrayOf: e.code}, types.NewArray(e.typ, int64(n))}
	case 10:
		kk, v := g.gen(depth-1, true), g.gen(depth-1, false)
		return pair{&gocode.Map{KeyType: kk.code, ValueType: v.code}, types.NewMap(kk.typ, v.typ)}
	case 11:
		e := g.gen(depth-1, false)
		switch rapid.IntRange(0, 2).Draw(g.t, "dir") {
		case 0:
			return pair{&gocode.Chan{ChanOf: e.code}, types.NewChan(types.SendRecv, e.typ)}
		case 1:
			return pair{&gocode.SendChan{SendType: e.code}, types.NewChan(types.SendOnly, e.typ)}
		}
		return pair{&gocode.ReceiveChan{ReceiveType: e.code}, types.NewChan(types.RecvOnly, e.typ)}
	case 12:
		return pair{&gocode.AnyType{}, types.Universe.Lookup("any").Type()}
	default:
		p := g.u[rapid.SampledFrom(g.pool).Draw(g.t, "pkg")]
		e := g.gen(depth-1, false)
		inst, err := types.Instantiate(nil, p.Scope().Lookup("Box").Type(), []types.Type{e.typ}, false)
		if err != nil {
			h.EnvError("%v", err)
		}
		return pair{&gocode.GenericType{BaseType: &gocode.UserType{Package: p.Path(), Name: "Box"}, TypeParam: e.code}, inst}
	}
}

// mutate returns a type that differs from p in at most one place
func (g *tgen) similar(p pair) pair {
	switch c := p.code.(type) {
	case *gocode.Pointer:
		e := g.similar(pair{c.PointerTo, p.typ.(*types.Pointer).Elem()})
		return pair{&gocode.Pointer{PointerTo: e.code}, types.NewPointer(e.typ)}
	case *gocode.Slice:
		if rapid.IntRange(0, 3).Draw(g.t, "toarray") == 0 {
			return pair{&gocode.Array{Length: "2", ArrayOf: c.SliceOf}, types.NewArray(p.typ.(*types.Slice).Elem(), 2)}
		}
		e := g.similar(pair{c.SliceOf, p.typ.(*types.Slice).Elem()})
		return pair{&gocode.Slice{SliceOf: e.code}, types.NewSlice(e.typ)}
	case *gocode.Map:
		if rapid.Bool().Draw(g.t, "key") {
			k := pair{c.KeyType, p.typ.(*types.Map).Key()}
			if _, basic := k.code.(*gocode.BasicType); basic {
				n := rapid.SampledFrom([]string{"byte", "uint8", "rune", "int32", "string"}).Draw(g.t, "keybasic")
				k = pair{&gocode.BasicType{Name: n}, types.Universe.Lookup(n).Type()}
			}
			return pair{&gocode.Map{KeyType: k.code, ValueType: c.ValueType}, types.NewMap(k.typ, p.typ.(*types.Map).Elem())}
		}
		e := g.similar(pair{c.ValueType, p.typ.(*types.Map).Elem()})
		return pair{&gocode.Map{KeyType: c.KeyType, ValueType: e.code}, types.NewMap(p.typ.(*types.Map).Key(), e.typ)}
	case *gocode.Chan:
		if rapid.Bool().Draw(g.t, "dir") {
			return pair{&gocode.SendChan{SendType: c.ChanOf}, types.NewChan(types.SendOnly, p.typ.(*types.Chan).Elem())}
		}
	case *gocode.SendChan:
		if rapid.Bool().Draw(g.t, "dir") {
			return pair{&gocode.ReceiveChan{ReceiveType: c.SendType}, types.NewChan(types.RecvOnly, p.typ.(*types.Chan).Elem())}
		}
	case *gocode.GenericType:
		e := g.similar(pair{c.TypeParam, p.typ.(*types.Named).TypeArgs().At(0)})
		inst, err := types.Instantiate(nil, p.typ.(*types.Named).Origin(), []types.Type{e.typ}, false)
		if err != nil {
			h.EnvError("%v", err)
		}
		return pair{&gocode.GenericType{BaseType: c.BaseType, TypeParam: e.code}, inst}
	case *gocode.Array:
		e := g.similar(pair{c.ArrayOf, p.typ.(*types.Array).Elem()})
		return pair{&gocode.Array{Length: c.Length, ArrayOf: e.code}, types.NewArray(e.typ, p.typ.(*types.Array).Len())}
	case *gocode.BasicType:
		n := rapid.SampledFrom([]string{"byte", "uint8", "rune", "int32", "string", c.Name}).Draw(g.t, "basic")
		return pair{&gocode.BasicType{Name: n}, types.Universe.Lookup(n).Type()}
	}
	return g.gen(0, false)
}

func TestC12_Imports(t *testing.T) {
	u := newUniverse()
	h.Check(t, h.Opts{Quick: 4000, Thorough: 200000,
		Rule: "a case is a set of types from up to 6 packages written into one generated file, which is then type-checked; non-trivial when at least two packages are imported and one has an awkward path"},
		func(t *rapid.T, c *h.Case) {
			g := &tgen{t: t, u: u}
			var all []string
			for _, s := range upkgs {
				all = append(all, s[0])
			}
			g.pool = rapid.Permutation(all).Draw(t, "pkgs")[:rapid.IntRange(1, 6).Draw(t, "npkgs")]
			local := rapid.SampledFrom(append([]string{"x.test/local"}, g.pool...)).Draw(t, "local")
			c.Logf("packages %v, generating into %s", g.pool, local)
			c.NonTrivial(len(g.pool) > 2)
			im := gogen.NewImports(local)
			var lines []string
			var vars, variadic []types.Type
			n := rapid.IntRange(1, 8).Draw(t, "ntypes")
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 8).Draw(t, "op") {
				case 0: // a package used by name, as templates do
					p := rapid.SampledFrom(g.pool).Draw(t, "qualify")
					as := im.AddPackage(p)
					q := im.Qualify(p, "F")
					if p == local {
						if as != "" || q != "F" {
							c.Failf("the generated package itself is imported as %q, its member F is named %q", as, q)
						}
						q = "T(0)"
					} else if q != as+".F" {
						c.Failf("AddPackage(%s) = %q but Qualify gives %q", p, as, q)
					}
					lines = append(lines, fmt.Sprintf("var _ = %s", q))
					c.Logf("AddPackage(%s)", p)
				case 1:
					e := g.gen(3, false)
					c.Logf("...%v", e.typ)
					lines = append(lines, fmt.Sprintf("func f%d(x %s) {}", len(variadic), im.NameOf(&gocode.Ellipsis{EllipsisOf: e.code})))
					variadic = append(variadic, e.typ)
				default:
					e := g.gen(3, false)
					if rapid.Bool().Draw(t, "addtype") {
						im.AddType(e.code)
						im.AddType(e.code)
					}
					c.Logf("%v", e.typ)
					lines = append(lines, fmt.Sprintf("var zz%d %s", len(vars), im.NameOf(e.code)))
					vars = append(vars, e.typ)
				}
			}
			// the local package declares its own types
			localName := "local"
			var b strings.Builder
			if p, ok := u[local]; ok {
				localName = p.Name()
			}
			fmt.Fprintf(&b, "package %s\n\n%s\n\ntype T int\ntype U int\ntype Context int\ntype Box[P any] struct{}\n\nfunc F() {}\n\n%s\n", localName, im.String(), strings.Join(lines, "\n"))
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, "gen.go", b.String(), 0)
			if err != nil {
				c.Failf("the generated file does not parse: %v\n%s", err, b.String())
			}
			// importing the local package again must not happen: leave it out of the importer
			v := universe{}
			for k, p := range u {
				if k != local {
					v[k] = p
				}
			}
			conf := types.Config{Importer: v, DisableUnusedImportCheck: true}
			pkg, err := conf.Check(local, fset, []*ast.File{f}, nil)
			if err != nil {
				c.Failf("the generated file does not compile: %v\n%s", err, b.String())
			}
			for i, w := range vars {
				got := pkg.Scope().Lookup(fmt.Sprintf("zz%d", i)).Type()
				if !sameShape(got, w) {
					c.Failf("type %v is written so that it denotes %v\n%s", w, got, b.String())
				}
			}
			for i, w := range variadic {
				sig := pkg.Scope().Lookup(fmt.Sprintf("f%d", i)).Type().(*types.Signature)
				if !sig.Variadic() || !sameShape(sig.Params().At(0).Type().(*types.Slice).Elem(), w) {
					c.Failf("type ...%v is written so that it denotes %v\n%s", w, sig, b.String())
				}
			}
		})
}

// sameShape compares types of different type-checker runs: named types are compared by package path and name
func sameShape(a, b types.Type) bool {
	q := func(p *types.Package) string { return p.Path() }
	return canonString(types.TypeString(types.Unalias(a), q)) == canonString(types.TypeString(types.Unalias(b), q))
}

func canonString(s string) string {
	for _, r := range [][2]string{{"interface{}", "any"}} {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	return s
}

func TestC12_Equality(t *testing.T) {
	u := newUniverse()
	h.Check(t, h.Opts{Quick: 20000, Thorough: 1000000,
		Rule: "a case is a pair of types compared by Equals and by go/types; non-trivial when they are composite"},
		func(t *rapid.T, c *h.Case) {
			g := &tgen{t: t, u: u, pool: []string{"x.test/a/util", "x.test/b/util", "x.test/e/odd"}}
			a := g.gen(3, false)
			b := a
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				b = g.gen(3, false)
			case 1, 2:
				b = g.similar(a)
			}
			c.Logf("%v and %v", a.typ, b.typ)
			_, basic := a.code.(*gocode.BasicType)
			c.NonTrivial(!basic)
			want := types.Identical(a.typ, b.typ)
			if want {
				c.Label("identical")
			}
			if got := a.code.Equals(b.code); got != want {
				c.Failf("%v and %v: Equals is %v, Go's answer is %v", a.code, b.code, got, want)
			}
			if got := b.code.Equals(a.code); got != want {
				c.Failf("%v and %v: Equals is %v the other way round, Go's answer is %v", b.code, a.code, got, want)
			}
			// functions are equal when their names, arguments and results are
			x, y := g.gen(1, false), g.similar(g.gen(1, false))
			f := gocode.Func{Name: "F", Arguments: []gocode.Variable{{Name: "p", Type: a.code}, {Type: x.code}}, Returns: []gocode.Variable{{Type: y.code}}}
			k := gocode.Func{Name: "F", Arguments: []gocode.Variable{{Name: "q", Type: b.code}, {Type: x.code}}, Returns: []gocode.Variable{{Name: "r", Type: y.code}}}
			what := rapid.IntRange(0, 4).Draw(t, "func")
			switch what {
			case 1:
				k.Name, want = "G", false
			case 2:
				k.Returns, want = nil, false
			case 3:
				k.Arguments, want = k.Arguments[:1], false
			case 4:
				k.Returns[0].Type = b.code
				want = want && types.Identical(y.typ, b.typ)
			}
			if got := f.Equals(k); got != want {
				c.Failf("functions %v and %v: Equals is %v, want %v", f, k, got, want)
			}
			i1 := &gocode.ServiceInterface{Methods: map[string]gocode.Func{"F": f, "H": {Name: "H"}}}
			i2 := &gocode.ServiceInterface{Methods: map[string]gocode.Func{k.Name: k}}
			if got := i1.Contains(i2); got != want {
				c.Failf("interface with %v contains interface with %v: %v, want %v", f, k, got, want)
			}
			if i2.Contains(i1) {
				c.Failf("an interface without H contains one with H")
			}
			cp := gocode.CopyServiceInterface("X", "x.test/y", i1)
			cp.AddMethod(gocode.Func{Name: "Extra"})
			if _, leaked := i1.Methods["Extra"]; leaked || !cp.Contains(i1) || cp.Name != "X" || cp.Package != "x.test/y" {
				c.Failf("the copy of an interface is not an independent copy")
			}
		})
}

type (
	tA   struct{ X int }
	tB   string
	tI   interface{ M() }
	tF   func(int) error
	tBuf [4]tA
)

var reflected = []struct {
	code gocode.TypeName
	t    reflect.Type
}{
	ref[bool](), ref[string](), ref[int](), ref[int8](), ref[byte](), ref[uint8](), ref[rune](), ref[int32](), ref[uintptr](), ref[error](), ref[any](), ref[interface{}](),
	ref[complex128](), ref[tA](), ref[tB](), ref[tI](), ref[tF](), ref[tBuf](), ref[*tA](), ref[**tA](), ref[[]tA](), ref[[3]tA](), ref[[4]tA](), ref[map[string]tA](), ref[map[tB]tA](),
	ref[map[string]*tA](), ref[chan tA](), ref[<-chan tA](), ref[chan<- tA](), ref[chan (<-chan tA)](), ref[[][]byte](), ref[[]uint8](), ref[[]any](), ref[map[string]any](),
	ref[context.Context](), ref[time.Time](), ref[time.Duration](), ref[*time.Time](), ref[[]time.Time](), ref[[]error](), ref[map[int64][]string](), ref[[2][3]int](), ref[[3][2]int](),
}

func ref[T any]() (r struct {
	code gocode.TypeName
	t    reflect.Type
}) {
	r.code, r.t = gocode.TypeOf[T](), reflect.TypeOf(new(T)).Elem()
	return
}

func TestC12_Reflection(t *testing.T) {
	h.Check(t, h.Opts{Quick: 2000, Thorough: 20000,
		Rule: "a case is a pair of real Go types converted by TypeOf; non-trivial when they differ"},
		func(t *rapid.T, c *h.Case) {
			a, b := rapid.SampledFrom(reflected).Draw(t, "a"), rapid.SampledFrom(reflected).Draw(t, "b")
			c.Logf("%v and %v", a.t, b.t)
			c.NonTrivial(a.t != b.t)
			if got := a.code.Equals(b.code); got != (a.t == b.t) {
				c.Failf("types %v and %v: Equals is %v", a.t, b.t, got)
			}
			if a.t.PkgPath() != "" {
				u, ok := a.code.(*gocode.UserType)
				if !ok || u.Package != a.t.PkgPath() || u.Name != a.t.Name() {
					c.Failf("TypeOf %v is %#v", a.t, a.code)
				}
			}
		})
}
