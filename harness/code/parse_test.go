package code

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/golang/goparser"
	"verif/harness/h"
)

// ---------------------------------------------------------------- generated modules

type gpkg struct {
	path, name, dir string
	std             bool
	named           []*gnamed // exported types other packages may use
	files           []*gfile
	consts          []string
	shadow          map[string]bool // predeclared names this package declares itself
}

type gnamed struct {
	pkg     *gpkg
	name    string
	kind    string // struct, iface, enum, other, generic1, generic2
	compble bool
}

type gfile struct {
	name    string
	imports map[*gpkg]string // "" = dot
	plain   map[*gpkg]bool
	used    map[string]bool // import names in use
	dot     *gpkg
	decls   []string
}

var stdPkgs = []*gpkg{
	mkStd("context", "context", "Context"), mkStd("time", "time", "Time", "Duration"), mkStd("math/rand/v2", "rand", "Rand", "PCG"),
	mkStd("text/scanner", "scanner", "Scanner"), mkStd("go/scanner", "scanner", "ErrorList"), mkStd("sync", "sync", "Mutex"),
}

func mkStd(path, name string, names ...string) *gpkg {
	p := &gpkg{path: path, name: name, std: true}
	for _, n := range names {
		p.named = append(p.named, &gnamed{pkg: p, name: n, kind: "other"})
	}
	return p
}

type mgen struct {
	t      *rapid.T
	mod    string
	n      int
	pkgs   []*gpkg
	cur    *gpkg
	f      *gfile
	tps    []string // type parameters in scope
	labels map[string]bool
}

func (g *mgen) label(s string) { g.labels[s] = true }
func (g *mgen) id(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}
func (g *mgen) pick(label string, n int) int { return rapid.IntRange(0, n-1).Draw(g.t, label) }
func (g *mgen) chance(label string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(g.t, label) >= 100-pct
}

var basicNames = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "byte", "rune", "float32", "float64", "complex64", "complex128", "error"}
var keyNames = []string{"string", "int", "int64", "uint8", "byte", "rune", "float64", "bool"}

// the text naming a type of package p in the current file
func (g *mgen) qual(p *gpkg, name string) string {
	if p == g.cur {
		return name
	}
	f := g.f
	as, ok := f.imports[p]
	if !ok {
		style := g.pick("importstyle", 4)
		switch {
		case style == 1 && f.dot == nil:
			as, f.dot = "", p
			g.label("dot-import")
		case style == 2 || f.used[p.name]:
			as = g.id("al")
			g.label("alias-import")
		default:
			as = p.name
			f.plain[p] = true
			if filepath.Base(p.path) != p.name {
				g.label("name-differs-from-path")
			}
		}
		f.imports[p] = as
		f.used[as] = true
	}
	if as == "" {
		return name
	}
	return as + "." + name
}

// typ returns the source of a random type
func (g *mgen) typ(depth int) string {
	if len(g.tps) > 0 && g.chance("usetp", 30) {
		g.label("type-param")
		return g.tps[g.pick("tp", len(g.tps))]
	}
	k := g.pick("kind", 20)
	if depth <= 0 {
		k = k % 9
	}
	switch {
	case k < 4:
		return basicNames[g.pick("basic", len(basicNames))]
	case k < 8:
		return g.namedType(depth)
	case k == 8:
		if len(g.tps) > 0 {
			g.label("type-param")
			return g.tps[g.pick("tp", len(g.tps))]
		}
		return []string{"any", "interface{}", "error"}[g.pick("any", 3)]
	case k < 11:
		return "[]" + g.typ(depth-1)
	case k == 11:
		g.label("array")
		lens := []string{"3", "0x10", "(2)", "0"}
		lens = append(lens, g.cur.consts...)
		return "[" + lens[g.pick("len", len(lens))] + "]" + g.typ(depth-1)
	case k == 12, k == 13:
		return "*" + g.typ(depth-1)
	case k == 14:
		return "map[" + g.key() + "]" + g.typ(depth-1)
	case k == 15:
		g.label("chan")
		el := g.typ(depth - 1)
		if strings.HasPrefix(el, "<-") {
			el = "(" + el + ")"
		}
		return []string{"chan ", "<-chan ", "chan<- "}[g.pick("dir", 3)] + el
	case k == 16:
		g.label("func")
		return "func(" + g.typ(depth-1) + ") " + g.typ(depth-1)
	case k == 17:
		return []string{"struct{ X int }", "struct{}", "interface{ Foo() }"}[g.pick("inline", 3)]
	case k == 18:
		g.label("paren")
		return "(" + g.typ(depth-1) + ")"
	default:
		return g.namedType(depth)
	}
}

func (g *mgen) key() string {
	if g.chance("namedkey", 30) {
		var c []*gnamed
		for _, p := range g.pkgs {
			for _, n := range p.named {
				if n.compble {
					c = append(c, n)
				}
			}
		}
		if len(c) > 0 {
			n := c[g.pick("key", len(c))]
			return g.qual(n.pkg, n.name)
		}
	}
	k := keyNames[g.pick("keyb", len(keyNames))]
	if g.cur.shadow[k] {
		return "int64"
	}
	return k
}

func (g *mgen) namedType(depth int) string {
	var c []*gnamed
	for _, p := range g.pkgs {
		c = append(c, p.named...)
	}
	for _, p := range stdPkgs {
		c = append(c, p.named...)
	}
	n := c[g.pick("named", len(c))]
	s := g.qual(n.pkg, n.name)
	switch n.kind {
	case "generic1":
		g.label("generic-type")
		return s + "[" + g.typ(depth-1) + "]"
	case "generic2":
		g.label("generic-type")
		return s + "[" + g.typ(depth-1) + ", " + g.key() + "]"
	}
	return s
}

// params writes a parameter list
func (g *mgen) params(prefix string, max int, variadic bool) string {
	n := g.pick("nparams", max+1)
	named := g.pick("named?", 2) == 0
	var parts []string
	for i := 0; i < n; i++ {
		t := g.typ(2)
		if variadic && i == n-1 && g.chance("variadic", 25) {
			g.label("variadic")
			t = "..." + t
			if named {
				t = g.id(prefix) + " " + t
			}
			parts = append(parts, t)
			continue
		}
		if !named {
			parts = append(parts, t)
			continue
		}
		names := []string{g.id(prefix)}
		if g.chance("group", 25) {
			g.label("grouped-params")
			names = append(names, g.id(prefix))
		}
		if g.chance("blank", 15) {
			g.label("blank-param")
			names[g.pick("whichblank", len(names))] = "_"
		}
		parts = append(parts, strings.Join(names, ", ")+" "+t)
	}
	return "(" + strings.Join(parts, ", ") + ")"
}

func (g *mgen) signature() string {
	return g.params("a", 4, true) + " " + g.params("r", 3, false)
}

func (g *mgen) add(s string) { g.f.decls = append(g.f.decls, s) }

func (g *mgen) file() { g.f = g.cur.files[g.pick("file", len(g.cur.files))] }

func (g *mgen) newType() {
	g.file()
	name := g.id("T")
	if g.chance("lowercase", 10) {
		name = g.id("t")
	}
	n := &gnamed{pkg: g.cur, name: name}
	exported := strings.HasPrefix(name, "T")
	defer func() {
		if exported || g.chance("useunexported", 0) {
			g.cur.named = append(g.cur.named, n)
		}
	}()
	switch g.pick("typekind", 9) {
	case 0, 1, 2: // struct
		n.kind = "struct"
		tpDecl, recv := "", []string{name}
		if g.chance("generic", 25) {
			g.label("generic-struct")
			if g.pick("tparams", 2) == 0 {
				n.kind, tpDecl, g.tps = "generic1", "[P any]", []string{"P"}
				recv = []string{name + "[P]", name + "[Q]", name + "[_]"}
			} else {
				n.kind, g.tps = "generic2", []string{"P", "Q"}
				tpDecl = []string{"[P any, Q comparable]", "[P, Q any]"}[g.pick("tpdecl", 2)]
				recv = []string{name + "[P, Q]", name + "[A, B]", name + "[_, Q]"}
			}
		}
		var fields []string
		emb := map[string]bool{}
		for i := g.pick("nfields", 5); i > 0; i-- {
			tag := ""
			if g.chance("tag", 15) {
				tag = " `json:\"x\"`"
			}
			switch {
			case g.chance("embed", 20):
				g.label("embedded-field")
				p := g.cur
				if len(g.pkgs) > 0 && g.chance("embedother", 50) {
					p = g.pkgs[g.pick("embedpkg", len(g.pkgs))]
				}
				var c []*gnamed
				for _, e := range p.named {
					if e.kind == "struct" {
						c = append(c, e)
					}
				}
				if len(c) == 0 {
					continue
				}
				e := c[g.pick("embedtype", len(c))]
				if emb[e.name] {
					continue
				}
				emb[e.name] = true
				s := g.qual(e.pkg, e.name)
				if g.chance("embedptr", 50) {
					s = "*" + s
				}
				fields = append(fields, s+tag)
			case g.chance("multi", 25):
				g.label("grouped-fields")
				fields = append(fields, g.id("F")+", "+g.id("f")+" "+g.typ(3)+tag)
			case g.chance("self", 10) && tpDecl == "":
				fields = append(fields, g.id("F")+" *"+name+tag)
			default:
				fields = append(fields, g.id("F")+" "+g.typ(3)+tag)
			}
		}
		g.tps = nil
		g.add(fmt.Sprintf("type %s%s struct {\n\t%s\n}", name, tpDecl, strings.Join(fields, "\n\t")))
		for i := g.pick("nmethods", 3); i > 0; i-- {
			g.file()
			r := recv[g.pick("recv", len(recv))]
			g.tps = nil
			if j := strings.Index(r, "["); j >= 0 {
				g.label("generic-method")
				for _, p := range strings.Split(strings.Trim(r[j:], "[]"), ", ") {
					if p != "_" {
						g.tps = append(g.tps, p)
					}
				}
			}
			r = []string{"r *", "r ", "*", "", "_ *"}[g.pick("recvstyle", 5)] + r
			g.add(fmt.Sprintf("func (%s) %s%s { panic(0) }", r, g.id("M"), g.signature()))
			g.tps = nil
		}
	case 3, 4: // interface
		n.kind = "iface"
		var ms []string
		for i := g.pick("nim", 4); i > 0; i-- {
			ms = append(ms, g.id("M")+g.signature())
		}
		if g.chance("embediface", 15) {
			g.label("embedded-interface")
			ms = append(ms, []string{"error", "interface{ Z() }", "any"}[g.pick("emb", 3)])
			if g.cur.shadow["error"] {
				ms = ms[:len(ms)-1]
			}
		} else if len(ms) == 0 && g.chance("constraint", 20) {
			g.label("constraint")
			ms = append(ms, "~int | ~float64")
			exported = false
		}
		g.add(fmt.Sprintf("type %s interface {\n\t%s\n}", name, strings.Join(ms, "\n\t")))
	case 5, 6: // named basic with methods
		n.kind, n.compble = "enum", true
		g.add(fmt.Sprintf("type %s %s", name, []string{"int", "string", "uint8"}[g.pick("enum", 3)]))
		if g.chance("enummethod", 50) {
			g.label("method-on-nonstruct")
			g.file()
			g.add(fmt.Sprintf("func (e %s) %s%s { panic(0) }", name, g.id("M"), g.signature()))
		}
	default:
		n.kind = "other"
		under := g.typ(2)
		if strings.HasPrefix(under, "*") || strings.HasPrefix(under, "(") {
			under = "[]" + under
		}
		g.add(fmt.Sprintf("type (\n\t%s %s\n)", name, under))
	}
}

func (g *mgen) newDecl() {
	switch g.pick("decl", 12) {
	case 0:
		g.file()
		n := g.id("C")
		g.add(fmt.Sprintf("const %s = %d", n, g.pick("const", 9)))
		g.cur.consts = append(g.cur.consts, n)
	case 1:
		g.file()
		g.add(fmt.Sprintf("var %s, %s %s", g.id("V"), g.id("v"), g.typ(2)))
	case 2:
		g.file()
		g.add(fmt.Sprintf("var (\n\t%s, %s = 1, \"x\"\n\t%s = 3\n)", g.id("V"), g.id("V"), g.id("V")))
	case 3, 4, 5:
		g.file()
		name, tp := g.id("Fn"), ""
		if g.chance("genericfunc", 20) {
			g.label("generic-func")
			tp, g.tps = []string{"[P any, Q interface{ ~int | ~string }]", "[P, Q any]"}[g.pick("tpdecl", 2)], []string{"P", "Q"}
		}
		g.add(fmt.Sprintf("func %s%s%s { panic(0) }", name, tp, g.signature()))
		g.tps = nil
	default:
		g.newType()
	}
}

var pkgShapes = [][2]string{{"", "root"}, {"a", "a"}, {"a/util", "util"}, {"b/util", "util"}, {"go-thing", "thing"}, {"yaml.v3", "yaml"}, {"deep/v2", "deep"}, {"odd", "other"}, {"c/odd", "odd"}}

func (f *gfile) source(p *gpkg, header string) string {
	var b strings.Builder
	b.WriteString(header)
	fmt.Fprintf(&b, "package %s\n\n", p.name)
	var paths []*gpkg
	for q := range f.imports {
		paths = append(paths, q)
	}
	sort.Slice(paths, func(i, j int) bool { return paths[i].path < paths[j].path })
	for _, q := range paths {
		as := f.imports[q]
		if as == "" {
			as = "."
		}
		if f.plain[q] {
			as = ""
		}
		fmt.Fprintf(&b, "import %s %q\n", as, q.path)
	}
	b.WriteString("\n" + strings.Join(f.decls, "\n\n") + "\n")
	return b.String()
}

var srcImporter = sync.OnceValue(func() types.Importer {
	return importer.ForCompiler(token.NewFileSet(), "source", nil)
})

type modImporter map[string]*types.Package

func (m modImporter) Import(path string) (*types.Package, error) {
	if p, ok := m[path]; ok {
		return p, nil
	}
	return srcImporter().Import(path)
}

var moduleCounter int

// genModule generates a module with packages, writes it to dir and type-checks it
func genModule(t *rapid.T, dir string, c *h.Case) (*mgen, map[string]*types.Package, string) {
	moduleCounter++
	g := &mgen{t: t, mod: fmt.Sprintf("gen.test/m%d", moduleCounter), labels: map[string]bool{}}
	npk := 1 + g.pick("npkgs", 4)
	perm := rapid.Permutation(pkgShapes).Draw(t, "shapes")
	checked := modImporter{}
	write := func(rel, content string) {
		p := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(content), 0644); err != nil {
			h.EnvError("%v", err)
		}
	}
	write("go.mod", "module "+g.mod+"\n\ngo 1.22\n")
	for i := 0; i < npk; i++ {
		sh := perm[i]
		p := &gpkg{path: g.mod, dir: sh[0], name: sh[1], shadow: map[string]bool{}}
		if sh[0] != "" {
			p.path += "/" + sh[0]
		}
		g.cur = p
		for j := 0; j <= g.pick("nfiles", 3); j++ {
			p.files = append(p.files, &gfile{name: fmt.Sprintf("f%d.go", j), imports: map[*gpkg]string{}, plain: map[*gpkg]bool{}, used: map[string]bool{}})
		}
		g.pkgs = append(g.pkgs, p) // packages may use their own types and those of earlier packages
		if g.chance("shadow", 10) {
			g.file()
			n := []string{"rune", "error", "any", "byte"}[g.pick("shadowed", 4)]
			g.label("shadowed-" + n)
			p.shadow[n] = true
			if n == "any" {
				n, p.shadow[n] = "uint16", true
			}
			g.add("type " + n + " struct{ X int }")
		}
		for j := 1 + g.pick("ndecls", 10); j > 0; j-- {
			g.newDecl()
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.files {
			src := f.source(p, "")
			c.Logf("%s/%s (package %s):\n%s", p.path, f.name, p.name, src)
			write(filepath.Join(p.dir, f.name), src)
			af, err := parser.ParseFile(fset, f.name, src, 0)
			if err != nil {
				h.EnvError("generator wrote an unparsable file: %v\n%s", err, src)
			}
			files = append(files, af)
		}
		conf := types.Config{Importer: checked}
		tp, err := conf.Check(p.path, fset, files, nil)
		if err != nil {
			return g, nil, err.Error()
		}
		checked[p.path] = tp
		// things a package directory may contain that are not part of the package
		if g.chance("ignored", 20) {
			g.label("ignored-file")
			write(filepath.Join(p.dir, "gen_ignored.go"), "//go:build ignore\n\npackage main\n\ntype Ignored struct{}\n\nfunc main() {}\n")
		}
		if g.chance("goos", 20) {
			g.label("other-os-file")
			write(filepath.Join(p.dir, "x_windows.go"), "package "+p.name+"\n\ntype OnWindows struct{}\n")
			write(filepath.Join(p.dir, "y_plan9_amd64.go"), "package "+p.name+"\n\nfunc OnPlan9() {}\n")
		}
		if g.chance("tests", 20) {
			g.label("test-file")
			write(filepath.Join(p.dir, "int_test.go"), "package "+p.name+"\n\ntype MockThing struct{}\n\nfunc NewMock() *MockThing { return nil }\n\nfunc (m *MockThing) X() {}\n")
			write(filepath.Join(p.dir, "ext_test.go"), "package "+p.name+"_test\n\ntype ExtThing struct{}\n\nfunc NewExt() *ExtThing { return nil }\n")
		}
	}
	if g.chance("noise", 30) {
		g.label("non-package-dirs")
		write("testdata/broken.go", "this is not go\n")
		write("testdata/ok/ok.go", "package ok\n")
		write("_hidden/x.go", "package hidden\n")
		write(".git2/x.go", "package git2\n")
		write("nested/go.mod", "module "+g.mod+"/nested\n\ngo 1.22\n")
		write("nested/x.go", "package nested\n\ntype InNested struct{}\n")
		write("nested/sub/x.go", "package sub\n")
		write("vendor/x.test/y/y.go", "package y\n")
		write("docs/readme.md", "hello\n")
	}
	return g, checked, ""
}

// ---------------------------------------------------------------- comparison with the type checker

func canon(b string) string {
	switch b {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	}
	return b
}

// diffType reports how a parsed type differs from what go/types says
func diffType(got gocode.TypeName, want types.Type) string {
	bad := func() string { return fmt.Sprintf("parsed as %T %v, Go says %v", got, got, want) }
	if got == nil {
		return "parsed as nil, Go says " + want.String()
	}
	want = types.Unalias(want)
	sub := func(a gocode.TypeName, b types.Type) string {
		if d := diffType(a, b); d != "" {
			return d + " within " + want.String()
		}
		return ""
	}
	switch w := want.(type) {
	case *types.Basic:
		if b, ok := got.(*gocode.BasicType); ok && canon(b.Name) == canon(w.Name()) {
			return ""
		}
		return bad()
	case *types.Named:
		if w.Obj().Pkg() == nil { // error
			if b, ok := got.(*gocode.BasicType); ok && b.Name == w.Obj().Name() {
				return ""
			}
			return bad()
		}
		if w.TypeArgs().Len() > 0 {
			gt, ok := got.(*gocode.GenericType)
			if !ok {
				return bad()
			}
			if d := diffNamed(gt.BaseType, w); d != "" {
				return d
			}
			return sub(gt.TypeParam, w.TypeArgs().At(0))
		}
		return diffNamed(got, w)
	case *types.TypeParam:
		if p, ok := got.(*gocode.GenericTypeParam); ok && p.ParamName == w.Obj().Name() {
			return ""
		}
		return bad()
	case *types.Pointer:
		if p, ok := got.(*gocode.Pointer); ok {
			return sub(p.PointerTo, w.Elem())
		}
		return bad()
	case *types.Slice:
		if p, ok := got.(*gocode.Slice); ok {
			return sub(p.SliceOf, w.Elem())
		}
		return bad()
	case *types.Array:
		if p, ok := got.(*gocode.Array); ok && p.Length == fmt.Sprint(w.Len()) {
			return sub(p.ArrayOf, w.Elem())
		}
		return bad()
	case *types.Map:
		if p, ok := got.(*gocode.Map); ok {
			if d := sub(p.KeyType, w.Key()); d != "" {
				return d
			}
			return sub(p.ValueType, w.Elem())
		}
		return bad()
	case *types.Chan:
		switch p := got.(type) {
		case *gocode.Chan:
			if w.Dir() == types.SendRecv {
				return sub(p.ChanOf, w.Elem())
			}
		case *gocode.ReceiveChan:
			if w.Dir() == types.RecvOnly {
				return sub(p.ReceiveType, w.Elem())
			}
		case *gocode.SendChan:
			if w.Dir() == types.SendOnly {
				return sub(p.SendType, w.Elem())
			}
		}
		return bad()
	case *types.Signature:
		if _, ok := got.(*gocode.FuncType); ok {
			return ""
		}
		return bad()
	case *types.Struct:
		if _, ok := got.(*gocode.StructType); ok {
			return ""
		}
		return bad()
	case *types.Interface:
		if w.Empty() {
			if _, ok := got.(*gocode.AnyType); ok {
				return ""
			}
		} else if _, ok := got.(*gocode.InterfaceType); ok {
			return ""
		}
		return bad()
	}
	return "unexpected " + want.String()
}

func diffNamed(got gocode.TypeName, w *types.Named) string {
	if u, ok := got.(*gocode.UserType); ok && u.Package == w.Obj().Pkg().Path() && u.Name == w.Obj().Name() {
		return ""
	}
	if u, ok := got.(*gocode.UserType); ok {
		return fmt.Sprintf("parsed as type %s of package %s, Go says %v", u.Name, u.Package, w)
	}
	return fmt.Sprintf("parsed as %T %v, Go says %v", got, got, w)
}

func diffTuple(what string, vars []gocode.Variable, tup *types.Tuple, variadic bool) string {
	if len(vars) != tup.Len() {
		return fmt.Sprintf("%d %s, Go says %d", len(vars), what, tup.Len())
	}
	for i, v := range vars {
		w := tup.At(i)
		if v.Name != w.Name() {
			return fmt.Sprintf("%s %d is named %q, Go says %q", what, i, v.Name, w.Name())
		}
		var d string
		if variadic && i == tup.Len()-1 {
			e, ok := v.Type.(*gocode.Ellipsis)
			if !ok {
				return fmt.Sprintf("%s %d is variadic but parsed as %T", what, i, v.Type)
			}
			d = diffType(e.EllipsisOf, w.Type().(*types.Slice).Elem())
		} else {
			d = diffType(v.Type, w.Type())
		}
		if d != "" {
			return fmt.Sprintf("%s %d: %s", what, i, d)
		}
	}
	return ""
}

func diffFunc(f *goparser.ParsedFunc, sig *types.Signature) string {
	if d := diffTuple("arguments", f.Arguments, sig.Params(), sig.Variadic()); d != "" {
		return d
	}
	return diffTuple("results", f.Returns, sig.Results(), false)
}

func keys[V any](m map[string]V) string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return strings.Join(k, " ")
}

func diffPackage(pkg *goparser.ParsedPackage, tp *types.Package) string {
	structs, ifaces, funcs, vars, embedding := map[string]*types.Named{}, map[string]*types.Named{}, map[string]*types.Func{}, map[string]bool{}, map[string]bool{}
	for _, name := range tp.Scope().Names() {
		switch o := tp.Scope().Lookup(name).(type) {
		case *types.TypeName:
			n := o.Type().(*types.Named)
			switch u := n.Underlying().(type) {
			case *types.Struct:
				structs[name] = n
			case *types.Interface:
				if u.NumEmbeddeds() > 0 {
					embedding[name] = true
				} else {
					ifaces[name] = n
				}
			}
		case *types.Func:
			funcs[name] = o
		case *types.Var:
			vars[name] = true
		}
	}
	// a type defined as another named type has that type's underlying struct or interface; the parser only looks at literals
	for n := range structs {
		if _, ok := pkg.Structs[n]; !ok && !strings.Contains(sourceKind(pkg, n), "StructType") {
			delete(structs, n)
		}
	}
	for n := range ifaces {
		if _, ok := pkg.Interfaces[n]; !ok && !strings.Contains(sourceKind(pkg, n), "InterfaceType") {
			delete(ifaces, n)
		}
	}
	pi := map[string]bool{}
	for n := range pkg.Interfaces {
		if !embedding[n] {
			pi[n] = true
		}
	}
	if keys(pkg.Structs) != keys(structs) {
		return fmt.Sprintf("structs parsed: %s, Go says %s", keys(pkg.Structs), keys(structs))
	}
	if keys(pi) != keys(ifaces) {
		return fmt.Sprintf("interfaces parsed: %s, Go says %s", keys(pi), keys(ifaces))
	}
	if keys(pkg.Funcs) != keys(funcs) {
		return fmt.Sprintf("functions parsed: %s, Go says %s", keys(pkg.Funcs), keys(funcs))
	}
	if keys(pkg.Vars) != keys(vars) {
		return fmt.Sprintf("variables parsed: %s, Go says %s", keys(pkg.Vars), keys(vars))
	}
	for name, f := range pkg.Funcs {
		if f.Name != name {
			return "function " + name + " is called " + f.Name
		}
		if d := diffFunc(f, funcs[name].Type().(*types.Signature)); d != "" {
			return "function " + name + ": " + d
		}
		con := f.AsConstructor()
		if con.Package != pkg.Name || con.Name != name {
			return fmt.Sprintf("constructor %s.%s for function %s of %s", con.Package, con.Name, name, pkg.Name)
		}
	}
	for name, i := range pkg.Interfaces {
		if embedding[name] {
			continue
		}
		it := ifaces[name].Underlying().(*types.Interface)
		want := map[string]*types.Func{}
		for k := 0; k < it.NumExplicitMethods(); k++ {
			want[it.ExplicitMethod(k).Name()] = it.ExplicitMethod(k)
		}
		if keys(want) != keys(i.Methods) {
			return fmt.Sprintf("interface %s has methods %s, Go says %s", name, keys(i.Methods), keys(want))
		}
		if i.Type().Package != pkg.Name || i.Type().Name != name {
			return fmt.Sprintf("interface %s has type %v", name, i.Type())
		}
		for m, f := range i.Methods {
			if d := diffFunc(f, want[m].Type().(*types.Signature)); d != "" {
				return "interface " + name + " method " + m + ": " + d
			}
		}
	}
	for name, s := range pkg.Structs {
		n := structs[name]
		want := map[string]*types.Func{}
		for k := 0; k < n.NumMethods(); k++ {
			want[n.Method(k).Name()] = n.Method(k)
		}
		if keys(want) != keys(s.Methods) {
			return fmt.Sprintf("struct %s has methods %s, Go says %s", name, keys(s.Methods), keys(want))
		}
		for m, f := range s.Methods {
			if d := diffFunc(f, want[m].Type().(*types.Signature)); d != "" {
				return "method " + name + "." + m + ": " + d
			}
		}
		st := n.Underlying().(*types.Struct)
		if st.NumFields() != len(s.FieldsList) {
			return fmt.Sprintf("struct %s has %d fields, Go says %d", name, len(s.FieldsList), st.NumFields())
		}
		named := 0
		for k, f := range s.FieldsList {
			w := st.Field(k)
			if w.Embedded() != (f.Name == "") || (!w.Embedded() && f.Name != w.Name()) || f.Position != k {
				return fmt.Sprintf("field %d of struct %s is %q at position %d, Go says %v", k, name, f.Name, f.Position, w)
			}
			if !w.Embedded() {
				named++
				if s.Fields[f.Name] != f {
					return fmt.Sprintf("field %s of struct %s is missing in Fields", f.Name, name)
				}
			} else if s.PromotedField != f {
				found := false
				for _, a := range s.AnonymousFields {
					found = found || a == f
				}
				if !found {
					return fmt.Sprintf("embedded field %d of struct %s is missing", k, name)
				}
			}
			if d := diffType(f.Type, w.Type()); d != "" {
				return fmt.Sprintf("field %d of struct %s: %s", k, name, d)
			}
		}
		if len(s.Fields) != named {
			return fmt.Sprintf("struct %s has named fields %s, Go says %v", name, keys(s.Fields), st)
		}
		var tps []string
		for k := 0; k < n.TypeParams().Len(); k++ {
			tps = append(tps, n.TypeParams().At(k).Obj().Name())
		}
		if strings.Join(tps, ",") != strings.Join(s.TypeParams, ",") {
			return fmt.Sprintf("struct %s has type parameters %v, Go says %v", name, s.TypeParams, tps)
		}
	}
	return ""
}

// the syntactic kind of a type's definition
func sourceKind(pkg *goparser.ParsedPackage, name string) string {
	for _, f := range pkg.Files {
		for _, d := range f.Ast.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				for _, sp := range gd.Specs {
					if ts, ok := sp.(*ast.TypeSpec); ok && ts.Name.Name == name {
						return fmt.Sprintf("%T", ts.Type)
					}
				}
			}
		}
	}
	return "missing StructType InterfaceType"
}

func TestC11_Parser(t *testing.T) {
	h.Check(t, h.Opts{Quick: 150, Thorough: 3000,
		Rule: "a case is one generated Go module of up to 4 packages, parsed and compared declaration by declaration with go/types; non-trivial when the module has a struct, interface or function whose types mention another package or a composite type"},
		func(t *rapid.T, c *h.Case) {
			dir, done := h.TempDir()
			defer done()
			g, checked, msg := genModule(t, dir, c)
			if msg != "" {
				c.Label("discarded: does not compile")
				c.Logf("does not compile: %s", msg)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println("DISCARD", msg)
				}
				return
			}
			for l := range g.labels {
				c.Label(l)
			}
			set := goparser.New(nil)
			var mod *goparser.ParsedModule
			var err error
			if p := h.Try(func() { mod, err = set.AddModule(dir) }); p != nil {
				c.Failf("parsing a module that compiles panics: %v", p)
			}
			if err != nil {
				c.Failf("a module that compiles cannot be parsed: %v", err)
			}
			if mod.Name != g.mod || set.Modules[g.mod] != mod {
				c.Failf("module %s was parsed as %s", g.mod, mod.Name)
			}
			want := map[string]bool{}
			for _, p := range g.pkgs {
				want[p.path] = true
			}
			if keys(mod.Packages) != keys(want) {
				c.Failf("packages parsed: %s, Go says %s", keys(mod.Packages), keys(want))
			}
			for path, pkg := range mod.Packages {
				if pkg.ShortName != checked[path].Name() {
					c.Failf("package %s is named %s, Go says %s", path, pkg.ShortName, checked[path].Name())
				}
				if d := diffPackage(pkg, checked[path]); d != "" {
					c.Failf("package %s: %s", path, d)
				}
				got, err := set.GetPackage(path)
				if err != nil || got != pkg {
					c.Failf("GetPackage(%s) = %v, %v", path, got, err)
				}
				for n := range pkg.Structs {
					if s, err := set.FindStruct(path, n); err != nil || s != pkg.Structs[n] {
						c.Failf("FindStruct(%s, %s) = %v, %v", path, n, s, err)
					}
				}
				for n := range pkg.Interfaces {
					if s, err := set.FindInterface(path, n); err != nil || s != pkg.Interfaces[n] {
						c.Failf("FindInterface(%s, %s) = %v, %v", path, n, s, err)
					}
				}
			}
			c.NonTrivial(len(g.pkgs) > 1 || len(g.labels) > 2)
		})
}
