// Package lab generates whole Blueprint applications (workflow code and wiring), compiles them with Blueprint,
// builds and runs the generated processes, and compares what the services did with what they should have done.
package lab

import (
	_ "embed"
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

//go:embed assets/lab.go.txt
var labSrc string

// ty is a type expression; user types appear as «import/path».Name.
type ty string

// wireKind says what values must survive.
type wireKind string

const (
	inProc wireKind = ""
	jsonW  wireKind = "json"
	grpcW  wireKind = "grpc"
)

type typeDef struct {
	pkg, name string
	decl      ty // right-hand side
	comment   string
	isStruct  bool
	mapKey    bool // usable as a map key on the wire
}

func (d *typeDef) ref() ty { return ty("«" + d.pkg + "»." + d.name) }

type arg struct {
	name string
	t    ty
}

type method struct {
	name string
	args []arg
	rets []ty
	kind string // "call", "plan" or "tree"
	bare bool   // the interface does not name the arguments
}

type iface struct {
	pkg, name, impl string
	methods         []*method
	children        []*iface // constructor dependencies, in order
	viaIface        bool     // wiring names the interface (else the implementation)
}

type svc struct {
	name     string // wiring name
	label    string
	i        *iface
	children []*svc
	mods     []string // wiring statements after the definition
	skipDef  bool     // defined by a statement in mods
}

type app struct {
	wire    wireKind
	types   []*typeDef
	ifaces  []*iface
	svcs    []*svc
	body    []string // wiring statements after the services are defined
	noProbe bool
	rets    []string          // what the wiring returns
	probed  []string          // wiring names the probe is given
	extra   map[string]*iface // interfaces of probed names that are not services (e.g. load balancers)
	labels  map[string]string
	traced  bool
	logs    bool // services log
	imports []string // extra plugin imports
	flags   []string // of the compiler
	plain   bool     // also render a program that composes the services directly
	files   map[string]string // other modules' files
	mods    []string          // their directories
}

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}
func intn(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }
func flip(t *rapid.T, label string, one, in int) bool {
	return rapid.IntRange(1, in).Draw(t, label) <= one
}

const mod = "lab.test/wf"

var typeNames = []string{"Item", "User", "Order", "Cart", "Page", "Node", "Address", "Status", "Kind", "Score", "Tags", "Index", "Money", "Note"}
var fieldNames = []string{"ID", "Name", "Count", "Price", "Tags", "Owner", "Next", "Data", "Attrs", "Flag", "UserID", "Created", "Lines", "Total", "X", "Y", "Foo_Bar", "HTTPCode", "V2"}
var ifaceNames = []string{"CartService", "UserService", "OrderService", "Catalogue", "Payment", "Shipping", "Search", "Profile", "Geo", "Rate", "Review", "Timeline", "Media", "UniqueID", "Text", "Graph"}
var methodNames = []string{"Get", "Put", "List", "Add", "Remove", "Find", "Update", "Login", "Register", "Compose", "Read", "Store", "GetByID", "Get_All", "Do", "Check"}
var argNames = []string{"id", "name", "userID", "items", "x", "y", "key", "value", "user_id", "limit", "offset", "data", "a", "b", "arg1", "input", "n", "s", "info", "opts", "URL", "fooBar2"}

// names that generated code might use itself
var awkwardNames = []string{"client", "handler", "server", "service", "req", "resp", "rsp", "request", "response", "vals", "i", "delay", "url", "json", "time", "errors", "context", "span", "tr", "tp", "w", "r", "pool", "cancel", "msg", "string", "len", "t", "val", "balancer", "fmt", "http", "err1", "trace", "rand", "encoded_url", "is_complete", "io", "clients", "math", "sync"}

type gen struct {
	t       *rapid.T
	a       *app
	awkward bool
	rich    bool // types beyond what the wires carry
	svcName func(k int) string
}

func (g *gen) basic() ty {
	bs := []ty{"string", "int", "int64", "bool", "float64", "int32", "uint64", "int8", "int16", "uint", "uint16", "uint32", "float32", "uint8", "string", "int64"}
	if g.a.wire != grpcW {
		bs = append(bs, "byte", "rune")
	}
	if g.rich && g.a.wire == inProc {
		bs = append(bs, "complex128", "uintptr", "error")
		bs = bs[:len(bs)-1]
	}
	return pick(g.t, "basic", bs...)
}

func (g *gen) keyType() ty {
	if g.a.wire == inProc {
		for _, d := range g.a.types {
			if d.mapKey && flip(g.t, "userKey", 1, 6) {
				return d.ref()
			}
		}
	}
	return pick(g.t, "key", ty("string"), "string", "int64", "int", "uint32", "int32")
}

// typ draws a type; depth bounds nesting. upto limits the declared types it may use (for acyclic declarations).
func (g *gen) typ(depth, upto int) ty {
	user := func() (ty, bool) {
		if upto == 0 {
			return "", false
		}
		d := g.a.types[intn(g.t, "user", 0, upto-1)]
		return d.ref(), true
	}
	k := intn(g.t, "tk", 0, 11)
	if depth <= 0 && k > 5 {
		k %= 6
	}
	switch k {
	case 0, 1, 2:
		return g.basic()
	case 3, 4, 5:
		if u, ok := user(); ok {
			return u
		}
		return g.basic()
	case 6, 7: // slice
		if g.a.wire == grpcW {
			return g.grpcElem("[]", upto)
		}
		return "[]" + g.typ(depth-1, upto)
	case 8: // map
		if g.a.wire == grpcW {
			return g.grpcElem("map["+g.keyType()+"]", upto)
		}
		return "map[" + g.keyType() + "]" + g.typ(depth-1, upto)
	case 9: // pointer
		if u, ok := user(); ok {
			return "*" + u
		}
		if g.a.wire == grpcW {
			return "*" + g.basic()
		}
		return "*" + g.basic()
	case 10:
		if g.a.wire == grpcW {
			return "[]byte"
		}
		if g.rich {
			return pick(g.t, "rich", ty("[3]int"), "[2]string", "«time».Time", "«time».Duration", "any", "[]byte", "interface{}")
		}
		return "[]byte"
	}
	return "[]byte"
}

func (g *gen) grpcElem(prefix ty, upto int) ty {
	if upto > 0 && flip(g.t, "el", 1, 2) {
		return prefix + g.a.types[intn(g.t, "user", 0, upto-1)].ref()
	}
	b := g.basic()
	if prefix == "[]" && (b == "uint8" || b == "byte") {
		return "[]byte"
	}
	return prefix + b
}

func (g *gen) typePkgs() []string { return []string{mod + "/types", mod + "/deep/types", mod + "/svc"} }

func (g *gen) genTypes(n int) {
	used := map[string]bool{}
	pk := g.typePkgs()
	for j := 0; j < n; j++ {
		name := pick(g.t, "tname", typeNames...)
		pkg := pk[intn(g.t, "tpkg", 0, len(pk)-1)]
		if pkg == mod+"/types" || pkg == mod+"/deep/types" {
			// the two packages named "types" may declare equal names
		}
		for used[pkg+name] || (g.a.wire == grpcW && used[name]) {
			name += "2"
		}
		used[pkg+name] = true
		used[name] = true
		d := &typeDef{pkg: pkg, name: name}
		// a package may only use types of the packages before it, so that imports are acyclic
		var ok []*typeDef
		for _, e := range g.a.types {
			if idx(pk, e.pkg) <= idx(pk, pkg) {
				ok = append(ok, e)
			}
		}
		all := g.a.types
		g.a.types = ok
		k := intn(g.t, "dk", 0, 9)
		if g.a.wire == grpcW {
			k = 9
		}
		switch {
		case k == 0:
			d.decl, d.mapKey = pick(g.t, "named", ty("string"), "int", "int64", "uint16"), true
		case k == 1:
			d.decl = "[]" + g.typ(1, len(ok))
		case k == 2:
			d.decl = "map[string]" + g.typ(1, len(ok))
		default:
			d.isStruct = true
			var b strings.Builder
			b.WriteString("struct {\n")
			uf := map[string]bool{}
			nf := intn(g.t, "nf", 1, 5)
			for f := 0; f < nf; f++ {
				fn := pick(g.t, "fname", fieldNames...)
				for uf[fn] {
					fn += "b"
				}
				uf[fn] = true
				ft := g.typ(2, len(ok))
				if flip(g.t, "self", 1, 12) {
					ft = pick(g.t, "selfk", "*"+d.ref(), "[]"+d.ref())
				}
				fmt.Fprintf(&b, "\t%s %s\n", fn, ft)
			}
			b.WriteString("}")
			d.decl = ty(b.String())
		}
		g.a.types = append(all, d)
	}
}

func idx(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return -1
}

func (g *gen) genIface(pkg, name string, kind string) *iface {
	i := &iface{pkg: pkg, name: name, impl: name + "Impl", viaIface: flip(g.t, "via", 2, 3)}
	um := map[string]bool{}
	for m := intn(g.t, "nm", 1, 4); m > 0; m-- {
		mn := pick(g.t, "mname", methodNames...)
		if len(i.methods) > 0 && flip(g.t, "case", 1, 6) {
			mn = otherCase(i.methods[len(i.methods)-1].name)
		}
		for um[mn] {
			mn += "X"
		}
		um[mn] = true
		x := &method{name: mn, kind: kind, bare: flip(g.t, "bare", 1, 8)}
		ua := map[string]bool{}
		for n := intn(g.t, "na", 0, 4); n > 0; n-- {
			an := pick(g.t, "aname", argNames...)
			if g.awkward && flip(g.t, "awk", 1, 3) {
				an = pick(g.t, "awkn", awkwardNames...)
			}
			for ua[strings.ToLower(an)] {
				an += "1"
			}
			ua[strings.ToLower(an)] = true
			x.args = append(x.args, arg{an, g.typ(2, len(g.a.types))})
		}
		for n := intn(g.t, "nr", 0, 3); n > 0; n-- {
			x.rets = append(x.rets, g.typ(2, len(g.a.types)))
		}
		i.methods = append(i.methods, x)
	}
	return i
}

// otherCase returns a method name that differs from name only by case.
func otherCase(name string) string {
	if up := strings.ToUpper(name); up != name {
		return up
	}
	return name[:1] + strings.ToLower(name[1:])
}

// ---------------------------------------------------------------- rendering

type imps struct {
	self    string
	byPath  map[string]string
	used    map[string]bool
	taken   map[string]bool
	ordered []string
}

func newImps(self string, reserved ...string) *imps {
	m := &imps{self: self, byPath: map[string]string{}, used: map[string]bool{}, taken: map[string]bool{}}
	for _, r := range reserved {
		m.taken[r] = true
	}
	return m
}

func (m *imps) name(path string) string {
	if n, ok := m.byPath[path]; ok {
		return n
	}
	base := path[strings.LastIndex(path, "/")+1:]
	n := base
	for k := 2; m.taken[n]; k++ {
		n = fmt.Sprintf("%s%d", base, k)
	}
	m.taken[n] = true
	m.byPath[path] = n
	m.ordered = append(m.ordered, path)
	return n
}

func (m *imps) ty(t ty) string {
	s := string(t)
	for {
		i := strings.Index(s, "«")
		if i < 0 {
			return s
		}
		j := strings.Index(s, "»")
		p := s[i+len("«") : j]
		rest := s[j+len("»")+1:] // skip the dot
		if p == m.self {
			s = s[:i] + rest
		} else {
			s = s[:i] + m.name(p) + "." + rest
		}
	}
}

func (m *imps) block() string {
	ps := append([]string{}, m.ordered...)
	sort.Strings(ps)
	var b strings.Builder
	b.WriteString("import (\n")
	for _, p := range ps {
		n := m.byPath[p]
		if n == p[strings.LastIndex(p, "/")+1:] {
			fmt.Fprintf(&b, "\t%q\n", p)
		} else {
			fmt.Fprintf(&b, "\t%s %q\n", n, p)
		}
	}
	b.WriteString(")\n")
	return b.String()
}

func pkgName(path string) string { return path[strings.LastIndex(path, "/")+1:] }

// workflow renders the workflow module: file path -> content.
func (a *app) workflow() map[string]string {
	out := map[string]string{"go.mod": "module " + mod + "\n\ngo 1.23\n", "lab/lab.go": labSrc}
	if a.traced {
		out["go.mod"] += "\nrequire (\n\tgo.opentelemetry.io/otel/trace v1.26.0\n)\n"
	}
	rel := func(pkg string) string { return strings.TrimPrefix(pkg, mod+"/") }
	byPkg := map[string][]*typeDef{}
	for _, d := range a.types {
		byPkg[d.pkg] = append(byPkg[d.pkg], d)
	}
	for pkg, ds := range byPkg {
		m := newImps(pkg)
		var body strings.Builder
		for _, d := range ds {
			fmt.Fprintf(&body, "type %s %s\n\n", d.name, m.ty(d.decl))
		}
		out[rel(pkg)+"/types.go"] = "package " + pkgName(pkg) + "\n\n" + m.block() + "\n" + body.String()
	}
	for _, i := range a.ifaces {
		m := newImps(i.pkg, "ctx", "err")
		taken := map[string]bool{}
		for _, x := range i.methods {
			for _, r := range x.args {
				taken[r.name] = true
			}
		}
		for n := range taken { // an import shadowed by a parameter cannot be used in the body
			m.taken[n] = true
		}
		C, L := m.name("context"), m.name(mod+"/lab")
		var b strings.Builder
		fmt.Fprintf(&b, "type %s interface {\n", i.name)
		sig := func(x *method, named bool) string {
			var as, rs []string
			as = append(as, "ctx "+C+".Context")
			if x.bare && !named {
				as[0] = C + ".Context"
			}
			for _, r := range x.args {
				if x.bare && !named {
					as = append(as, m.ty(r.t))
				} else {
					as = append(as, r.name+" "+m.ty(r.t))
				}
			}
			for k, r := range x.rets {
				if named {
					rs = append(rs, fmt.Sprintf("labret%d %s", k, m.ty(r)))
				} else {
					rs = append(rs, m.ty(r))
				}
			}
			if named {
				rs = append(rs, "laberr error")
			} else {
				rs = append(rs, "error")
			}
			rt := strings.Join(rs, ", ")
			if len(rs) > 1 || named {
				rt = "(" + rt + ")"
			}
			return x.name + "(" + strings.Join(as, ", ") + ") " + rt
		}
		for _, x := range i.methods {
			fmt.Fprintf(&b, "\t%s\n", sig(x, false))
		}
		b.WriteString("}\n\n")
		fmt.Fprintf(&b, "type %s struct {\n\tlabel string\n", i.impl)
		for k, c := range i.children {
			fmt.Fprintf(&b, "\tchild%d %s\n", k, m.ty(ty("«"+c.pkg+"»."+c.name)))
		}
		b.WriteString("}\n\n")
		fmt.Fprintf(&b, "func New%s(ctx %s.Context", i.impl, C)
		for k, c := range i.children {
			fmt.Fprintf(&b, ", child%d %s", k, m.ty(ty("«"+c.pkg+"»."+c.name)))
		}
		rt := i.name
		if !i.viaIface {
			rt = "*" + i.impl
		}
		fmt.Fprintf(&b, ", label string) (%s, error) {\n\treturn &%s{label: %s.Instance(label)", rt, i.impl, L)
		for k := range i.children {
			fmt.Fprintf(&b, ", child%d: child%d", k, k)
		}
		b.WriteString("}, nil\n}\n\n")
		kids := false
		for _, x := range i.methods {
			fmt.Fprintf(&b, "func (labself *%s) %s {\n", i.impl, sig(x, true))
			var as, rs []string
			for _, r := range x.args {
				as = append(as, r.name)
			}
			for k := range x.rets {
				rs = append(rs, fmt.Sprintf("&labret%d", k))
			}
			rest := ""
			if len(rs) > 0 {
				rest = ", " + strings.Join(rs, ", ")
			}
			switch x.kind {
			case "plan":
				fmt.Fprintf(&b, "\tlaberr = %s.Plan(labself.label, %q, ctx, %s%s)\n\treturn\n}\n\n", L, x.name, x.args[0].name, rest)
			case "walk":
				fmt.Fprintf(&b, "\tlaberr = %s.Walk(labself.label, %q, ctx, %s, []func(%s.Context, string) (string, error){\n", L, x.name, as[0], C)
				for k, c := range i.children {
					for _, y := range c.methods {
						fmt.Fprintf(&b, "\t\tlabself.child%d.%s,\n", k, y.name)
					}
				}
				b.WriteString("\t}, &labret0)\n\treturn\n}\n\n")
			case "tree", "count":
				// the calls are made in a method of their own: here parameters might hide the names of types
				fmt.Fprintf(&b, "\tlaberr = %s.%s(labself.label, %q, ctx, []any{%s}, labself.labkids()%s)\n\treturn\n}\n\n", L, map[string]string{"tree": "Tree", "count": "Count"}[x.kind], x.name, strings.Join(as, ", "), rest)
				kids = true
			default:
				fmt.Fprintf(&b, "\tlaberr = %s.Call(labself.label, %q, ctx, []any{%s}%s)\n\treturn\n}\n\n", L, x.name, strings.Join(as, ", "), rest)
			}
		}
		if kids {
			fmt.Fprintf(&b, "func (labself *%s) labkids() []func(%s.Context, string) (string, error) {\n\treturn []func(%s.Context, string) (string, error){\n", i.impl, C, C)
			for k, c := range i.children {
				for _, y := range c.methods {
					fmt.Fprintf(&b, "\t\tfunc(labctx %s.Context, labca string) (string, error) {\n", C)
					var ys, rs2 []string
					ys = append(ys, "labctx")
					for z, r := range y.args {
						fmt.Fprintf(&b, "\t\t\tvar laba%d %s\n\t\t\t%s.Derive(labca, %d, &laba%d)\n", z, m.ty(r.t), L, z, z)
						ys = append(ys, fmt.Sprintf("laba%d", z))
					}
					for z := range y.rets {
						rs2 = append(rs2, fmt.Sprintf("labr%d", z))
					}
					fmt.Fprintf(&b, "\t\t\t%s := labself.child%d.%s(%s)\n", strings.Join(append(append([]string{}, rs2...), "labe"), ", "), k, y.name, strings.Join(ys, ", "))
					fmt.Fprintf(&b, "\t\t\tif labe != nil {\n\t\t\t\treturn \"\", labe\n\t\t\t}\n\t\t\treturn %s.Canon(%s), nil\n\t\t},\n", L, strings.Join(rs2, ", "))
				}
			}
			b.WriteString("\t}\n}\n\n")
		}
		out[rel(i.pkg)+"/"+strings.ToLower(i.name)+".go"] = "package " + pkgName(i.pkg) + "\n\n" + m.block() + "\n" + b.String()
	}
	if a.traced {
		out["lab/trace.go"] = traceSrc
	}
	if a.logs {
		out["lab/log.go"] = logSrc
	}
	if !a.noProbe {
		m := newImps(mod + "/probe")
		C, L := m.name("context"), m.name(mod+"/lab")
		var b strings.Builder
		fmt.Fprintf(&b, "type Probe interface {\n\tPing(ctx %s.Context) error\n}\n\ntype ProbeImpl struct{ services []%s.Service }\n\n", C, L)
		fmt.Fprintf(&b, "func NewProbeImpl(ctx %s.Context", C)
		for k, n := range a.probed {
			i := a.ifaceOf(n)
			fmt.Fprintf(&b, ", s%d %s", k, m.ty(ty("«"+i.pkg+"»."+i.name)))
		}
		fmt.Fprintf(&b, ") (Probe, error) {\n\treturn &ProbeImpl{services: []%s.Service{\n", L)
		for k, n := range a.probed {
			fmt.Fprintf(&b, "\t\t{Name: %q, Label: %q, Obj: s%d},\n", n, a.labelOf(n), k)
		}
		fmt.Fprintf(&b, "\t}}, nil\n}\n\nfunc (p *ProbeImpl) Ping(ctx %s.Context) error { return nil }\n\nfunc (p *ProbeImpl) Run(ctx %s.Context) error { return %s.Probe(ctx, p.services) }\n", C, C, L)
		if a.plain {
			out["plain/main.go"] = a.plainMain()
		}
		out["probe/probe.go"] = "package probe\n\n" + m.block() + "\n" + b.String()
	}
	return out
}

// plainMain is a program that composes the services without Blueprint.
func (a *app) plainMain() string {
	m := newImps(mod + "/plain")
	C, P := m.name("context"), m.name(mod+"/probe")
	var b strings.Builder
	fmt.Fprintf(&b, "func must[T any](x T, err error) T {\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\treturn x\n}\n\nfunc main() {\n\tctx := %s.Background()\n", C)
	v := map[*svc]string{}
	for k, s := range a.svcs {
		v[s] = fmt.Sprintf("labv%d", k)
		fmt.Fprintf(&b, "\t%s := must(%s(ctx", v[s], m.ty(ty("«"+s.i.pkg+"».New"+s.i.impl)))
		for _, c := range s.children {
			b.WriteString(", " + v[c])
		}
		fmt.Fprintf(&b, ", %q))\n", s.label)
	}
	fmt.Fprintf(&b, "\tp := must(%s.NewProbeImpl(ctx", P)
	for _, n := range a.probed {
		for _, s := range a.svcs {
			if s.name == n {
				b.WriteString(", " + v[s])
			}
		}
	}
	b.WriteString("))\n\tpanic(p.(*" + P + ".ProbeImpl).Run(ctx))\n}\n")
	return "package main\n\n" + m.block() + "\n" + b.String()
}

const traceSrc = `package lab

import (
	"context"

	"go.opentelemetry.io/otel/trace"
)

func init() {
	SpanOf = func(ctx context.Context) string {
		sc := trace.SpanContextFromContext(ctx)
		if !sc.IsValid() {
			return ""
		}
		return sc.TraceID().String() + "/" + sc.SpanID().String()
	}
}
`

const logSrc = `package lab

import (
	"context"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
)

func init() {
	LogLocal = func(ctx context.Context, priority int, msg string) context.Context {
		l := backend.GetLogger()
		f := []func(context.Context, string, ...any) (context.Context, error){l.Debug, l.Info, l.Warn, l.Error}[priority]
		if len(msg)%3 == 0 {
			f = func(ctx context.Context, s string, args ...any) (context.Context, error) {
				return l.Logf(ctx, backend.LogOptions{Level: backend.Priority(priority)}, s, args...)
			}
		}
		if c, err := f(ctx, "%s", msg); err == nil {
			return c
		}
		return ctx
	}
}
`

func (a *app) ifaceOf(name string) *iface {
	for _, s := range a.svcs {
		if s.name == name {
			return s.i
		}
	}
	return a.extra[name]
}

func (a *app) labelOf(name string) string {
	for _, s := range a.svcs {
		if s.name == name {
			return s.label
		}
	}
	if l, ok := a.labels[name]; ok {
		return l
	}
	return name
}

// wiring renders the wiring program.
func (a *app) wiring() string {
	m := newImps("main", "spec", "err")
	m.name("github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring")
	m.name("github.com/blueprint-uservices/blueprint/plugins/cmdbuilder")
	m.name("github.com/blueprint-uservices/blueprint/plugins/workflow")
	var b strings.Builder
	b.WriteString("func build(spec wiring.WiringSpec) ([]string, error) {\n")
	line := func(s string) {
		// «path».X in wiring statements is a plugin or workflow reference
		fmt.Fprintf(&b, "\t%s\n", m.ty(ty(s)))
	}
	for _, s := range a.svcs {
		if s.name != "" && !s.skipDef {
			n := s.i.impl
			if s.i.viaIface {
				n = s.i.name
			}
			var as []string
			for _, c := range s.children {
				as = append(as, fmt.Sprintf("%q", c.name))
			}
			as = append(as, fmt.Sprintf("%q", s.label))
			line(fmt.Sprintf("workflow.Service[«%s».%s](spec, %q, %s)", s.i.pkg, n, s.name, strings.Join(as, ", ")))
		}
		for _, x := range s.mods {
			line(x)
		}
	}
	if !a.noProbe {
		as := ""
		for _, n := range a.probed {
			as += fmt.Sprintf(", %q", n)
		}
		line(fmt.Sprintf("workflow.Service[«%s/probe».Probe](spec, \"probe\"%s)", mod, as))
	}
	for _, x := range a.body {
		line(x)
	}
	var rs []string
	for _, r := range a.rets {
		rs = append(rs, fmt.Sprintf("%q", r))
	}
	fmt.Fprintf(&b, "\treturn []string{%s}, nil\n}\n", strings.Join(rs, ", "))
	b.WriteString("\nfunc main() {\n\tcmdbuilder.MakeAndExecute(\"lab\", cmdbuilder.SpecOption{Name: \"lab\", Description: \"lab\", Build: build})\n}\n")
	return "package main\n\n" + m.block() + "\n" + b.String()
}

const P = "«github.com/blueprint-uservices/blueprint/plugins/"

// describe gives the readable form of the application for the case log.
func (a *app) describe(logf func(string, ...any)) {
	for _, d := range a.types {
		logf("type %s.%s %s", d.pkg, d.name, strings.ReplaceAll(string(d.decl), "\n", ";"))
	}
	for _, i := range a.ifaces {
		for _, x := range i.methods {
			var as []string
			for _, r := range x.args {
				as = append(as, r.name+" "+string(r.t))
			}
			logf("%s.%s.%s(%s) %v", pkgName(i.pkg), i.name, x.name, strings.Join(as, ", "), x.rets)
		}
	}
	for _, s := range a.svcs {
		n := ""
		if s.i != nil {
			n = s.i.name
		}
		logf("service %s %s: %s", s.name, n, strings.ReplaceAll(strings.Join(s.mods, "; "), P, "«"))
	}
	for _, x := range a.body {
		logf("wiring %s", x)
	}
}
