package code

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
	"verif/harness/h"
)

type lmethod struct {
	name, sig string // sig without "func"
	valid     bool   // valid for a service
}

type liface struct {
	name, pkg string
	methods   []lmethod
	embeds    bool
}

type lstruct struct {
	name, pkg string
	methods   map[string]string // name -> canonical signature
}

type lctor struct {
	name, pkg string
	valid     bool
	returns   string // "iface NAME" or "struct NAME"
}

// argument types; the second element is another spelling of an identical type in the implementing package
var sigArgs = [][2]string{{"int", "int"}, {"[]byte", "[]uint8"}, {"core.Thing", "core.Thing"}, {"*core.Thing", "*core.Thing"}, {"map[string]core.Thing", "map[string](core.Thing)"},
	{"rune", "int32"}, {"interface{}", "any"}, {"[]core.Kind", "[]core.Kind"}, {"[4]int", "[0x4]int"}, {"time.Time", "time.Time"}, {"string", "string"}, {"chan int", "(chan int)"}}

func TestC11_Lookup(t *testing.T) {
	counter := 0
	h.Check(t, h.Opts{Quick: 60, Thorough: 400,
		Rule: "a case is a generated workflow (one or two modules) of interfaces, implementations and constructors in which some are not valid services, and a lookup of every one of them by name; non-trivial when at least one lookup must succeed and one must fail"},
		func(t *rapid.T, c *h.Case) {
			counter++
			dir, done := h.TempDir()
			defer done()
			defer os.Setenv("GOWORK", os.Getenv("GOWORK"))
			os.Setenv("GOWORK", "off")
			wd, _ := os.Getwd()
			defer os.Chdir(wd)
			pick := func(l string, n int) int { return rapid.IntRange(0, n-1).Draw(t, l) }
			chance := func(l string, pct int) bool { return pick(l, 100) >= 100-pct }

			twoMods := rapid.Bool().Draw(t, "twomodules")
			modA, modB := fmt.Sprintf("look.test/a%d", counter), fmt.Sprintf("look.test/a%d", counter)
			dirA, dirB := filepath.Join(dir, "wf"), filepath.Join(dir, "wf")
			if twoMods {
				modB, dirB = fmt.Sprintf("look.test/b%d", counter), filepath.Join(dir, "impl")
			}
			corePkg := modA + "/core"
			implPkgs := []string{modB + "/impl", modB + "/other"}
			if !twoMods && rapid.Bool().Draw(t, "samepackage") {
				implPkgs[1] = corePkg
			}

			var ifaces []*liface
			var structs []*lstruct
			var ctors []*lctor
			src := map[string][]string{}
			add := func(pkg, s string) { src[pkg] = append(src[pkg], s) }
			local := func(pkg, s string) string {
				if pkg == corePkg {
					return strings.ReplaceAll(s, "core.", "")
				}
				return s
			}
			add(corePkg, "type Thing struct{ X int }")
			add(corePkg, "type Kind int")
			add(corePkg, "func (k Kind) String() string { return \"\" }")

			mk := func(i, j int) (lmethod, string) {
				m := lmethod{name: fmt.Sprintf("M%dx%dx%d", counter, i, j), valid: true}
				var args, other []string
				for k := pick("nargs", 3); k > 0; k-- {
					a := sigArgs[pick("arg", len(sigArgs))]
					args, other = append(args, a[0]), append(other, a[1])
				}
				var rets, otherRets []string
				for k := pick("nrets", 3); k > 0; k-- {
					a := sigArgs[pick("ret", len(sigArgs))]
					rets, otherRets = append(rets, a[0]), append(otherRets, a[1])
				}
				pre, post := []string{"context.Context"}, []string{"error"}
				switch pick("invalid", 90) - 40 {
				case 0:
					pre, m.valid = nil, false
				case 1:
					post, m.valid = nil, false
				case 2:
					pre, m.valid = []string{"int", "context.Context"}, false
				case 3:
					post, m.valid = []string{"error", "int"}, false
				case 4:
					pre, m.valid = []string{"*context.Context"}, false
				case 5:
					post, m.valid = []string{"*error"}, false
				case 6:
					pre, post, args, other, rets, otherRets, m.valid = nil, nil, nil, nil, nil, nil, false
				}
				if len(pre) == 0 && len(args) > 0 && args[0] == "context.Context" {
					h.EnvError("unexpected")
				}
				sig := func(a, r []string) string {
					return "(" + strings.Join(append(append([]string{}, pre...), a...), ", ") + ") (" + strings.Join(append(append([]string{}, r...), post...), ", ") + ")"
				}
				m.sig = sig(args, rets)
				return m, sig(other, otherRets)
			}
			nIfaces := 1 + pick("nifaces", 3)
			var allMethods []lmethod
			impls := map[string]string{}
			for i := 0; i < nIfaces; i++ {
				it := &liface{name: fmt.Sprintf("Svc%d", i), pkg: corePkg}
				for j := 1 + pick("nmethods", 3); j > 0; j-- {
					if len(allMethods) > 0 && chance("shared", 30) {
						m := allMethods[pick("sharedm", len(allMethods))]
						dup := false
						for _, o := range it.methods {
							dup = dup || o.name == m.name
						}
						if !dup {
							it.methods = append(it.methods, m)
						}
						continue
					}
					m, other := mk(i, j)
					impls[m.name] = other
					it.methods = append(it.methods, m)
					allMethods = append(allMethods, m)
				}
				it.embeds = chance("embeds", 10)
				var lines []string
				for _, m := range it.methods {
					lines = append(lines, "\t"+m.name+local(corePkg, m.sig))
				}
				if it.embeds {
					lines = append(lines, "\tinterface{ Extra() }")
				}
				add(corePkg, fmt.Sprintf("type %s interface {\n%s\n}", it.name, strings.Join(lines, "\n")))
				ifaces = append(ifaces, it)
			}
			nStructs := 1 + pick("nstructs", 3)
			for i := 0; i < nStructs; i++ {
				s := &lstruct{name: fmt.Sprintf("Impl%d", i), pkg: implPkgs[pick("implpkg", 2)], methods: map[string]string{}}
				structs = append(structs, s)
				add(s.pkg, fmt.Sprintf("type %s struct{ a, b int }", s.name))
				for _, m := range allMethods {
					how := pick("how", 24)
					if how == 9 {
						continue
					}
					sig, canonical := m.sig, m.sig
					if how > 12 {
						sig = impls[m.name]
					}
					if how == 11 { // another signature
						sig = strings.Replace(sig, "(", "(x.Ctx, ", 1)
						sig = strings.Replace(sig, "x.Ctx", "*time.Time", 1)
						canonical = "other"
					}
					recv := []string{"*", ""}[pick("recv", 2)]
					add(s.pkg, fmt.Sprintf("func (s %s%s) %s%s { panic(0) }", recv, s.name, m.name, local(s.pkg, sig)))
					s.methods[m.name] = canonical
				}
				for k := 2 - pick("nctors", 3); k > 0; k-- {
					ct := &lctor{name: fmt.Sprintf("New%dx%d", i, k), pkg: s.pkg, valid: true}
					ret := "*" + s.name
					ct.returns = "struct " + s.name
					if rapid.Bool().Draw(t, "returnsiface") {
						it := ifaces[pick("ctoriface", len(ifaces))]
						ret = "core." + it.name
						ct.returns = "iface " + it.name
					}
					args := []string{"ctx context.Context"}
					for a := pick("ctorargs", 3); a > 0; a-- {
						args = append(args, fmt.Sprintf("p%d %s", a, []string{"string", "core.Thing", "core.Kind"}[pick("ctorarg", 3)]))
					}
					rets := []string{ret, "error"}
					switch pick("ctorinvalid", 40) - 20 {
					case 0:
						args, ct.valid = args[1:], false
					case 1:
						rets, ct.valid = rets[:1], false
					case 2:
						rets, ct.valid = []string{ret, "int"}, false
					case 3:
						rets, ct.valid = []string{ret, "int", "error"}, false
					case 4:
						rets, ct.valid = []string{"error", ret}, false
					case 5:
						args, ct.valid = append([]string{"p int"}, args...), false
					case 6:
						rets, ct.valid = []string{"**" + s.name, "error"}, false
					case 7:
						rets, ct.valid = []string{s.name, "error"}, false
					}
					ctors = append(ctors, ct)
					add(ct.pkg, fmt.Sprintf("func %s(%s) (%s) { panic(0) }", ct.name, local(ct.pkg, strings.Join(args, ", ")), local(ct.pkg, strings.Join(rets, ", "))))
				}
			}
			add(implPkgs[0], "func Helper(ctx context.Context) (core.Kind, error) { panic(0) }")

			write := func(p, s string) {
				os.MkdirAll(filepath.Dir(p), 0755)
				if err := os.WriteFile(p, []byte(s), 0644); err != nil {
					h.EnvError("%v", err)
				}
			}
			write(filepath.Join(dirA, "go.mod"), "module "+modA+"\n\ngo 1.22\n")
			if twoMods {
				write(filepath.Join(dirB, "go.mod"), fmt.Sprintf("module %s\n\ngo 1.22\n\nrequire %s v0.0.0\n\nreplace %s => ../wf\n", modB, modA, modA))
			}
			for pkg, lines := range src {
				d := filepath.Join(dirB, strings.TrimPrefix(pkg, modB))
				if strings.HasPrefix(pkg, modA+"/") {
					d = filepath.Join(dirA, strings.TrimPrefix(pkg, modA))
				}
				// two files, so that declarations are spread over files with their own imports
				for fi := 0; fi < 2; fi++ {
					var mine []string
					for i, l := range lines {
						if (len(l)+i)%2 == fi {
							mine = append(mine, l)
						}
					}
					body := strings.Join(mine, "\n\n")
					var imps strings.Builder
					if strings.Contains(body, "context.") {
						imps.WriteString("import \"context\"\n")
					}
					if strings.Contains(body, "time.") {
						imps.WriteString("import \"time\"\n")
					}
					if strings.Contains(body, "core.") {
						fmt.Fprintf(&imps, "import %q\n", corePkg)
					}
					text := "package " + filepath.Base(pkg) + "\n\n" + imps.String() + "\n" + body + "\n"
					c.Logf("%s/f%d.go:\n%s", strings.ReplaceAll(pkg, fmt.Sprint(counter), "N"), fi, strings.ReplaceAll(text, fmt.Sprintf("M%dx", counter), "MNx"))
					write(filepath.Join(d, fmt.Sprintf("f%d.go", fi)), text)
				}
			}
			os.Chdir(dirB)
			if twoMods {
				for _, p := range []string{corePkg, implPkgs[0]} {
					if err := workflowspec.AddModule(p); err != nil {
						c.Failf("AddModule(%s): %v", p, err)
					}
				}
			}

			ifaceValid := func(it *liface) bool {
				for _, m := range it.methods {
					if !m.valid {
						return false
					}
				}
				return !it.embeds
			}
			implements := func(s *lstruct, it *liface) bool {
				for _, m := range it.methods {
					if s.methods[m.name] != m.sig {
						return false
					}
				}
				return !it.embeds
			}
			good, bad := 0, 0
			lookup := func(pkg, name string) (svc *workflowspec.Service, err error) {
				if p := h.Try(func() { svc, err = workflowspec.GetServiceByName(pkg, name) }); p != nil {
					c.Failf("looking up %s.%s panics: %v", pkg, name, p)
				}
				if svc == nil && err == nil {
					c.Failf("looking up %s.%s returns neither a service nor an error", pkg, name)
				}
				for i := 0; i < 3; i++ {
					again, err2 := workflowspec.GetServiceByName(pkg, name)
					if (err == nil) != (err2 == nil) || (err == nil && !reflect.DeepEqual(again, svc)) {
						c.Failf("looking up %s.%s twice gives different answers: %v, %v", pkg, name, describe(svc), describe(again))
					}
				}
				return
			}
			ctorsFor := func(returns string) map[string]bool {
				r := map[string]bool{}
				for _, ct := range ctors {
					if ct.valid && ct.returns == returns {
						r[ct.pkg+"."+ct.name] = true
					}
				}
				return r
			}
			checkService := func(svc *workflowspec.Service) {
				ws, err := gogen.NewWorkspaceBuilder(filepath.Join(dir, fmt.Sprintf("out%d", good)))
				if err != nil {
					c.Failf("%v", err)
				}
				if err := svc.AddToWorkspace(ws); err != nil {
					c.Failf("adding the service's modules to a workspace: %v", err)
				}
				var mods []string
				for _, m := range svc.Modules() {
					mods = append(mods, m.Name)
					if _, ok := ws.GetLocalModule(m.Name); !ok {
						c.Failf("module %s of a service is not in the workspace", m.Name)
					}
				}
				si := svc.Iface.ServiceInterface(nil)
				if len(si.Methods) != len(svc.Iface.Methods) {
					c.Failf("interface %s has %d methods, its service interface %d", svc.Iface.Name, len(svc.Iface.Methods), len(si.Methods))
				}
				for n, m := range si.Methods {
					full := svc.Iface.Methods[n]
					if len(m.Arguments) != len(full.Arguments)-1 || len(m.Returns) != len(full.Returns)-1 {
						c.Failf("method %s has %v, its service method %v", n, full, m)
					}
				}
			}
			for _, it := range ifaces {
				svc, err := lookup(it.pkg, it.name)
				cs := ctorsFor("iface " + it.name)
				ss := map[string]bool{}
				for _, s := range structs {
					if implements(s, it) {
						ss[s.pkg+"."+s.name] = true
					}
				}
				want := ifaceValid(it) && len(cs) > 0 && len(ss) > 0
				if !want {
					bad++
					if err == nil {
						c.Failf("interface %s was accepted as a service (%v); valid interface: %v, constructors: %s, implementations: %s", it.name, describe(svc), ifaceValid(it), keys(cs), keys(ss))
					}
					continue
				}
				good++
				if err != nil {
					c.Failf("service %s was not found (constructors %s, implementations %s): %v", it.name, keys(cs), keys(ss), err)
				}
				if svc.Iface.Name != it.name || svc.Iface.File.Package.Name != it.pkg || !cs[svc.Constructor.File.Package.Name+"."+svc.Constructor.Name] || !ss[svc.Struct.File.Package.Name+"."+svc.Struct.Name] {
					c.Failf("service %s was found as %v; constructors are %s, implementations %s", it.name, describe(svc), keys(cs), keys(ss))
				}
				checkService(svc)
			}
			for _, s := range structs {
				svc, err := lookup(s.pkg, s.name)
				cs := ctorsFor("struct " + s.name)
				is := map[string]bool{}
				var cand []*liface
				for _, it := range ifaces {
					if ifaceValid(it) && implements(s, it) {
						is[it.name] = true
						cand = append(cand, it)
					}
				}
				want := len(cs) > 0 && len(is) > 0
				if !want {
					bad++
					if err == nil {
						c.Failf("%s was accepted as a service (%v); interfaces: %s, constructors: %s", s.name, describe(svc), keys(is), keys(cs))
					}
					continue
				}
				good++
				if err != nil {
					c.Failf("service %s was not found (interfaces %s, constructors %s): %v", s.name, keys(is), keys(cs), err)
				}
				if !is[svc.Iface.Name] || !cs[svc.Constructor.File.Package.Name+"."+svc.Constructor.Name] || svc.Struct.Name != s.name {
					c.Failf("service %s was found as %v; interfaces are %s, constructors %s", s.name, describe(svc), keys(is), keys(cs))
				}
				for _, it := range cand {
					if len(it.methods) > len(svc.Iface.Methods) {
						more := map[string]bool{}
						for _, m := range it.methods {
							more[m.name] = true
						}
						sub := true
						for m := range svc.Iface.Methods {
							sub = sub && more[m]
						}
						if sub {
							c.Failf("service %s implements %s, but only its part %s was used", s.name, it.name, svc.Iface.Name)
						}
					}
				}
				checkService(svc)
			}
			for _, q := range [][2]string{{corePkg, "Kind"}, {corePkg, "Nothing"}, {corePkg, "Thing"}, {implPkgs[0], "Helper"}, {modB + "/missing", "X"}, {"no.such/module", "X"}} {
				if _, err := lookup(q[0], q[1]); err == nil {
					c.Failf("%s.%s was accepted as a service", q[0], q[1])
				}
			}
			c.NonTrivial(good > 0 && bad > 0)
			if good > 0 {
				c.Label("has a valid service")
			}
			if twoMods {
				c.Label("two modules")
			}
		})
}

func describe(s *workflowspec.Service) string {
	if s == nil {
		return "nothing"
	}
	return fmt.Sprintf("interface %s, constructor %s, struct %s", s.Iface.Name, s.Constructor.Name, s.Struct.Name)
}
