package lab

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// gtReg is a service registry of a test package.
type gtReg struct {
	v, def string // variable, name of the default client if it is set
	i      *iface
	cmds   []cmd
	own    string // the package's own file that declares it
}

type gtPkg struct {
	mod, dir string
	regs     []*gtReg
}

func methodSet(i *iface) map[string]bool {
	m := map[string]bool{}
	for _, x := range i.methods {
		m[x.name] = true
	}
	return m
}

// source renders the test files of the package.
func (p *gtPkg) source(t *rapid.T) map[string]string {
	out := map[string]string{}
	path := p.mod
	name := p.mod[strings.LastIndex(p.mod, "/")+1:]
	if p.dir != "" {
		path += "/" + p.dir
		name = p.dir[strings.LastIndex(p.dir, "/")+1:]
	}
	byFile := map[string][]*gtReg{}
	for _, r := range p.regs {
		byFile[r.own] = append(byFile[r.own], r)
	}
	for file, rs := range byFile {
		m := newImps(path)
		C, T, R, F, J := m.name("context"), m.name("testing"), m.name("github.com/blueprint-uservices/blueprint/runtime/core/registry"), m.name("fmt"), m.name("encoding/json")
		if R != "registry" {
			panic(R)
		}
		var b strings.Builder
		group := len(rs) > 1 && flip(t, "group", 1, 2)
		if group {
			b.WriteString("var (\n")
		}
		for _, r := range rs {
			decl := fmt.Sprintf("%s = registry.NewServiceRegistry[%s](%q)\n", r.v, m.ty(ty("«"+r.i.pkg+"»."+r.i.name)), r.v)
			if !group {
				decl = "var " + decl
			}
			b.WriteString(decl)
		}
		if group {
			b.WriteString(")\n")
		}
		for _, r := range rs {
			I := m.ty(ty("«" + r.i.pkg + "»." + r.i.name))
			fmt.Fprintf(&b, "\nfunc init() {\n\t%s.Register(\"local\", func(ctx %s.Context) (%s, error) {\n\t\treturn %s(ctx, \"local\")\n\t})\n", r.v, C, I, m.ty(ty("«"+r.i.pkg+"».New"+r.i.impl)))
			if r.def != "" {
				fmt.Fprintf(&b, "\t%s.SetDefault(%q)\n", r.v, r.def)
			}
			fmt.Fprintf(&b, "}\n\nfunc Test_%s(t *%s.T) {\n\tctx := %s.Background()\n\tservice, err := %s.Get(ctx)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treport := func(id int, err error, rets ...any) {\n\t\te := \"\"\n\t\tif err != nil {\n\t\t\te = err.Error()\n\t\t}\n\t\tb, _ := %s.Marshal(map[string]any{\"ID\": id, \"Err\": e, \"Rets\": %s.Canon(rets...)})\n\t\t%s.Printf(\"\\nLABRESULT %%s\\n\", b)\n\t}\n", r.v, T, C, r.v, J, m.name(mod+"/lab"), F)
			for _, x := range r.cmds {
				var plan string
				json.Unmarshal(x.Lit[0], &plan)
				rets := map[string]string{"Do": "r0, r1, ", "Get": "r0, ", "Fire": ""}[x.M]
				vals := strings.TrimSuffix(", "+rets, ", ")
				fmt.Fprintf(&b, "\t{\n\t\t%serr := service.%s(ctx, %q)\n\t\treport(%d, err%s)\n\t}\n", rets, x.M, plan, x.ID, vals)
			}
			b.WriteString("}\n")
		}
		out[file] = "package " + name + "\n\n" + m.block() + "\n" + b.String()
	}
	doc := "doc.go"
	out[doc] = "// Package " + name + " has tests.\npackage " + name + "\n\ntype Here struct{}\n"
	if flip(t, "plain test", 1, 2) {
		out["aplain_test.go"] = "package " + name + "\n\nimport \"testing\"\n\nfunc TestPlain(t *testing.T) {\n\tif (Here{}) != (Here{}) {\n\t\tt.Fail()\n\t}\n}\n"
	}
	return out
}

func TestC24_ConvertedTests(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application and test modules that use service registries; the tests that Blueprint converts are built and run against the generated processes, and the results show which service answered; non-trivial if some calls of converted tests were answered by another process and some registry has several services or none"}, func(t *rapid.T, c *h.Case) {
		p := newPlanApp(t, c)
		a := p.a
		a.noProbe = true
		for k, i := range a.ifaces {
			if k > 0 { // a type with the methods of two interfaces would be taken for either
				i.methods = i.methods[:intn(t, "nmethods", 1, 2)]
				c.Label("sub-interface")
			}
		}
		fails := map[string]int{} // failures that the clients hide
		for k := intn(t, "nsvc", 1, 5); k > 0; k-- {
			n := pick(t, "sname", "s", "user_service", "cart-svc", "geo.v") + fmt.Sprint(k)
			var mods []string
			if flip(t, "retries", 1, 3) {
				fails[n] = intn(t, "tries", 2, 3) - 1
				mods = append(mods, mod1("retries.AddRetries", n, fails[n]+1))
			}
			if flip(t, "timeout", 1, 4) {
				mods = append(mods, mod1("timeouts.Add", n, "20s"))
			}
			http := flip(t, "http", 2, 3)
			if http && flip(t, "pool", 1, 5) {
				mods = append(mods, mod1("clientpool.Create", n, 2))
			}
			s := p.service(n, p.iface(), mods...)
			if http {
				p.expose(s)
			}
		}
		a.probed = nil
		var tested []*svc
		var names []string
		for _, s := range a.svcs {
			if flip(t, "tested", 4, 5) {
				tested = append(tested, s)
				names = append(names, s.name)
			}
		}
		// candidates are the services whose clients have the interface's methods; certain leaves out those that have
		// it by a part of another interface only, unless that interface has constructors of its own
		candidates := func(i *iface, certain bool) (out []*svc) {
			for _, s := range tested {
				has := methodSet(s.i)
				ok := s.i == i || i.viaIface || !certain
				for m := range methodSet(i) {
					ok = ok && has[m]
				}
				if ok {
					out = append(out, s)
				}
			}
			return
		}
		var pkgs []*gtPkg
		a.files = map[string]string{}
		crowd := false
		for k, mname := range []string{"lab.test/tests", "lab.test/moretests"}[:intn(t, "nmods", 1, 2)] {
			base := mname[strings.LastIndex(mname, "/")+1:]
			a.mods = append(a.mods, base)
			a.files[base+"/go.mod"] = "module " + mname + "\n\ngo 1.23\n"
			if flip(t, "add", 1, 2) {
				a.body = append(a.body, fmt.Sprintf("_ = «%s».Here{}", mname), fmt.Sprintf("«github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec».AddModule(%q)", mname))
			} else {
				a.body = append(a.body, fmt.Sprintf("«github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec».Add[«%s».Here]()", mname))
			}
			dirs := []string{"", "sub", "sub/deep", "tests"}
			for d, dir := range dirs {
				if d > 0 && !flip(t, "dir", 1, 3) {
					continue
				}
				q := &gtPkg{mod: mname, dir: dir}
				for n := intn(t, "nregs", min(1, d+k), 3); n > 0; n-- {
					r := &gtReg{v: fmt.Sprintf("%s%d", pick(t, "var", "registry_", "userRegistry", "Reg", "service", "client", "clientlib", "err"), n), i: p.iface(), own: pick(t, "file", "a_test.go", "service_test.go", "zz_test.go")}
					cand := candidates(r.i, true)
					crowd = crowd || len(cand) != 1
					if flip(t, "default", 1, 2) {
						r.def = "local"
						if len(cand) > 0 && flip(t, "remote", 3, 4) {
							r.def = cand[intn(t, "cand", 0, len(cand)-1)].name
						}
					}
					for y := intn(t, "ncalls", 1, 4); y > 0; y-- {
						steps := "ok"
						least := 0
						if r.def != "" {
							least = fails[r.def]
						}
						if flip(t, "fails", 1, 2) {
							steps = strings.Repeat("fail;", intn(t, "nfails", 0, least)) + pick(t, "end", "ok", "ok", "fail")
						}
						x := p.call(r.v, r.i.methods[intn(t, "m", 0, len(r.i.methods)-1)].name, steps)
						r.cmds = append(r.cmds, x)
					}
					q.regs = append(q.regs, r)
				}
				for f, s := range q.source(t) {
					a.files[filepath.Join(base, dir, f)] = s
				}
				pkgs = append(pkgs, q)
				for _, r := range q.regs {
					c.Logf("%s/%s %s: %s %s, default %q, calls %v", mname, dir, r.own, r.v, r.i.name, r.def, len(r.cmds))
				}
			}
		}
		if len(names) > 1 && flip(t, "twice", 1, 3) {
			a.body = append(a.body, fmt.Sprintf(P+"gotests».Test(spec, %q)", names[0]))
			names = names[1:]
		}
		a.body = append(a.body, fmt.Sprintf(P+"gotests».Test(spec%s)", quoteAll(names)))
		a.rets = append(a.rets, "gotests")
		var remote []string
		for _, s := range a.svcs {
			if p.remote[s.name] {
				remote = append(remote, s.name)
			}
		}
		if len(remote) > 0 {
			a.body = append(a.body, fmt.Sprintf(P+"goproc».CreateProcess(spec, \"remoteproc\"%s)", quoteAll(remote)))
			a.rets = append(a.rets, "remoteproc")
		}
		x := compileOrFail(c, a)
		out := filepath.Join(x.out, "gotests")
		var server *proc
		for _, q := range x.procs() {
			if q.name == "remoteproc" {
				server = q
			} else if q.dir != out {
				c.Failf("unexpected workspace %s", q.dir)
			}
		}
		if (server != nil) != (len(remote) > 0) {
			c.Failf("generated process: %v, services in it: %v", server, remote)
		}
		e := x.e
		run := filepath.Join(e.dir, "app", "run")
		os.RemoveAll(run)
		os.MkdirAll(run, 0755)
		vars := append(append([]string{}, e.vars...), "LAB_LOG="+run+"/log", "LAB_STRICT=1")
		var flags []string
		if server != nil {
			if err := x.buildAll([]*proc{server}, false); err != nil {
				c.Failf("the generated code does not compile: %v", err)
			}
			var as, addrs []string
			for _, s := range remote {
				addr := freeAddr()
				addrs = append(addrs, addr)
				as = append(as, "--"+s+".http.bind_addr="+addr)
				isTested := false
				for _, n := range tested {
					isTested = isTested || n.name == s
				}
				if isTested {
					flags = append(flags, "--"+s+".http.dial_addr="+addr)
				}
			}
			cm := exec.Command(server.bin, as...)
			cm.Dir, cm.Env = run, vars
			cm.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			if err := cm.Start(); err != nil {
				h.EnvError("cannot start the server: %v", err)
			}
			defer func() { syscall.Kill(-cm.Process.Pid, syscall.SIGKILL); cm.Wait() }()
			for _, ad := range addrs {
				if !dialable(ad, time.Minute) {
					c.Failf("no server at %s after a minute", ad)
				}
			}
		}
		// a module is converted if some registry of it has a service
		gw := e.goWork("work-gotests", false, workDirs(out)...)
		remoteCalls := 0
		for _, m := range a.mods {
			conv := false
			for _, q := range pkgs {
				for _, r := range q.regs {
					conv = conv || strings.HasSuffix(q.mod, "/"+m) && len(candidates(r.i, true)) > 0
				}
			}
			dst := filepath.Join(out, m)
			if _, err := os.Stat(dst); !conv {
				if err == nil {
					c.Label("a module without converted tests in the output")
				}
				continue
			} else if err != nil {
				c.Failf("the tests of %s were not converted: %v", m, err)
			}
			// what is added to the module is in files of their own
			want := map[string]bool{}
			for f, s := range a.files {
				if strings.HasPrefix(f, m+"/") && !strings.HasSuffix(f, "go.mod") {
					want[f] = true
					if b, err := os.ReadFile(filepath.Join(out, f)); err != nil || string(b) != s {
						c.Failf("file %s of the converted tests differs from the original: %v", f, err)
					}
				}
			}
			filepath.WalkDir(dst, func(f string, d fs.DirEntry, err error) error {
				rel, _ := filepath.Rel(out, f)
				if err == nil && strings.HasSuffix(f, "_test.go") && !want[rel] {
					c.Failf("a test file was added: %s", rel)
				}
				return nil
			})
			for _, q := range pkgs {
				if !strings.HasSuffix(q.mod, "/"+m) {
					continue
				}
				bin := filepath.Join(run, strings.ReplaceAll(m+"/"+q.dir, "/", "_")+".test")
				if o, err := e.cmd(gw, filepath.Join(dst, q.dir), 5*time.Minute, "go", "test", "-trimpath", "-c", "-o", bin, "."); err != nil {
					c.Failf("the tests of %s/%s do not build: %s", m, q.dir, tail(strings.ReplaceAll(o, e.dir, ""), 30))
				}
				if _, err := os.Stat(bin); err != nil {
					continue // no test files
				}
				as := []string{"-test.v"}
				known := 0
				for _, r := range q.regs {
					known += len(candidates(r.i, true))
				}
				env := vars[:len(vars):len(vars)]
				if known > 0 {
					if flip(t, "by environment", 1, 2) {
						for _, f := range flags {
							k, v, _ := strings.Cut(strings.TrimPrefix(f, "--"), "=")
							env = append(env, envVar(k)+"="+v)
						}
						c.Label("addresses from the environment")
					} else {
						as = append(as, flags...)
					}
				}
				cm := exec.Command(bin, as...)
				cm.Dir, cm.Env = run, env
				cm.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
				timer := time.AfterFunc(2*time.Minute, func() { syscall.Kill(-cm.Process.Pid, syscall.SIGKILL) })
				b, err := cm.CombinedOutput()
				timer.Stop()
				if err != nil {
					c.Failf("the tests of %s/%s failed: %v\n%s", m, q.dir, err, tail(string(b), 30))
				}
				results := map[int]result{}
				for _, l := range strings.Split(string(b), "\n") {
					if js, ok := strings.CutPrefix(l, "LABRESULT "); ok {
						var r result
						if json.Unmarshal([]byte(js), &r) == nil {
							results[r.ID] = r
						}
					}
				}
				for _, r := range q.regs {
					labels := map[string]*svc{}
					for _, s := range candidates(r.i, false) {
						if r.def == "" || r.def == s.name {
							labels[s.label] = s
						}
					}
					if r.def == "local" || len(labels) == 0 {
						labels = map[string]*svc{"local": nil}
					} else if r.def == "" && len(candidates(r.i, true)) == 0 {
						labels["local"] = nil
					}
					for _, y := range r.cmds {
						plan := p.plan(y)
						what := fmt.Sprintf("%s/%s: %s.%s(%q), default %q", m, q.dir, r.v, y.M, plan, r.def)
						res, ok := results[y.ID]
						if !ok {
							c.Failf("%s: no result\n%s", what, tail(string(b), 20))
						}
						steps := strings.Split(plan[strings.Index(plan, "|")+1:], ";")
						fine := false
						var wants []string
						for l, s := range labels {
							tries := 1
							if s != nil {
								tries += fails[s.name]
							}
							at := -1
							for k := 0; k < tries && at < 0; k++ {
								if steps[min(k, len(steps)-1)] == "ok" {
									at = k
								}
							}
							if at < 0 {
								wants = append(wants, l+": an error")
								fine = fine || res.Err != ""
								continue
							}
							v := ""
							q := fmt.Sprintf("%q", fmt.Sprintf("%s/%s/%d/%d", l, plan, at, 0))
							if y.M == "Do" {
								v = fmt.Sprintf("%s, %d", q, at*10+1)
							} else if y.M == "Get" {
								v = q
							}
							wants = append(wants, v)
							if res.Err == "" && res.Rets == v {
								fine = true
								if s != nil && p.remote[s.name] && v != "" {
									remoteCalls++
								}
							}
						}
						if !fine {
							sort.Strings(wants)
							c.Failf("%s returned %s %q, expected one of %q", what, res.Rets, res.Err, wants)
						}
					}
				}
			}
		}
		// a call without results may have gone to the wrong service: its invocation is on record
		b, _ := os.ReadFile(filepath.Join(run, "log"))
		by := map[string]string{}
		for _, l := range strings.Split(string(b), "\n") {
			var i inv
			if l != "" && json.Unmarshal([]byte(l), &i) == nil {
				by[i.Args] = i.Svc
			}
		}
		for _, q := range pkgs {
			for _, r := range q.regs {
				for _, y := range r.cmds {
					l := by[fmt.Sprintf("%q", p.plan(y))]
					if r.def != "" && l != "" && l != "local" && l != a.labelOf(r.def) || r.def == "local" && l != "" && l != "local" {
						c.Failf("%s of registry %s with default %q was answered by %s", y.M, r.v, r.def, l)
					}
				}
			}
		}
		c.NonTrivial(remoteCalls > 0 && crowd)
	})
}

func quoteAll(ns []string) string {
	s := ""
	for _, n := range ns {
		s += fmt.Sprintf(", %q", n)
	}
	return s
}

func dialable(addr string, limit time.Duration) bool {
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if cn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			cn.Close()
			return true
		}
	}
	return false
}
