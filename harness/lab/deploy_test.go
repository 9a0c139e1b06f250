package lab

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"verif/harness/h"

	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

func TestC23_DirectHTTP(t *testing.T)  { sameAnswersTest(t, 0, "direct", jsonW, 1) }
func TestC23_ScriptHTTP(t *testing.T)  { sameAnswersTest(t, 1, "linux", jsonW, 1) }
func TestC23_ScriptGRPC(t *testing.T)  { sameAnswersTest(t, 2, "linux", grpcW, 2) }
func TestC23_ComposeHTTP(t *testing.T) { sameAnswersTest(t, 3, "docker", jsonW, 2) }
func TestC23_ComposeGRPC(t *testing.T) { sameAnswersTest(t, 4, "docker", grpcW, 2) }

func sameAnswersTest(t *testing.T, nth int, mode string, wire wireKind, quick int) {
	h.Check(t, h.Opts{Quick: quick, Thorough: 25, Hang: 10 * time.Minute, Rule: "a case is a generated application of services that call each other, whose wiring has random modifiers, HTTP or gRPC deployment, processes and containers; Blueprint compiles it, the generated processes are started directly, by the generated run.sh with the generated .local.env, or as the containers of the generated docker-compose file (with loopback addresses in place of container names), and every answer is compared with those of the same services composed by hand in one process; non-trivial if at least two processes took part and at least 10 requests returned values"}, func(t *rapid.T, c *h.Case) {
		for k := 0; k < nth; k++ {
			intn(t, "unused", 0, 1) // the tests start from the same seed, but shall not draw the same applications
		}
		g := &gen{t: t, a: &app{wire: wire, plain: true, extra: map[string]*iface{}, labels: map[string]string{}}, awkward: true, rich: wire == jsonW}
		a := g.a
		style := pick(t, "names", "s%d", "s%d", "svc_%d", "User-%d", "cart%d_service", "S%dx")
		g.svcName = func(k int) string { return fmt.Sprintf(style, k) }
		g.genTypes(intn(t, "ntypes", 2, 6))
		kind := pick(t, "kind", "tree", "count")
		c.Label("services that " + map[string]string{"tree": "are stateless", "count": "have state"}[kind])
		d := genDAG(t, c, g, 6, func(k int, _ []*iface) *iface {
			return g.genIface(mod+"/svc", fmt.Sprintf("%s%d", pick(t, "iname", ifaceNames...), k), kind)
		})
		wires := []string{"http"}
		if wire == grpcW {
			wires = []string{"http", "grpc", "grpc"}
		}
		d.deploy(4, wires...)
		c.Label("started by " + map[string]string{"direct": "the harness", "linux": "run.sh", "docker": "docker-compose"}[mode])
		tracer := flip(t, "tracer", 1, 4)
		if tracer {
			a.svcs[0].mods = append(a.svcs[0].mods, P+"zipkin».Collector(spec, \"zipkin\")")
		}
		repeats := false
		for _, s := range d.svcs {
			ms, names := g.neutralMods(s.name, tracer)
			for k, m := range ms {
				if names[k] == "retries" && kind == "count" {
					continue // a repeated call changes the state
				}
				repeats = repeats || names[k] == "retries"
				c.Label(names[k])
				s.mods = append(s.mods, m)
			}
			if s.wire != "" {
				if flip(t, "pool", 1, 4) {
					s.mods = append(s.mods, mod1("clientpool.Create", s.name, intn(t, "size", 1, 4)))
					c.Label("clientpool")
				}
				s.mods = append(s.mods, mod1(s.wire+".Deploy", s.name))
			}
		}
		pstyle := pick(t, "pnames", "proc%d", "p-%d", "Front_%d", "x%d_proc")
		name := func(p int) string { return strings.ReplaceAll(fmt.Sprintf(pstyle, p), "-", "_") }
		number := map[string]int{}
		containers := map[int][]int{} // number of the container -> its processes
		nctr := intn(t, "nctr", 1, 4)
		for p := d.procs - 1; p >= 0; p-- {
			ss := d.processes()[p]
			if len(ss) == 0 {
				continue
			}
			a.body = append(a.body, fmt.Sprintf(P+"goproc».CreateProcess(spec, %q, \"%s\")", fmt.Sprintf(pstyle, p), strings.Join(ss, `", "`)))
			if mode != "docker" {
				a.rets = append(a.rets, fmt.Sprintf(pstyle, p))
			}
			number[name(p)] = p
			k := intn(t, "ctr", 0, nctr-1)
			containers[k] = append(containers[k], p)
		}
		cstyle := pick(t, "cnames", "ctr%d", "c-%d", "box_%d")
		cname := func(k int) string { return strings.ReplaceAll(fmt.Sprintf(cstyle, k), "-", "_") }
		if mode == "docker" {
			for k := 0; k < nctr; k++ {
				var in []string
				for _, p := range containers[k] {
					in = append(in, fmt.Sprintf("%q", fmt.Sprintf(pstyle, p)))
				}
				if len(in) > 0 {
					n := fmt.Sprintf(cstyle, k)
					a.body = append(a.body, fmt.Sprintf(P+"linuxcontainer».CreateContainer(spec, %q, %s)", n, strings.Join(in, ", ")))
					a.rets = append(a.rets, n)
				}
			}
		}
		base := freePorts(len(d.svcs) + 1)
		a.flags = []string{"-port", fmt.Sprint(base)}
		var cmds []cmd
		calls := plainCalls(a, intn(t, "seed", 1, 1<<30), 5)
		calls = rapid.Permutation(calls).Draw(t, "order")
		for k := 0; k < len(calls); {
			n := 1
			if kind == "tree" && flip(t, "par", 1, 3) {
				n = intn(t, "npar", 2, 8)
			}
			n = min(n, len(calls)-k)
			if n == 1 {
				cmds = append(cmds, calls[k])
			} else {
				cmds = append(cmds, cmd{ID: 100000 + k, Par: calls[k : k+n]})
			}
			k += n
		}

		x := compileOrFail(c, a)
		plain := &proc{name: "plain", bin: filepath.Join(x.e.dir, "app", "plain.bin"), argv: []string{}}
		if o, err := x.e.cmd(filepath.Join(x.e.dir, "app", "go.work"), filepath.Join(x.e.dir, "app", "wf", "plain"), 5*time.Minute, "go", "build", "-o", plain.bin, "."); err != nil {
			h.EnvError("the generated application is not valid Go: %s", o)
		}
		want, err := x.run([]*proc{plain}, "plain", cmds, nil, nil, 2*time.Minute)
		if err != nil {
			h.EnvError("the plain composition of the services fails: %v", err)
		}
		ps := x.procs()
		if len(ps) != len(number) {
			c.Failf("%d processes were generated, expected %d", len(ps), len(number))
		}
		if err := x.buildAll(ps, false); err != nil {
			c.Failf("the generated code does not compile: %v", err)
		}
		for attempt := 1; ; attempt++ {
			var got *outcome
			var err error
			switch mode {
			case "direct":
				d.addresses(ps, name)
				if tracer {
					for _, p := range ps {
						p.args["zipkin.dial_addr"] = "127.0.0.1:1"
					}
				}
				inOrder(ps, number)
				got, err = x.run(ps, name(0), cmds, nil, nil, 2*time.Minute)
			case "linux":
				got, err = x.runLinux(c, d, ps, cmds)
			case "docker":
				got, err = x.runDocker(c, d, ps, containers, name, cname, cmds)
			}
			ok := 0
			if err == nil {
				ok, err = sameAnswers(calls, want, got, !repeats)
			}
			if err == nil {
				c.NonTrivial(ok >= 10 && len(ps) > 1)
				return
			}
			if attempt == 3 {
				c.Failf("%v", err)
			}
			c.Label("repeated")
		}
	})
}

func sameAnswers(calls []cmd, want, got *outcome, once bool) (int, error) {
	ok := 0
	for _, x := range calls {
		w, has := want.results[x.ID]
		if !has || w.Panic != "" {
			h.EnvError("no answer from the plain composition to request %d: %s", x.ID, w.Panic)
		}
		g, has := got.results[x.ID]
		what := fmt.Sprintf("request %d %s.%s(%.300s)", x.ID, x.Svc, x.M, w.Args)
		if !has {
			return 0, fmt.Errorf("%s: no answer", what)
		}
		if g.Panic != "" {
			return 0, fmt.Errorf("%s: panic %s", what, g.Panic)
		}
		if (g.Err == "") != (w.Err == "") {
			return 0, fmt.Errorf("%s: error %q, composed in one process it is %q\n%s", what, g.Err, w.Err, got.output)
		}
		if g.Err == "" && g.Rets != w.Rets {
			return 0, fmt.Errorf("%s: returned %.600s, composed in one process %.600s", what, g.Rets, w.Rets)
		}
		if g.Err == "" {
			ok++
		}
	}
	if once {
		n := map[string]int{}
		for _, i := range want.invs {
			n[i.Svc+"."+i.Method+"("+i.Args+")"]++
		}
		for _, i := range got.invs {
			n[i.Svc+"."+i.Method+"("+i.Args+")"]--
		}
		for k, d := range n {
			if d != 0 {
				return 0, fmt.Errorf("the call %.600s was made %d times more often when composed in one process", k, d)
			}
		}
	}
	return ok, nil
}

// freePorts finds n consecutive ports that nothing listens on.
func freePorts(n int) int {
	for k := 0; k < 1000; k++ {
		b := 20000 + (os.Getpid()*37+k*64+int(time.Now().UnixNano()/1e3))%12000
		var ls []net.Listener
		for p := b; p < b+n; p++ {
			if l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p)); err == nil {
				ls = append(ls, l)
			}
		}
		for _, l := range ls {
			l.Close()
		}
		if len(ls) == n {
			return b
		}
	}
	h.EnvError("no free ports")
	return 0
}

// shim is a stand-in for the go command: run.sh starts processes with "go run .", here the executables are built already.
func (x *compiled) shim(ps []*proc) string {
	dir := filepath.Join(x.e.dir, "app", "shim")
	var b strings.Builder
	b.WriteString("#!/bin/bash\nif [ \"$1\" != run ] || [ \"$2\" != . ]; then echo \"unexpected command go $*\" >&2; exit 9; fi\nshift 2\ncase \"$PWD\" in\n")
	for _, p := range ps {
		fmt.Fprintf(&b, "%q) exec %q \"$@\" ;;\n", filepath.Join(p.dir, p.name), p.bin)
	}
	b.WriteString("*) echo \"no program in $PWD\" >&2; exit 9 ;;\nesac\n")
	writeFiles(dir, map[string]string{"go": b.String()})
	os.Chmod(filepath.Join(dir, "go"), 0755)
	return dir
}

// runLinux starts the application with the generated run.sh and .local.env.
func (x *compiled) runLinux(c *h.Case, d *dag, ps []*proc, cmds []cmd) (*outcome, error) {
	rs, _ := filepath.Glob(x.out + "/*/run.sh")
	if len(rs) != 1 {
		c.Failf("expected one run.sh, found %v", rs)
	}
	dir := filepath.Dir(rs[0])
	envb, err := os.ReadFile(filepath.Join(x.out, ".local.env"))
	if err != nil {
		c.Failf("no .local.env: %v", err)
	}
	vars := []string{"PATH=" + x.shim(ps) + ":" + os.Getenv("PATH")}
	values := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(string(envb)), "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "#") {
			k, v, ok := strings.Cut(l, "=")
			if !ok {
				c.Failf("bad line in .local.env: %q", l)
			}
			vars, values[k] = append(vars, l), v
		}
	}
	if _, err := os.Stat(dir + "/build.sh"); err == nil {
		b := exec.Command("bash", "build.sh")
		b.Dir, b.Env = dir, append(append([]string{}, x.e.vars...), vars...)
		if o, err := b.CombinedOutput(); err != nil {
			c.Failf("build.sh fails: %v\n%s", err, o)
		}
	}
	var wait []string
	for _, s := range d.svcs {
		if s.wire != "" {
			k := envVar(s.name + "." + s.wire + ".bind_addr")
			v, ok := values[k]
			if !ok {
				c.Failf(".local.env does not set %s:\n%s", k, envb)
			}
			wait = append(wait, strings.Replace(v, "0.0.0.0", "127.0.0.1", 1))
		}
	}
	p := &proc{name: "run.sh", bin: "/bin/bash", argv: []string{"run.sh"}, wd: dir, vars: vars, up: wait, ready: x.settle()}
	return x.runHold([]*proc{p}, "run.sh", cmds, nil, nil, time.Minute, func() {})
}

// envVar is the environment variable for a name, as documented: upper case, and _ for what is not a letter or digit.
func envVar(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, strings.ToUpper(s))
}

// runDocker starts the containers of the docker-compose file, as docker would, in directories instead of images, and
// with a loopback address for each container.
func (x *compiled) runDocker(c *h.Case, d *dag, ps []*proc, containers map[int][]int, name, cname func(int) string, cmds []cmd) (*outcome, error) {
	fs, _ := filepath.Glob(x.out + "/*/docker-compose.yml")
	if len(fs) != 1 {
		c.Failf("expected one docker-compose.yml, found %v", fs)
	}
	dir := filepath.Dir(fs[0])
	b, _ := os.ReadFile(fs[0])
	var y struct {
		Services map[string]struct {
			Build struct {
				Context    string
				Dockerfile string
			}
			Image       string
			Hostname    string
			Environment []string
		}
	}
	if err := yaml.Unmarshal(b, &y); err != nil {
		c.Failf("docker-compose.yml: %v\n%s", err, b)
	}
	net3 := fmt.Sprintf("127.%d.%d", 1+os.Getpid()%250, 1+int(time.Now().UnixNano()/1e6)%250)
	ip := map[string]string{}
	for n, s := range y.Services {
		ip[n] = fmt.Sprintf("%s.%d", net3, len(ip)+2)
		if s.Hostname != "" {
			ip[s.Hostname] = ip[n]
		}
	}
	by := map[string]*proc{}
	for _, p := range ps {
		by[p.name] = p
	}
	var starts []*proc
	var wait []string
	probeIn := ""
	for k, in := range containers {
		n := cname(k)
		s, ok := y.Services[n]
		if !ok {
			c.Failf("docker-compose.yml has no service %s:\n%s", n, b)
		}
		src := filepath.Join(dir, s.Build.Context)
		if _, err := os.Stat(filepath.Join(src, "Dockerfile")); err != nil {
			c.Failf("service %s is built from %q, which has no Dockerfile", n, s.Build.Context)
		}
		img := filepath.Join(x.e.dir, "app", "images", n)
		os.RemoveAll(img)
		for _, f := range []string{"run.sh", "build.sh"} {
			t, err := os.ReadFile(filepath.Join(src, f))
			if err != nil {
				c.Failf("container %s: %v", n, err)
			}
			writeFiles(img, map[string]string{f: string(t)})
		}
		vars := []string{}
		for _, e := range s.Environment {
			key, v, ok := strings.Cut(e, "=")
			if !ok {
				c.Failf("container %s: environment entry %q", n, e)
			}
			host, port, ok := strings.Cut(v, ":")
			if !ok {
				c.Failf("container %s: %s", n, e)
			}
			switch {
			case host == "0.0.0.0":
				host = ip[n]
				if strings.HasSuffix(key, "_BIND_ADDR") {
					wait = append(wait, host+":"+port)
				}
			case ip[host] != "":
				host = ip[host]
			default:
				c.Failf("container %s: %s names no container", n, e)
			}
			vars = append(vars, key+"="+host+":"+port)
		}
		for _, pn := range in {
			p := by[name(pn)]
			if p == nil {
				c.Failf("no process %s was generated", name(pn))
			}
			if rel, err := filepath.Rel(src, p.dir); err != nil || strings.HasPrefix(rel, "..") {
				c.Failf("process %s is not part of container %s", p.name, n)
			}
			os.MkdirAll(filepath.Join(img, p.name), 0755)
			os.Symlink(p.bin, filepath.Join(img, p.name, p.name))
			if pn == 0 {
				probeIn = n
			}
		}
		bld := exec.Command("sh", "./build.sh")
		bld.Dir = img
		if o, err := bld.CombinedOutput(); err != nil {
			c.Failf("build.sh of container %s fails: %v\n%s", n, err, o)
		}
		starts = append(starts, &proc{name: n, bin: "/bin/sh", argv: []string{"./run.sh"}, wd: img, vars: vars})
	}
	last := starts[len(starts)-1]
	last.up, last.ready = wait, x.settle()
	return x.runHold(starts, probeIn, cmds, nil, nil, time.Minute, func() {})
}
