package lab

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// rpcApp makes services deployed over HTTP or gRPC, grouped into processes, and a process with the probe that calls them.
type rpcApp struct {
	a      *app
	groups [][]*svc
	down   int // index of the process that is not started, or -1
	addrs  map[string]string
	retry  map[string]bool // services whose calls may be repeated
}

func genRPC(t *rapid.T, c *h.Case, wire wireKind, plugin string) *rpcApp {
	g := &gen{t: t, a: &app{wire: wire, extra: map[string]*iface{}, labels: map[string]string{}}, awkward: true, rich: wire == jsonW}
	a := g.a
	r := &rpcApp{a: a, down: -1, addrs: map[string]string{}, retry: map[string]bool{}}
	g.genTypes(intn(t, "ntypes", 2, 8))
	n := intn(t, "nsvc", 2, 7)
	for k := 0; k < n; k++ {
		var i *iface
		if k > 0 && flip(t, "share", 1, 5) {
			i = a.ifaces[intn(t, "which", 0, len(a.ifaces)-1)]
			c.Label("shared interface")
		} else {
			i = g.genIface(mod+"/svc", fmt.Sprintf("%s%d", pick(t, "iname", ifaceNames...), k), "call")
			a.ifaces = append(a.ifaces, i)
		}
		s := &svc{name: fmt.Sprintf("s%d", k), label: fmt.Sprintf("label%d", k), i: i}
		if flip(t, "mods", 1, 2) {
			var names []string
			s.mods, names = g.neutralMods(s.name, false)
			for _, x := range names {
				if x == "retries" {
					r.retry[s.name] = true
				}
				c.Label(x)
			}
		}
		if flip(t, "pool", 1, 3) {
			s.mods = append(s.mods, fmt.Sprintf(P+"clientpool».Create(spec, %q, %d)", s.name, intn(t, "poolsize", 1, 3)))
			c.Label("clientpool")
		}
		s.mods = append(s.mods, fmt.Sprintf(P+"%s».Deploy(spec, %q)", plugin, s.name))
		a.svcs = append(a.svcs, s)
		a.probed = append(a.probed, s.name)
	}
	np := intn(t, "nprocs", 1, 3)
	r.groups = make([][]*svc, np)
	for _, s := range a.svcs {
		k := intn(t, "proc", 0, np-1)
		r.groups[k] = append(r.groups[k], s)
	}
	var gs [][]*svc
	for _, x := range r.groups {
		if len(x) > 0 {
			gs = append(gs, x)
		}
	}
	r.groups = gs
	for k, x := range r.groups {
		var ns []string
		for _, s := range x {
			ns = append(ns, fmt.Sprintf("%q", s.name))
		}
		a.body = append(a.body, fmt.Sprintf(P+"goproc».CreateProcess(spec, \"proc%d\", %s)", k, strings.Join(ns, ", ")))
		a.rets = append(a.rets, fmt.Sprintf("proc%d", k))
	}
	a.body = append(a.body, P+"goproc».CreateProcess(spec, \"probeproc\", \"probe\")")
	a.rets = append(a.rets, "probeproc")
	if len(r.groups) > 1 && flip(t, "down", 1, 4) {
		r.down = intn(t, "which", 0, len(r.groups)-1)
		c.Label("unreachable server")
	}
	return r
}

func (r *rpcApp) isDown(s string) bool {
	if r.down < 0 {
		return false
	}
	for _, x := range r.groups[r.down] {
		if x.name == s {
			return true
		}
	}
	return false
}

func rpcTest(t *testing.T, wire wireKind, plugin string) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application whose services are deployed over " + plugin + " in several processes, compiled by Blueprint, built, run, and called over loopback with random arguments, one after another and concurrently; non-trivial if at least 10 calls returned values"}, func(t *rapid.T, c *h.Case) {
		r := genRPC(t, c, wire, plugin)
		a := r.a
		x := compileOrFail(c, a)
		cmds, o := runRPC(t, c, x, r, plugin)
		got := checkRemote(c, r, cmds, o)
		c.NonTrivial(got >= 10)
	})
}

// runRPC builds and starts the processes and calls every method.
func runRPC(t *rapid.T, c *h.Case, x *compiled, r *rpcApp, plugin string) ([]cmd, *outcome) {
	a := r.a
	ps := x.procs()
	if len(ps) != len(r.groups)+1 {
		c.Failf("%d processes were generated, expected %d", len(ps), len(r.groups)+1)
	}
	if err := x.buildAll(ps, false); err != nil {
		c.Failf("the generated code does not compile: %v", err)
	}
	by := map[string]*proc{}
	for _, p := range ps {
		by[p.name], p.args = p, map[string]string{}
	}
	var wait []string
	var start []*proc
	used := map[string]bool{}
	for k, grp := range r.groups {
		p := by[fmt.Sprintf("proc%d", k)]
		if p == nil || by["probeproc"] == nil {
			c.Failf("no process proc%d among %v", k, ps)
		}
		for _, s := range grp {
			addr := freeAddr()
			for used[addr] {
				addr = freeAddr()
			}
			used[addr] = true
			p.args[s.name+"."+plugin+".bind_addr"] = addr
			by["probeproc"].args[s.name+"."+plugin+".dial_addr"] = addr
			if k != r.down {
				wait = append(wait, addr)
			}
		}
		if k != r.down {
			start = append(start, p)
		}
	}
	start = append(start, by["probeproc"])
	cmds := plainCalls(a, intn(t, "seed", 1, 1<<30), 4)
	// some of the calls are made concurrently
	var run []cmd
	for k := 0; k < len(cmds); {
		n := 1
		if flip(t, "par", 1, 3) {
			n = intn(t, "npar", 2, 12)
		}
		if k+n > len(cmds) {
			n = len(cmds) - k
		}
		if n == 1 {
			run = append(run, cmds[k])
		} else {
			run = append(run, cmd{ID: 100000 + k, Par: cmds[k : k+n]})
		}
		k += n
	}
	o, err := x.run(start, "probeproc", run, wait, nil, 2*time.Minute)
	if err != nil {
		c.Failf("%v", err)
	}
	return cmds, o
}

// checkRemote compares every result with a direct call's.
func checkRemote(c *h.Case, r *rpcApp, cmds []cmd, o *outcome) int {
	invs := map[string]int{}
	for _, i := range o.invs {
		invs[i.Svc+"\x00"+i.Method+"\x00"+i.Args]++
	}
	expect := map[string]int{}
	slow := map[string]bool{}
	ok := 0
	for _, x := range cmds {
		res, has := o.results[x.ID]
		what := fmt.Sprintf("call %d %s.%s(%.300s)", x.ID, x.Svc, x.M, res.Args)
		if !has {
			c.Failf("%s: no result", what)
		}
		if res.Panic != "" {
			c.Failf("%s panicked: %s", what, res.Panic)
		}
		if res.ArgsAfter != res.Args {
			c.Failf("%s: arguments were changed to %.300s", what, res.ArgsAfter)
		}
		if r.isDown(x.Svc) {
			if res.Err == "" {
				c.Failf("%s returned %.300s although the server is not running", what, res.Rets)
			}
			continue
		}
		k := r.a.labelOf(x.Svc) + "\x00" + x.M + "\x00" + res.Args
		expect[k]++
		if res.WantErr == "" && res.Err != "" && r.a.wire == grpcW && res.End-res.Start > 9e8 {
			c.Label("client timeout") // the generated client gives up after 1s
			slow[k] = true
			continue
		}
		if (res.WantErr != "") != (res.Err != "") {
			c.Failf("%s: got error %q, the service's error is %q\n%s", what, res.Err, res.WantErr, o.output)
		}
		if res.Err == "" && res.Rets != res.Want {
			c.Failf("%s: returned %.600s, the service returned %.600s", what, res.Rets, res.Want)
		}
		if res.Err == "" {
			ok++
		} else if r.retry[x.Svc] {
			slow[k] = true
		}
	}
	for k, n := range expect {
		if invs[k] != n && !slow[k] {
			c.Failf("%d calls were made but the service was called %d times: %.500q", n, invs[k], k)
		}
	}
	for k, n := range invs {
		if expect[k] == 0 {
			c.Failf("a service was called %d times with arguments nobody passed: %.500q", n, k)
		}
	}
	return ok
}

func TestC15_HTTP(t *testing.T) { rpcTest(t, jsonW, "http") }

func TestC16_GRPC(t *testing.T) { rpcTest(t, grpcW, "grpc") }

// types that gRPC, or the plugin's conversion code, has no message type for
var noGRPC = []ty{"[][]int", "[][]«lab.test/wf/svc».Ok", "[][]byte", "[]map[string]int", "map[string][]string", "map[string]map[string]int", "«time».Time", "«time».Duration", "any", "interface{}",
	"«lab.test/wf/svc».Named", "«lab.test/wf/svc».NamedSlice", "*[]int", "*map[string]int", "[]*«lab.test/wf/svc».Ok", "map[string]*«lab.test/wf/svc».Ok", "complex128", "complex64", "uintptr", "[3]int", "[2]«lab.test/wf/svc».Ok", "map[float64]string",
	"map[«lab.test/wf/svc».Ok]string", "«lab.test/wf/svc».Emb", "«lab.test/wf/svc».Deep", "*«lab.test/wf/svc».Deep", "[]«lab.test/wf/svc».Deep", "map[string]«lab.test/wf/svc».Deep", "**int", "**«lab.test/wf/svc».Ok", "func()", "chan int", "struct{ X int }", "error"}

func TestC16_Reject(t *testing.T) {
	h.Check(t, h.Opts{Quick: 4, Thorough: 60, Hang: 10 * time.Minute, Rule: "a case is an application with a gRPC service one of whose methods has an argument or result of a type that gRPC cannot carry; non-trivial if the compiler rejected it"}, func(t *rapid.T, c *h.Case) {
		r := genRPC(t, c, grpcW, "grpc")
		r.down = -1
		a := r.a
		bad := pick(t, "bad", noGRPC...)
		inner := pick(t, "inner", "«time».Time", "[][]int", "any", "*[]int", "map[string][]int")
		sv := mod + "/svc"
		a.types = append(a.types,
			&typeDef{pkg: sv, name: "Ok", decl: "struct {\n\tX int\n}"},
			&typeDef{pkg: sv, name: "Named", decl: pick(t, "named", ty("int"), "string")},
			&typeDef{pkg: sv, name: "NamedSlice", decl: "[]string"},
			&typeDef{pkg: sv, name: "Emb", decl: "struct {\n\tOk\n\tY int\n}"},
			&typeDef{pkg: sv, name: "Deep", decl: ty("struct {\n\tA int\n\tB " + inner + "\n}")})
		i := a.ifaces[intn(t, "iface", 0, len(a.ifaces)-1)]
		m := i.methods[intn(t, "method", 0, len(i.methods)-1)]
		if flip(t, "arg", 1, 2) {
			m.args = append(m.args, arg{"badArg", bad})
		} else {
			m.rets = append(m.rets, bad)
		}
		c.Logf("unsupported type %s (Deep's field: %s)", bad, inner)
		a.describe(c.Logf)
		x, err := compile(a)
		if err != nil {
			if err.stage == "generated-input" {
				h.EnvError("the generated application is not valid Go: %s", err.text)
			}
			if strings.Contains(err.text, "panic: ") || strings.Contains(err.text, "goroutine ") {
				c.Failf("the Blueprint compiler panicked instead of reporting the unsupported type %s: %v", bad, err)
			}
			c.Label("rejected " + string(bad))
			c.NonTrivial(true)
			return
		}
		// whatever is accepted has to work
		cmds, o := runRPC(t, c, x, r, "grpc")
		checkRemote(c, r, cmds, o)
		c.Label("accepted " + string(bad))
	})
}
