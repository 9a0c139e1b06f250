package lab

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// modifiers that must not change what a call does
func (g *gen) neutralMods(s string, tracer bool) (mods []string, names []string) {
	type mod struct{ name, stmt string }
	q := fmt.Sprintf("%q", s)
	max := intn(g.t, "n", 1, 9)
	all := []mod{
		{"retries", pick(g.t, "retry",
			fmt.Sprintf(P+"retries».AddRetries(spec, %s, %d)", q, max),
			fmt.Sprintf(P+"retries».AddRetriesWithFixedDelay(spec, %s, %d, %q)", q, max, "1ms"),
			fmt.Sprintf(P+"retries».AddRetriesWithExponentialBackoff(spec, %s, %q, %q, %v)", q, "1ms", "4ms", max%2 == 0),
			fmt.Sprintf(P+"retries».AddRetriesRetryRateLimit(spec, %s, %d, 1000)", q, max),
			fmt.Sprintf(P+"retries».AddRetriesTokenBucket(spec, %s, 10.0, 2.5, 1.0)", q))},
		{"timeouts", fmt.Sprintf(P+"timeouts».Add(spec, %s, %q)", q, pick(g.t, "to", "30s", "1m", "0.5h"))},
		{"circuitbreaker", fmt.Sprintf(P+"circuitbreaker».AddCircuitBreaker(spec, %s, 100000, 0.9, %q)", q, "10s")},
		{"latency", fmt.Sprintf(P+"latency».AddFixed(spec, %s, %q)", q, pick(g.t, "lat", "1ms", "0s", "300us"))},
		{"failures", fmt.Sprintf(P+"faultinjector».AddProbabilisticFailures(spec, %s, 0)", q)},
		{"delay", fmt.Sprintf(P+"faultinjector».AddRandomDelay(spec, %s, %d)", q, intn(g.t, "rd", 0, 1))},
		{"healthchecker", fmt.Sprintf(P+"healthchecker».AddHealthCheckAPI(spec, %s)", q)},
	}
	if tracer {
		all = append(all, mod{"opentelemetry", fmt.Sprintf(P+"opentelemetry».%s(spec, %s, \"zipkin\")", pick(g.t, "inst", "Instrument", "InstrumentWithoutClientSpans"), q)})
	}
	perm := rapid.Permutation(all).Draw(g.t, "mods")
	for _, m := range perm[:intn(g.t, "nmods", 0, len(perm))] {
		mods = append(mods, m.stmt)
		names = append(names, m.name)
	}
	return
}

func compileOrFail(c *h.Case, a *app) *compiled {
	a.describe(c.Logf)
	x, err := compile(a)
	if err != nil {
		if err.stage == "generated-input" {
			h.EnvError("the generated application is not valid Go: %s", err.text)
		}
		c.Failf("the Blueprint compiler fails on a valid application: %v", err)
	}
	return x
}

func TestC14_InProcess(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 60, Hang: 10 * time.Minute, Rule: "a case is a generated application: several services of random interfaces behind random stacks of modifiers, compiled by Blueprint, built, run and called with random arguments; non-trivial if some service has two or more modifiers and some call returned values"}, func(t *rapid.T, c *h.Case) {
		g := &gen{t: t, a: &app{wire: inProc, extra: map[string]*iface{}, labels: map[string]string{}}, awkward: true, rich: true}
		a := g.a
		g.genTypes(intn(t, "ntypes", 2, 8))
		tracer := flip(t, "tracer", 1, 3)
		n := intn(t, "nsvc", 4, 12)
		maxMods := 0
		health := map[string]bool{}
		for k := 0; k < n; k++ {
			var i *iface
			if k > 0 && flip(t, "share", 1, 4) {
				i = a.ifaces[intn(t, "which", 0, len(a.ifaces)-1)]
				c.Label("shared interface")
			} else {
				i = g.genIface(mod+"/svc", fmt.Sprintf("%s%d", pick(t, "iname", ifaceNames...), k), "call")
				a.ifaces = append(a.ifaces, i)
			}
			copies := 1
			if flip(t, "lb", 1, 4) {
				copies = intn(t, "copies", 1, 4)
				c.Label("load balancer")
			}
			var group []string
			for r := 0; r < copies; r++ {
				s := &svc{name: fmt.Sprintf("s%d", k), label: fmt.Sprintf("label%d", k), i: i}
				if copies > 1 {
					s.name = fmt.Sprintf("s%d_%d", k, r)
				}
				var names []string
				s.mods, names = g.neutralMods(s.name, tracer)
				for _, x := range names {
					c.Label(x)
					if x == "healthchecker" {
						health[s.name] = true
					}
				}
				if len(names) > maxMods {
					maxMods = len(names)
				}
				a.svcs = append(a.svcs, s)
				a.probed = append(a.probed, s.name)
				group = append(group, fmt.Sprintf("%q", s.name))
			}
			if copies > 1 {
				n := i.impl
				if i.viaIface {
					n = i.name
				}
				a.body = append(a.body, fmt.Sprintf(P+"loadbalancer».CreateLoadBalancer[«%s».%s](spec, \"s%d\", []string{%s})", i.pkg, n, k, strings.Join(group, ", ")))
				lb := fmt.Sprintf("s%d_lb", k)
				a.extra[lb] = i
				a.labels[lb] = fmt.Sprintf("label%d", k)
				a.probed = append(a.probed, lb)
			}
		}
		if tracer {
			a.svcs[0].mods = append([]string{P + "zipkin».Collector(spec, \"zipkin\")"}, a.svcs[0].mods...)
		}
		a.rets = []string{"probe"}
		if tracer || flip(t, "proc", 1, 2) {
			a.body = append(a.body, P+"goproc».CreateProcess(spec, \"proc\", \"probe\")")
			a.rets = []string{"proc"}
		}
		x := compileOrFail(c, a)
		ps := x.procs()
		if len(ps) != 1 {
			c.Failf("%d processes were generated, expected one", len(ps))
		}
		if err := x.buildAll(ps, false); err != nil {
			c.Failf("the generated code does not compile: %v", err)
		}
		if tracer {
			ps[0].args = map[string]string{"zipkin.dial_addr": "127.0.0.1:1"}
		}
		cmds := plainCalls(a, intn(t, "seed", 1, 1<<30), 4)
		for n := range health {
			cmds = append(cmds, cmd{ID: len(cmds) + 1, Svc: n, M: "Health", Lit: []json.RawMessage{}})
		}
		o, err := x.run(ps, ps[0].name, cmds, nil, nil, time.Minute)
		if err != nil {
			c.Failf("%v", err)
		}
		got := checkPlain(c, a, cmds, o, true)
		c.NonTrivial(maxMods >= 2 && got > 0)
	})
}

// plainCalls makes per commands for each method of each probed service.
func plainCalls(a *app, seed, per int) []cmd {
	var out []cmd
	id := 0
	for r := 0; r < per; r++ {
		for _, n := range a.probed {
			for _, m := range a.ifaceOf(n).methods {
				id++
				out = append(out, cmd{ID: id, Svc: n, M: m.name, Seed: int64(seed)*1000 + int64(id)})
			}
		}
	}
	return out
}

// checkPlain compares every result with a direct call's. exactErr: the error text must survive, and a failing call may
// have been attempted more than once (retries). Returns the number of calls that returned values.
func checkPlain(c *h.Case, a *app, cmds []cmd, o *outcome, sameProcess bool) int {
	invs := map[string]int{}
	for _, i := range o.invs {
		invs[i.Svc+"\x00"+i.Method+"\x00"+i.Args]++
	}
	expect := map[string]int{}
	ok := 0
	for _, x := range cmds {
		r, has := o.results[x.ID]
		what := fmt.Sprintf("call %d %s.%s(%.300s)", x.ID, x.Svc, x.M, r.Args)
		if !has {
			c.Failf("%s: no result", what)
		}
		if r.Panic != "" {
			c.Failf("%s panicked: %s", what, r.Panic)
		}
		if r.ArgsAfter != r.Args {
			c.Failf("%s: arguments were changed to %.300s", what, r.ArgsAfter)
		}
		if (r.WantErr != "") != (r.Err != "") {
			c.Failf("%s: got error %q, the service's error is %q\n%s", what, r.Err, r.WantErr, o.output)
		}
		if sameProcess && r.WantErr != r.Err {
			c.Failf("%s: got error %q, the service's error is %q", what, r.Err, r.WantErr)
		}
		if r.Err == "" && r.Rets != r.Want && x.Lit == nil {
			c.Failf("%s: returned %.600s, the service returned %.600s", what, r.Rets, r.Want)
		}
		if r.Err == "" {
			ok++
		}
		if x.M == "Health" && x.Lit != nil {
			if r.Rets != `"Healthy"` {
				c.Failf("%s: got %s %q, expected Healthy", what, r.Rets, r.Err)
			}
			continue
		}
		k := a.labelOf(x.Svc) + "\x00" + x.M + "\x00" + r.Args
		expect[k]++
		if r.Err == "" && invs[k] < 1 {
			c.Failf("%s: the service was not called with these arguments", what)
		}
		if r.Err == "" && invs[k] > expect[k] && sameCount(a, cmds, o, x) < invs[k] {
			c.Failf("%s: the service was called %d times", what, invs[k])
		}
	}
	for k, n := range invs {
		if expect[k] == 0 {
			c.Failf("a service was called %d times with arguments nobody passed: %.500q", n, k)
		}
	}
	return ok
}

// sameCount counts the commands that are the same call as x.
func sameCount(a *app, cmds []cmd, o *outcome, x cmd) int {
	n := 0
	for _, y := range cmds {
		if a.labelOf(y.Svc) == a.labelOf(x.Svc) && y.M == x.M && o.results[y.ID].Args == o.results[x.ID].Args {
			n++
		}
	}
	return n
}
