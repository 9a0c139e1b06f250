package lab

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- applications of scripted services

// planApp is an application of services whose methods do what their argument, a plan, says.
type planApp struct {
	t       *rapid.T
	c       *h.Case
	g       *gen
	a       *app
	remote  map[string]bool // services deployed over HTTP, in a process of their own
	cmds    []cmd
	byID    map[int]cmd
	plans   int
	anyCall bool // the service a call reaches is not known beforehand
}

func newPlanApp(t *rapid.T, c *h.Case) *planApp {
	p := &planApp{t: t, c: c, remote: map[string]bool{}, byID: map[int]cmd{}}
	p.g = &gen{t: t, a: &app{wire: inProc, extra: map[string]*iface{}, labels: map[string]string{}}}
	p.a = p.g.a
	for n := intn(t, "nifaces", 1, 2); n > 0; n-- {
		i := &iface{pkg: mod + "/svc", name: fmt.Sprintf("%s%d", pick(t, "iname", ifaceNames...), n), viaIface: flip(t, "via", 2, 3)}
		i.impl = i.name + "Impl"
		for k, rets := range [][]ty{{"string", "int64"}, {"string"}, {}} {
			i.methods = append(i.methods, &method{name: []string{"Do", "Get", "Fire"}[k], kind: "plan", args: []arg{{pick(t, "aname", "plan", "client", "i", "err1", "val", "delay"), "string"}}, rets: rets})
		}
		p.a.ifaces = append(p.a.ifaces, i)
	}
	return p
}

func (p *planApp) iface() *iface {
	return p.a.ifaces[intn(p.t, "iface", 0, len(p.a.ifaces)-1)]
}

// service adds a service with the given modifiers.
func (p *planApp) service(name string, i *iface, mods ...string) *svc {
	s := &svc{name: name, label: "label_" + name, i: i, mods: mods}
	p.a.svcs = append(p.a.svcs, s)
	p.a.probed = append(p.a.probed, name)
	return s
}

// mod renders a call to a plugin's modifier function.
func mod1(fn, service string, args ...any) string {
	plugin, name, _ := strings.Cut(fn, ".")
	s := fmt.Sprintf(P+"%s».%s(spec, %q", plugin, name, service)
	for _, x := range args {
		s += fmt.Sprintf(", %#v", x)
	}
	return s + ")"
}

// expose puts the service behind HTTP, in another process.
func (p *planApp) expose(s *svc) {
	s.mods = append(s.mods, mod1("http.Deploy", s.name))
	p.remote[s.name] = true
	p.c.Label("behind HTTP")
}

func (p *planApp) method() string { return pick(p.t, "method", "Do", "Get", "Fire") }

// call makes a command; the plan's id makes its invocations recognisable.
func (p *planApp) call(svc, m, steps string) cmd {
	p.plans++
	plan := fmt.Sprintf("p%d|%s", p.plans, steps)
	b, _ := json.Marshal(plan)
	x := cmd{ID: p.plans, Svc: svc, M: m, Lit: []json.RawMessage{b}}
	return x
}

func (p *planApp) add(xs ...cmd) {
	for _, x := range xs {
		p.byID[x.ID] = x
	}
	if len(xs) == 1 {
		p.cmds = append(p.cmds, xs[0])
		return
	}
	p.cmds = append(p.cmds, cmd{ID: 1000000 + xs[0].ID, Par: xs})
}

func (p *planApp) plan(x cmd) string {
	var s string
	json.Unmarshal(x.Lit[0], &s)
	return s
}

// build compiles and builds the application.
func (p *planApp) build() (*compiled, []*proc) {
	a := p.a
	var remote []string
	for _, s := range a.svcs {
		if p.remote[s.name] {
			remote = append(remote, fmt.Sprintf(", %q", s.name))
		}
	}
	if len(remote) > 0 {
		a.body = append(a.body, fmt.Sprintf(P+"goproc».CreateProcess(spec, \"remoteproc\"%s)", strings.Join(remote, "")))
		a.rets = append(a.rets, "remoteproc")
		a.body = append(a.body, P+"goproc».CreateProcess(spec, \"probeproc\", \"probe\")")
		a.rets = append(a.rets, "probeproc")
	} else {
		a.rets = append(a.rets, "probe")
	}
	x := compileOrFail(p.c, a)
	ps := x.procs()
	if want := 1 + len(remote)/max(1, len(remote)); len(ps) != want {
		p.c.Failf("%d processes were generated, expected %d", len(ps), want)
	}
	if err := x.buildAll(ps, false); err != nil {
		p.c.Failf("the generated code does not compile: %v", err)
	}
	return x, ps
}

// run starts the application and runs the commands. Checks that concern time may fail because the machine is busy:
// check returns them, and only what fails in three runs in a row fails the case.
func (p *planApp) run(check func(o *planOutcome) (timing []string)) {
	x, ps := p.build()
	for attempt := 1; ; attempt++ {
		var wait []string
		by := map[string]*proc{}
		for _, q := range ps {
			q.args = map[string]string{}
			by[q.name] = q
		}
		probe := ps[0]
		if q := by["probeproc"]; q != nil {
			probe = q
			for s := range p.remote {
				addr := freeAddr()
				by["remoteproc"].args[s+".http.bind_addr"] = addr
				q.args[s+".http.dial_addr"] = addr
				wait = append(wait, addr)
			}
			ps = []*proc{by["remoteproc"], q}
		}
		o, err := x.run(ps, probe.name, p.cmds, wait, nil, 2*time.Minute)
		if err != nil {
			p.c.Failf("%v", err)
		}
		po := &planOutcome{p: p, outcome: o, invs: map[string][]inv{}}
		known := map[string]bool{}
		for id := range p.byID {
			known[po.key(p.byID[id])] = true
		}
		for _, i := range o.invs {
			k := i.Svc + "\x00" + i.Method + "\x00" + i.Args
			if !known[k] && !p.anyCall {
				p.c.Failf("%s.%s was called with arguments nobody passed: %s", i.Svc, i.Method, i.Args)
			}
			po.invs[k] = append(po.invs[k], i)
		}
		for _, is := range po.invs {
			sort.SliceStable(is, func(i, j int) bool { return is[i].Start < is[j].Start })
		}
		for id, y := range p.byID {
			r, ok := o.results[id]
			if !ok {
				p.c.Failf("no result of %s", po.what(y))
			}
			if r.Panic != "" {
				p.c.Failf("%s panicked: %s", po.what(y), r.Panic)
			}
		}
		timing := check(po)
		if len(timing) == 0 {
			return
		}
		p.c.Label("repeated for timing")
		if attempt == 3 {
			p.c.Failf("%s", strings.Join(timing, "\n"))
		}
	}
}

type planOutcome struct {
	*outcome
	p    *planApp
	invs map[string][]inv
}

func (o *planOutcome) key(x cmd) string {
	return o.p.a.labelOf(x.Svc) + "\x00" + x.M + "\x00" + fmt.Sprintf("%q", o.p.plan(x))
}

func (o *planOutcome) what(x cmd) string {
	return fmt.Sprintf("call %d %s.%s(%q)", x.ID, x.Svc, x.M, o.p.plan(x))
}

// value is what the service returns in attempt n (from 0) of a plan.
func (o *planOutcome) value(x cmd, n int) string {
	l := o.p.a.labelOf(x.Svc)
	s := fmt.Sprintf("%q", fmt.Sprintf("%s/%s/%d/%d", l, o.p.plan(x), n, 0))
	switch x.M {
	case "Do":
		return s + ", " + strconv.Itoa(n*10+1)
	case "Get":
		return s
	}
	return ""
}

// expectOK fails unless the call returned the results of attempt n.
func (o *planOutcome) expectOK(x cmd, n int) {
	r := o.results[x.ID]
	if r.Err != "" {
		o.p.c.Failf("%s returned error %q, the service succeeded in attempt %d", o.what(x), r.Err, n+1)
	}
	if r.Rets != o.value(x, n) {
		o.p.c.Failf("%s returned %s, the service returned %s in attempt %d", o.what(x), r.Rets, o.value(x, n), n+1)
	}
}

// expectErr fails unless the call returned an error, containing text.
func (o *planOutcome) expectErr(x cmd, text string) {
	r := o.results[x.ID]
	if r.Err == "" {
		o.p.c.Failf("%s returned %s, expected an error (%s)", o.what(x), r.Rets, text)
	}
	if text != "" && !o.p.remote[x.Svc] && !strings.Contains(r.Err, text) {
		o.p.c.Failf("%s returned error %q, expected %q", o.what(x), r.Err, text)
	}
}

func ms(n int) string { return strconv.Itoa(n) + "ms" }

// ---------------------------------------------------------------- C17

// retrier is a retry configuration and what it means.
type retrier struct {
	kind     string
	mod      string
	max      int             // attempts of a call that always fails
	delays   []time.Duration // least time between attempts
	jitter   bool
	timeout  int     // ms, each attempt; 0 = none
	rate     float64 // retries per second
	cap      float64
	cost     float64
	amount   float64
	attempts int
}

func genRetrier(t *rapid.T, s string) *retrier {
	r := &retrier{kind: pick(t, "kind", "plain", "plain", "timeouts", "fixed", "fixed", "backoff", "backoff", "rate", "bucket")}
	r.max = intn(t, "max", 1, 6)
	switch r.kind {
	case "plain":
		r.mod = mod1("retries.AddRetries", s, r.max)
	case "timeouts":
		r.timeout = intn(t, "timeout", 3, 6) * 100
		r.max = intn(t, "max2", 1, 3)
		r.mod = mod1("retries.AddRetriesWithTimeouts", s, r.max, ms(r.timeout))
	case "fixed":
		d := intn(t, "delay", 0, 120)
		if flip(t, "long", 1, 3) {
			d = 250
			r.max = min(r.max, 3)
		}
		r.mod = mod1("retries.AddRetriesWithFixedDelay", s, r.max, ms(d))
		for k := 1; k < r.max; k++ {
			r.delays = append(r.delays, time.Duration(d)*time.Millisecond)
		}
	case "backoff":
		d, l := intn(t, "start", 1, 60), intn(t, "limit", 1, 400)
		r.jitter = flip(t, "jitter", 1, 2)
		r.mod = mod1("retries.AddRetriesWithExponentialBackoff", s, ms(d), ms(l), r.jitter)
		for r.max = 1; d < l; r.max++ {
			r.delays = append(r.delays, time.Duration(d)*time.Millisecond)
			d *= 2
		}
	case "rate":
		r.rate = float64(intn(t, "rate", 1, 20))
		if flip(t, "unlimited", 1, 5) {
			r.rate = 0
		}
		r.max = intn(t, "max3", 1, 4)
		r.mod = mod1("retries.AddRetriesRetryRateLimit", s, r.max, int(r.rate))
	case "bucket":
		r.max = 2
		r.cap, r.cost, r.amount = float64(intn(t, "cap", 1, 12))+0.5, float64(intn(t, "cost", 1, 4)), float64(intn(t, "amount", 0, 8))/2
		r.mod = fmt.Sprintf(P+"retries».AddRetriesTokenBucket(spec, %q, %.1f, %.1f, %.1f)", s, r.cap, r.cost, r.amount)
	}
	return r
}

func TestC17_Retries(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application of services with different retry configurations, most sharing an interface, called with scripted sequences of failures, one after another and concurrently; non-trivial if some calls succeeded after failures and some failed for good"}, func(t *rapid.T, c *h.Case) {
		p := newPlanApp(t, c)
		rs := map[string]*retrier{}
		for k := intn(t, "nsvc", 2, 8); k > 0; k-- {
			n := fmt.Sprintf("s%d", k)
			r := genRetrier(t, n)
			c.Label(r.kind)
			s := p.service(n, p.iface(), r.mod)
			rs[n] = r
			if r.kind == "plain" && flip(t, "stack", 1, 4) {
				m := intn(t, "max", 1, 3)
				s.mods = append(s.mods, mod1("retries.AddRetriesWithFixedDelay", n, m, "1ms"))
				r.max *= m
				c.Label("stacked retries")
			}
			if r.kind != "timeouts" && flip(t, "http", 1, 4) {
				p.expose(s)
			}
		}
		order := map[string][]cmd{} // of the calls to token bucket services
		var par []cmd
		for _, s := range p.a.svcs {
			r := rs[s.name]
			n := intn(t, "ncalls", 3, 8)
			if r.kind == "bucket" {
				n *= 3
			}
			for ; n > 0; n-- {
				fails := intn(t, "fails", 0, r.max+1)
				var steps []string
				for k := 0; k < fails; k++ {
					if r.timeout > 0 && flip(t, "slow", 1, 3) {
						steps = append(steps, fmt.Sprintf("sleep=%d", r.timeout+1500))
					} else {
						steps = append(steps, "fail")
					}
				}
				last := "ok"
				if flip(t, "forever", 1, 4) {
					last = "fail"
				}
				x := p.call(s.name, p.method(), strings.Join(append(steps, last), ";"))
				if r.kind == "bucket" && !flip(t, "par", 1, 4) {
					p.add(x)
					order[s.name] = append(order[s.name], x)
				} else {
					par = append(par, x)
				}
			}
		}
		sort.Slice(par, func(i, j int) bool { return (par[i].ID*7919)%1009 < (par[j].ID*7919)%1009 })
		for len(par) > 0 {
			n := min(len(par), intn(t, "group", 1, 40))
			p.add(par[:n]...)
			par = par[n:]
		}
		saved, lost := 0, 0
		p.run(func(o *planOutcome) (timing []string) {
			saved, lost = 0, 0
			retries := map[string][]inv{}
			for _, x := range p.byID {
				r := rs[x.Svc]
				is := o.invs[o.key(x)]
				steps := strings.Split(p.plan(x)[strings.Index(p.plan(x), "|")+1:], ";")
				max := r.max
				if r.kind == "bucket" { // decided below
					if len(is) < 1 || len(is) > 2 {
						c.Failf("%s: %d attempts with a token bucket, which allows one retry", o.what(x), len(is))
					}
					max = len(is)
				}
				ok := -1
				for k := 0; k < max && ok < 0; k++ {
					if steps[min(k, len(steps)-1)] == "ok" {
						ok = k
					}
				}
				want := max
				if ok >= 0 {
					want = ok + 1
				}
				if len(is) != want && r.timeout > 0 {
					timing = append(timing, fmt.Sprintf("%s: the service was called %d times, expected %d (%s, at most %d tries)", o.what(x), len(is), want, r.kind, r.max))
					continue
				}
				if len(is) != want {
					c.Failf("%s: the service was called %d times, expected %d (%s, at most %d tries)", o.what(x), len(is), want, r.kind, r.max)
				}
				if ok >= 0 {
					if r.timeout > 0 && o.results[x.ID].Err != "" {
						timing = append(timing, fmt.Sprintf("%s: returned %q although attempt %d succeeded", o.what(x), o.results[x.ID].Err, ok+1))
						continue
					}
					o.expectOK(x, ok)
					if ok > 0 {
						saved++
					}
				} else {
					text := fmt.Sprintf("planned failure %d", want-1)
					if r.timeout > 0 {
						text = ""
					}
					o.expectErr(x, text)
					lost++
				}
				for k := 1; k < len(is) && k-1 < len(r.delays); k++ {
					d := r.delays[k-1]
					if r.jitter {
						d /= 2
					}
					if gap := time.Duration(is[k].Start - is[k-1].Start); gap < d-time.Millisecond {
						c.Failf("%s: attempt %d began %v after the one before, the delay is %v (%s)", o.what(x), k+1, gap, d, r.mod)
					}
				}
				if len(is) > 1 {
					retries[x.Svc] = append(retries[x.Svc], is[1:]...)
				}
			}
			for s, is := range retries {
				r := rs[s]
				if r.kind != "rate" || r.rate == 0 {
					continue
				}
				sort.Slice(is, func(i, j int) bool { return is[i].Start < is[j].Start })
				for a := range is {
					for b := a; b < len(is); b++ {
						span := float64(is[b].Start-is[a].Start)/1e9 + 0.02
						if n := float64(b - a + 1); n > r.rate+r.rate*span+1 {
							timing = append(timing, fmt.Sprintf("service %s was retried %v times in %.3fs, the limit is %v per second", s, n, span, r.rate))
						}
					}
				}
			}
			for s, xs := range order {
				r := rs[s]
				// calls made at the same time as these may have used up or returned tokens
				if len(xs) != countCalls(p, s) {
					continue
				}
				tokens := r.cap
				for _, x := range xs {
					is := o.invs[o.key(x)]
					steps := strings.Split(p.plan(x)[strings.Index(p.plan(x), "|")+1:], ";")
					if steps[0] == "ok" {
						continue
					}
					if tokens-r.cost < 1 {
						if len(is) != 1 {
							c.Failf("%s was retried although the bucket has %v tokens and a retry costs %v", o.what(x), tokens, r.cost)
						}
						continue
					}
					if len(is) != 2 {
						c.Failf("%s was not retried although the bucket has %v tokens and a retry costs %v", o.what(x), tokens, r.cost)
					}
					tokens -= r.cost
					if steps[min(1, len(steps)-1)] == "ok" {
						tokens = min(tokens+r.amount, r.cap)
					}
				}
				c.Label("token bucket modelled")
			}
			return
		})
		c.NonTrivial(saved > 0 && lost > 0)
	})
}

func countCalls(p *planApp, s string) int {
	n := 0
	for _, x := range p.byID {
		if x.Svc == s {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- C18

func TestC18_Timeouts(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application of services with different timeouts, most sharing an interface, called with scripted durations around them, one after another and concurrently; non-trivial if some calls were timed out and some returned values"}, func(t *rapid.T, c *h.Case) {
		p := newPlanApp(t, c)
		to := map[string]int{}
		for k := intn(t, "nsvc", 2, 6); k > 0; k-- {
			n := fmt.Sprintf("s%d", k)
			d := intn(t, "timeout", 1, 12) * 50
			str := ms(d)
			switch intn(t, "unit", 0, 2) {
			case 0:
				str = fmt.Sprintf("%.3fs", float64(d)/1000)
			case 1:
				str = fmt.Sprintf("%dus", d*1000)
			}
			s := p.service(n, p.iface(), mod1("timeouts.Add", n, str))
			to[n] = d
			if flip(t, "http", 1, 4) {
				p.expose(s)
			}
		}
		var par []cmd
		for _, s := range p.a.svcs {
			for n := intn(t, "ncalls", 4, 12); n > 0; n-- {
				d := to[s.name]
				lim := 0
				if flip(t, "limit", 1, 4) {
					lim = intn(t, "lim", 1, 12) * 50
				}
				eff := d
				if lim > 0 && lim < d {
					eff = lim
				}
				k := pick(t, "what", "ok", "ok", "fail", "sleep", "short", "shortfail", "sleepfail", "never", "ctx")
				steps := k
				switch k {
				case "sleep", "sleepfail":
					steps = fmt.Sprintf("%s=%d", k, eff+2500)
				case "short":
					steps = fmt.Sprintf("sleep=%d", eff/10)
				case "shortfail":
					steps = fmt.Sprintf("sleepfail=%d", eff/10)
				case "never":
					steps = "sleep=1000000"
				case "ctx":
					steps = "ctx=100000"
				}
				x := p.call(s.name, p.method(), steps)
				x.Limit = lim
				if flip(t, "val", 1, 2) {
					x.Val = fmt.Sprintf("value of %d", x.ID)
				}
				if strings.HasPrefix(steps, "sleep=1") || k == "sleep" || k == "ctx" || flip(t, "par", 1, 2) {
					par = append(par, x)
				} else {
					p.add(x)
				}
			}
		}
		sort.Slice(par, func(i, j int) bool { return (par[i].ID*7919)%1009 < (par[j].ID*7919)%1009 })
		for len(par) > 0 {
			n := min(len(par), intn(t, "group", 8, 40))
			p.add(par[:n]...)
			par = par[n:]
		}
		late, good := 0, 0
		p.run(func(o *planOutcome) (timing []string) {
			late, good = 0, 0
			for _, x := range p.byID {
				d := to[x.Svc]
				if x.Limit > 0 && x.Limit < d {
					d = x.Limit
				}
				r := o.results[x.ID]
				steps := p.plan(x)[strings.Index(p.plan(x), "|")+1:]
				took := time.Duration(r.End - r.Start)
				eff := time.Duration(d) * time.Millisecond
				what := fmt.Sprintf("%s with timeout %v and caller's limit %dms", o.what(x), time.Duration(to[x.Svc])*time.Millisecond, x.Limit)
				is := o.invs[o.key(x)]
				if len(is) > 1 {
					c.Failf("%s: the service was called %d times", what, len(is))
				}
				for _, i := range is {
					if p.remote[x.Svc] {
						continue
					}
					if i.Deadline == -1 {
						c.Failf("%s: the service's context has no deadline", what)
					}
					if time.Duration(i.Deadline) > eff {
						c.Failf("%s: the service's context has a deadline in %v", what, time.Duration(i.Deadline))
					}
					if i.Val != x.Val {
						c.Failf("%s: the service's context carries value %q, the caller's has %q", what, i.Val, x.Val)
					}
				}
				slow := false
				if k, v, _ := strings.Cut(steps, "="); v != "" {
					n, _ := strconv.Atoi(v)
					slow = n > d || k == "ctx"
				}
				if slow {
					if r.Err == "" {
						c.Failf("%s returned %s after %v, expected an error", what, r.Rets, took)
					}
					late++
					if took < eff-5*time.Millisecond {
						c.Failf("%s returned error %q already after %v", what, r.Err, took)
					}
					if took > eff+1500*time.Millisecond {
						timing = append(timing, fmt.Sprintf("%s returned after %v", what, took))
					}
					continue
				}
				if took >= eff-5*time.Millisecond {
					// the machine was too slow, or the call waited for its timeout
					if r.Err != "" {
						timing = append(timing, fmt.Sprintf("%s took %v: %s", what, took, r.Err))
						continue
					}
				}
				if strings.Contains(steps, "fail") {
					o.expectErr(x, "planned failure 0")
				} else {
					o.expectOK(x, 0)
					good++
				}
			}
			return
		})
		c.NonTrivial(late > 0 && good > 0)
	})
}

// ---------------------------------------------------------------- C20

func TestC20_LoadBalancers(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application with replicated services behind load balancers, called one after another and concurrently with calls some of which fail; non-trivial if some group has at least two replicas and got more calls than it has replicas"}, func(t *rapid.T, c *h.Case) {
		p := newPlanApp(t, c)
		type group struct {
			lb  string
			n   int
			own []string // labels, when every replica has its own
		}
		var gs []*group
		for k := intn(t, "ngroups", 1, 4); k > 0; k-- {
			i := p.iface()
			g := &group{n: intn(t, "replicas", 1, 6)}
			name := fmt.Sprintf("g%d", k)
			g.lb = name + "_lb"
			if flip(t, "replicate", 1, 2) {
				c.Label("Replicate")
				n := i.impl
				if i.viaIface {
					n = i.name
				}
				p.a.svcs = append(p.a.svcs, &svc{skipDef: true, mods: []string{fmt.Sprintf(P+"replication».Replicate[«%s».%s](spec, %q, %d, %q)", i.pkg, n, name, g.n, "label_"+name)}})
				for r := 0; r < g.n; r++ {
					rn := fmt.Sprintf("%s_%d", name, r)
					s := &svc{name: rn, label: "label_" + name, i: i, skipDef: true}
					if flip(t, "http", 1, 5) {
						p.expose(s)
					}
					p.a.svcs = append(p.a.svcs, s)
				}
				p.a.labels[g.lb] = "label_" + name
			} else {
				c.Label("CreateLoadBalancer")
				var names []string
				for r := 0; r < g.n; r++ {
					s := &svc{name: fmt.Sprintf("r%d_%d", k, r), label: fmt.Sprintf("label_%d_%d", k, r), i: i}
					if flip(t, "mod", 1, 4) {
						s.mods = append(s.mods, mod1("latency.AddFixed", s.name, ms(intn(t, "ms", 0, 3))))
					}
					if flip(t, "http", 1, 5) {
						p.expose(s)
					}
					p.a.svcs = append(p.a.svcs, s)
					names = append(names, fmt.Sprintf("%q", s.name))
					g.own = append(g.own, s.label)
				}
				n := i.impl
				if i.viaIface {
					n = i.name
				}
				p.a.body = append(p.a.body, fmt.Sprintf(P+"loadbalancer».CreateLoadBalancer[«%s».%s](spec, %q, []string{%s})", i.pkg, n, name, strings.Join(names, ", ")))
			}
			p.a.extra[g.lb] = i
			p.a.probed = append(p.a.probed, g.lb)
			gs = append(gs, g)
		}
		// calls, in groups that run at the same time
		for k := intn(t, "rounds", 2, 12); k > 0; k-- {
			var xs []cmd
			for n := pick(t, "size", 1, 1, 2, 5, 30); n > 0; n-- {
				g := gs[intn(t, "g", 0, len(gs)-1)]
				xs = append(xs, p.call(g.lb, p.method(), pick(t, "plan", "ok", "ok", "fail", "sleep=2", "sleepfail=3")))
			}
			p.add(xs...)
		}
		busy := false
		p.runLB(func(o *planOutcome, invs []inv) {
			plans := map[string]cmd{}
			for _, x := range p.byID {
				plans[fmt.Sprintf("%q", p.plan(x))] = x
			}
			of := map[int][]inv{}
			for _, i := range invs {
				x, ok := plans[i.Args]
				if !ok || x.M != i.Method {
					c.Failf("%s.%s was called with arguments nobody passed: %s", i.Svc, i.Method, i.Args)
				}
				of[x.ID] = append(of[x.ID], i)
			}
			counts := map[string]map[string]int{}
			for _, g := range gs {
				counts[g.lb] = map[string]int{}
			}
			check := func(when string) {
				for _, g := range gs {
					total, lo, hi := 0, 1<<30, 0
					for _, n := range counts[g.lb] {
						total += n
						lo, hi = min(lo, n), max(hi, n)
					}
					if len(counts[g.lb]) > g.n {
						c.Failf("%s has %d replicas, expected %d", g.lb, len(counts[g.lb]), g.n)
					}
					if len(counts[g.lb]) < g.n {
						lo = 0
					}
					if hi > lo+1 {
						c.Failf("%s: after %d calls (%s) its %d replicas got %v", g.lb, total, when, g.n, counts[g.lb])
					}
					if g.n > 1 && total > g.n {
						busy = true
					}
				}
			}
			take := func(x cmd) {
				is := of[x.ID]
				if len(is) != 1 {
					c.Failf("%s was delivered to %d replicas", o.what(x), len(is))
				}
				i := is[0]
				inst := fmt.Sprintf("%s@%d/%s", i.Svc, i.Pid, i.Inst)
				for _, g := range gs {
					if g.lb != x.Svc {
						continue
					}
					if g.own == nil && i.Svc != p.a.labels[g.lb] || g.own != nil && idx(g.own, i.Svc) < 0 {
						c.Failf("%s was delivered to %s, which is not one of its replicas", o.what(x), inst)
					}
					counts[g.lb][inst]++
				}
				r := o.results[x.ID]
				if strings.Contains(p.plan(x), "fail") {
					if r.Err == "" {
						c.Failf("%s returned %s, the replica failed", o.what(x), r.Rets)
					}
				} else {
					p.a.labels[x.Svc] = i.Svc
					o.expectOK(x, 0)
				}
			}
			for k, x := range p.cmds {
				if x.Par == nil {
					take(x)
				}
				for _, y := range x.Par {
					take(y)
				}
				check(fmt.Sprintf("step %d of %d", k+1, len(p.cmds)))
			}
		})
		c.NonTrivial(busy)
	})
}

// runLB is run for applications where the service a call reaches is not known beforehand.
func (p *planApp) runLB(check func(o *planOutcome, invs []inv)) {
	p.anyCall = true
	p.run(func(o *planOutcome) []string {
		check(o, o.outcome.invs)
		return nil
	})
}

// ---------------------------------------------------------------- C21

func TestC21_Injection(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application of services with different injected latencies, failure probabilities and random delays, most sharing an interface, called concurrently; non-trivial if some service has an injected latency or failure and some calls returned values"}, func(t *rapid.T, c *h.Case) {
		p := newPlanApp(t, c)
		type conf struct{ lat, prob, delay int }
		cs := map[string]conf{}
		for k := intn(t, "nsvc", 2, 8); k > 0; k-- {
			n := fmt.Sprintf("s%d", k)
			x := conf{prob: -1, delay: -1}
			var mods []string
			if flip(t, "lat", 1, 2) {
				x.lat = intn(t, "lat", 0, 12) * 20
				mods = append(mods, mod1("latency.AddFixed", n, pick(t, "unit", ms(x.lat), fmt.Sprintf("%dus", x.lat*1000), fmt.Sprintf("%.2fs", float64(x.lat)/1000))))
				c.Label("latency")
			} else if flip(t, "prob", 2, 3) {
				x.prob = pick(t, "prob", 0, 100, 100, 50, 30, 75, 5, 95, 1, 99)
				mods = append(mods, mod1("faultinjector.AddProbabilisticFailures", n, x.prob))
				c.Label("failures")
			}
			if x.prob < 0 && flip(t, "delay", 1, 2) {
				x.delay = intn(t, "max", 0, 8) * 10
				mods = append(mods, mod1("faultinjector.AddRandomDelay", n, x.delay))
				c.Label("random delay")
				if len(mods) > 1 && flip(t, "order", 1, 2) {
					mods[0], mods[1] = mods[1], mods[0]
				}
			}
			s := p.service(n, p.iface(), mods...)
			cs[n] = x
			if flip(t, "http", 1, 5) {
				p.expose(s)
			}
		}
		var all []cmd
		for _, s := range p.a.svcs {
			n := 24
			if x := cs[s.name]; x.prob > 0 && x.prob < 100 {
				n = 400
			}
			for ; n > 0; n-- {
				all = append(all, p.call(s.name, []string{"Do", "Get", "Fire"}[n%3], []string{"ok", "ok", "fail"}[n/3%3]))
			}
		}
		for len(all) > 0 {
			n := min(len(all), 60)
			p.add(all[:n]...)
			all = all[n:]
		}
		interesting, good := false, 0
		p.run(func(o *planOutcome) (timing []string) {
			good = 0
			injected := map[string]int{}
			slept := map[string]time.Duration{}
			for _, x := range p.byID {
				k := cs[x.Svc]
				r := o.results[x.ID]
				is := o.invs[o.key(x)]
				took := time.Duration(r.End - r.Start)
				if len(is) > 1 {
					c.Failf("%s: the service was called %d times", o.what(x), len(is))
				}
				if len(is) == 0 {
					if r.Err == "" {
						c.Failf("%s returned %s but the service was not called", o.what(x), r.Rets)
					}
					if k.prob <= 0 {
						c.Failf("%s failed with %q although no failure is injected into %s (probability %d)", o.what(x), r.Err, x.Svc, k.prob)
					}
					injected[x.Svc]++
				} else {
					if k.prob == 100 {
						c.Failf("%s reached the service although it always fails", o.what(x))
					}
					if strings.Contains(p.plan(x), "fail") {
						o.expectErr(x, "planned failure 0")
					} else {
						o.expectOK(x, 0)
						good++
					}
				}
				if d := time.Duration(k.lat) * time.Millisecond; took < d-time.Millisecond {
					c.Failf("%s took %v, the injected latency is %v", o.what(x), took, d)
				}
				slept[x.Svc] += took
				limit := time.Duration(k.lat)*time.Millisecond + 1500*time.Millisecond
				if k.delay >= 0 {
					limit += time.Duration(k.delay) * time.Millisecond
				}
				if took > limit {
					timing = append(timing, fmt.Sprintf("%s took %v, the injected latency is %dms and the greatest random delay %dms", o.what(x), took, k.lat, k.delay))
				}
			}
			for s, k := range cs {
				n := countCalls(p, s)
				if k.prob > 0 && k.prob < 100 {
					mean := float64(n*k.prob) / 100
					sd2 := mean * float64(100-k.prob) / 100
					if d := float64(injected[s]) - mean; d*d > 49*sd2+25 {
						c.Failf("%d of %d calls of %s were failed, the probability is %d%%", injected[s], n, s, k.prob)
					}
				}
				if k.delay >= 20 && slept[s] < time.Duration(n*k.delay)*time.Millisecond/10 {
					c.Failf("%d calls of %s took %v in all, random delays up to %dms are injected", n, s, slept[s], k.delay)
				}
				if k.lat > 0 || k.prob > 0 {
					interesting = true
				}
			}
			return
		})
		c.NonTrivial(interesting && good > 0)
	})
}
