package lab

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// dag is an application whose services call each other, and how it is deployed.
type dag struct {
	t     *rapid.T
	c     *h.Case
	g     *gen
	a     *app
	svcs  []*dagSvc // callers before the services they call
	probe *dagSvc   // calls some of them
	procs int
	by    map[string]*dagSvc

	serial, logs bool // of the walks
}

type dagSvc struct {
	*svc
	kids    []*dagSvc
	callers []*dagSvc
	wire    string // "" (in its caller's process), "http" or "grpc"
	instr   string // "", "spans" or "nospans"
	proc    int    // 0 is the process of the probe
}

// genDAG draws the services and who calls whom. newIface makes the interface of a service that calls the given ones.
func genDAG(t *rapid.T, c *h.Case, g *gen, most int, newIface func(k int, children []*iface) *iface) *dag {
	d := &dag{t: t, c: c, g: g, a: g.a, probe: &dagSvc{svc: &svc{name: "probe"}}, by: map[string]*dagSvc{}}
	n := max(2, most-intn(t, "fewer", 0, most-2))
	var made []*dagSvc // callees first
	for k := n - 1; k >= 0; k-- {
		name := fmt.Sprintf("s%d", k)
		if g.svcName != nil {
			name = g.svcName(k)
		}
		s := &dagSvc{svc: &svc{name: name, label: fmt.Sprintf("label%d", k)}}
		if len(made) > 0 && flip(t, "share", 1, 4) {
			// the interface of another service, with services of the same interfaces as dependencies
			e := made[intn(t, "which", 0, len(made)-1)]
			s.i = e.i
			for _, ci := range e.i.children {
				var ok []*dagSvc
				for _, x := range made {
					if x.i == ci {
						ok = append(ok, x)
					}
				}
				s.kids = append(s.kids, ok[intn(t, "kid", 0, len(ok)-1)])
			}
			c.Label("shared interface")
		} else {
			var cis []*iface
			if len(made) > 0 {
				for x := intn(t, "nkids", 0, 3); x > 0; x-- {
					kid := made[intn(t, "kid", 0, len(made)-1)]
					s.kids = append(s.kids, kid)
					cis = append(cis, kid.i)
				}
			}
			s.i = newIface(k, cis)
			s.i.children = cis
			d.a.ifaces = append(d.a.ifaces, s.i)
		}
		for _, kid := range s.kids {
			s.children = append(s.children, kid.svc)
			kid.callers = append(kid.callers, s)
		}
		made = append(made, s)
	}
	for k := len(made) - 1; k >= 0; k-- {
		s := made[k]
		d.svcs = append(d.svcs, s)
		d.by[s.name] = s
		if len(s.callers) == 0 || flip(t, "probed", 1, 4) {
			s.callers = append(s.callers, d.probe)
			d.probe.kids = append(d.probe.kids, s)
			d.a.probed = append(d.a.probed, s.name)
		}
	}
	// in Blueprint a service is defined before it is used
	for _, s := range made {
		d.a.svcs = append(d.a.svcs, s.svc)
	}
	return d
}

// deploy draws the processes and what runs in them. A process is only called by processes of lower number.
func (d *dag) deploy(most int, wires ...string) {
	t := d.t
	d.procs = max(1, most-pick(t, "nprocs", 2, 0, 1, 3))
	for _, s := range d.svcs {
		lo, same := 0, true
		for _, x := range s.callers {
			lo = max(lo, x.proc)
			same = same && x.proc == s.callers[0].proc
		}
		s.proc = lo
		if !same || flip(t, "wire", 2, 3) {
			s.wire = pick(t, "wirek", wires...)
			s.proc = intn(t, "proc", lo, d.procs-1)
			if s.proc == lo && lo < d.procs-1 && flip(t, "away", 2, 3) {
				s.proc = lo + 1
			}
			d.c.Label(s.wire)
		}
	}
}

// processes are the declarations of the processes, as the names of the exposed services of each.
func (d *dag) processes() map[int][]string {
	out := map[int][]string{0: {"probe"}}
	for _, s := range d.svcs {
		if s.wire != "" {
			out[s.proc] = append(out[s.proc], s.name)
		}
	}
	return out
}

// closure lists the services that run in a process, starting from what it exposes.
func (d *dag) hosted(proc int) []*dagSvc {
	var out []*dagSvc
	for _, s := range d.svcs {
		if s.proc == proc {
			out = append(out, s)
		}
	}
	return out
}

// addresses draws the addresses of the services, and gives every process the arguments it needs.
func (d *dag) addresses(ps []*proc, name func(proc int) string) {
	by := map[string]*proc{}
	for _, p := range ps {
		p.args, p.up, p.ready = map[string]string{}, nil, nil
		by[p.name] = p
	}
	used := map[string]bool{}
	for _, s := range d.svcs {
		if s.wire == "" {
			continue
		}
		addr := freeAddr()
		for used[addr] {
			addr = freeAddr()
		}
		used[addr] = true
		p := by[name(s.proc)]
		if p == nil {
			d.c.Failf("no process %s was generated", name(s.proc))
		}
		p.args[s.name+"."+s.wire+".bind_addr"] = addr
		p.up = append(p.up, addr)
		for _, x := range s.callers {
			if q := by[name(x.proc)]; q != nil {
				q.args[s.name+"."+s.wire+".dial_addr"] = addr
				if q == p && s.wire == "grpc" && by[name(0)] != nil {
					by[name(0)].ready = settle
				}
			}
		}
	}
}

// inOrder sorts the processes so that what is called is started first.
func inOrder(ps []*proc, number map[string]int) {
	sort.Slice(ps, func(i, j int) bool { return number[ps[i].name] > number[ps[j].name] })
}

// ---------------------------------------------------------------- walks

type walkPlan struct {
	I int
	F bool       `json:",omitempty"`
	P bool       `json:",omitempty"`
	C []walkStep `json:",omitempty"`
	L []walkLog  `json:",omitempty"`
}

type walkLog struct {
	P int
	M string
	K int
}

type walkStep struct {
	N int
	W walkPlan
}

// walkNode is one call of a walk.
type walkNode struct {
	id     int
	caller *walkNode // nil: the probe
	svc    *dagSvc
	method string
	fail   bool
	par    bool
	logs   []walkLog
	kids   []*walkNode
}

func walkIface(t *rapid.T, k int) *iface {
	i := &iface{pkg: mod + "/svc", name: fmt.Sprintf("%s%d", pick(t, "iname", ifaceNames...), k), viaIface: flip(t, "via", 2, 3)}
	i.impl = i.name + "Impl"
	for m := 0; m <= intn(t, "nm", 0, 1); m++ {
		i.methods = append(i.methods, &method{name: []string{"Do", "Get"}[m], kind: "walk", args: []arg{{pick(t, "aname", "plan", "span", "trace_ctx", "tr", "ctx1", "handler"), "string"}}, rets: []ty{"string"}})
	}
	return i
}

// genWalk draws a call tree.
func (d *dag) genWalk(caller *walkNode, s *dagSvc, next *int, depth int, failures bool) (*walkNode, walkPlan) {
	t := d.t
	*next++
	n := &walkNode{id: *next, caller: caller, svc: s, method: s.i.methods[intn(t, "m", 0, len(s.i.methods)-1)].name}
	w := walkPlan{I: n.id, P: flip(t, "par", 1, 3), F: failures && flip(t, "fail", 1, 6)}
	n.fail, n.par = w.F, w.P
	if d.serial {
		n.par, w.P = false, false
	}
	type target struct {
		n   int
		kid *dagSvc
		m   string
	}
	var ts []target
	for _, k := range s.kids {
		for _, m := range k.i.methods {
			ts = append(ts, target{len(ts), k, m.name})
		}
	}
	if depth > 0 && len(ts) > 0 {
		for c := intn(t, "ncalls", 0, 3); c > 0 && *next < 400; c-- {
			x := ts[intn(t, "target", 0, len(ts)-1)]
			kn, kw := d.genWalk(n, x.kid, next, depth-1, failures)
			kn.method = x.m
			n.kids = append(n.kids, kn)
			w.C = append(w.C, walkStep{x.n, kw})
		}
	}
	if d.logs {
		for c := pick(t, "nlogs", 0, 0, 1, 2, 3); c > 0; c-- {
			k := len(w.C)
			if !w.P {
				k = intn(t, "logat", 0, k)
			}
			w.L = append(w.L, walkLog{intn(t, "prio", 0, 3), fmt.Sprintf("%s %d", pick(t, "text", "message", "proc0 {\"proc0\":7}", "100%", "%d", "Sending response to the client", "{", "ünïcode"), n.id), k})
		}
		n.logs = w.L
	}
	return n, w
}

func (w walkPlan) lit() []json.RawMessage {
	b, _ := json.Marshal(w)
	s, _ := json.Marshal(string(b))
	return []json.RawMessage{s}
}

// result is what the call returns.
func (n *walkNode) result() (string, bool) {
	var rs []string
	for _, k := range n.kids {
		r, ok := k.result()
		if !ok {
			r = "!"
		}
		rs = append(rs, r)
	}
	return fmt.Sprintf("%d:%s.%s(%s)", n.id, n.svc.label, n.method, strings.Join(rs, ",")), !n.fail
}

func (n *walkNode) each(f func(*walkNode)) {
	f(n)
	for _, k := range n.kids {
		k.each(f)
	}
}
