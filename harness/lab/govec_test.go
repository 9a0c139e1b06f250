package lab

import (
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// vent is an event in the log of a process: the vector clock and what happened.
type vent struct {
	clock map[string]uint64
	msg   string
}

func readGovec(c *h.Case, file, pid string) []vent {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Failf("process %s wrote no log: %v", pid, err)
	}
	ls := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if len(ls)%2 != 0 {
		c.Failf("the log of %s has %d lines", pid, len(ls))
	}
	var out []vent
	for k := 0; k < len(ls); k += 2 {
		p, vc, _ := strings.Cut(ls[k], " ")
		e := vent{msg: ls[k+1]}
		if err := json.Unmarshal([]byte(vc), &e.clock); err != nil || p != pid {
			c.Failf("line %d of the log of %s is %q", k+1, pid, ls[k])
		}
		out = append(out, e)
	}
	return out
}

const (
	msgInit  = "Initialization Complete"
	msgReq   = "INFO Preparing to make request for function "
	msgServe = "INFO Unpacking go vec context from client request"
	msgReply = "INFO Sending response to the client"
	msgDone  = "INFO Unpacking response from server"
)

var govecPrio = []string{"DEBUG", "INFO", "WARNING", "ERROR"}

// vsim replays requests that are made one after another against the logs.
type vsim struct {
	c     *h.Case
	name  func(int) string
	logs  map[string][]vent
	at    map[string]int
	clock map[string]map[string]uint64
	cross int
}

func (v *vsim) pid(p int) string { return v.name(p) + ".goveclogger" }

// event checks the next event of a process; from is the clock it learns of. If from may have been lost, either is right.
func (v *vsim) event(p int, what, msg string, from map[string]uint64, lossy bool) map[string]uint64 {
	pid := v.pid(p)
	now := maps.Clone(v.clock[pid])
	if now == nil {
		now = map[string]uint64{}
	}
	now[pid]++
	merged := maps.Clone(now)
	for k, n := range from {
		merged[k] = max(merged[k], n)
	}
	k := v.at[pid]
	v.at[pid]++
	if k >= len(v.logs[pid]) {
		v.c.Failf("%s: event %d, %q, is missing from the log of %s", what, k+1, msg, pid)
	}
	e := v.logs[pid][k]
	if e.msg != msg {
		v.c.Failf("%s: event %d of %s is %q, expected %q", what, k+1, pid, e.msg, msg)
	}
	if lossy && maps.Equal(e.clock, now) {
		merged = now
	}
	if !maps.Equal(e.clock, merged) {
		v.c.Failf("%s: event %d of %s (%q) has clock %v, expected %v", what, k+1, pid, msg, e.clock, merged)
	}
	v.clock[pid] = merged
	return maps.Clone(merged)
}

func (v *vsim) call(n *walkNode) {
	cp := 0
	if n.caller != nil {
		cp = n.caller.svc.proc
	}
	sp := n.svc.proc
	what := fmt.Sprintf("call %d of %s.%s", n.id, n.svc.name, n.method)
	if n.svc.instr != "" {
		m := v.event(cp, what, msgReq+n.method, nil, false)
		v.event(sp, what, msgServe, m, false)
		if cp != sp {
			v.cross++
		}
	}
	for k := 0; k <= len(n.kids); k++ {
		for _, l := range n.logs {
			if l.K == k && l.P > 0 {
				v.event(sp, what, govecPrio[l.P]+" "+l.M, nil, false)
			}
		}
		if k < len(n.kids) {
			v.call(n.kids[k])
		}
	}
	if n.svc.instr != "" {
		m := v.event(sp, what, msgReply, nil, false)
		v.event(cp, what, msgDone, m, n.fail && n.svc.wire != "")
	}
}

// checkHistory checks what holds of vector clocks however the events were interleaved.
func checkHistory(c *h.Case, logs map[string][]vent) {
	for pid, es := range logs {
		prev := map[string]uint64{}
		for k, e := range es {
			if e.clock[pid] != uint64(k+1) {
				c.Failf("event %d of %s has clock %v", k+1, pid, e.clock)
			}
			for q, n := range prev {
				if e.clock[q] < n {
					c.Failf("event %d of %s has clock %v, the event before it %v", k+1, pid, e.clock, prev)
				}
			}
			for q, n := range e.clock {
				if n == 0 || n > uint64(len(logs[q])) {
					c.Failf("event %d of %s has clock %v, but %s had %d events", k+1, pid, e.clock, q, len(logs[q]))
				}
				for r, m := range logs[q][n-1].clock {
					if e.clock[r] < m {
						c.Failf("event %d of %s has clock %v: it knows of event %d of %s, but not of what that one knew, %v", k+1, pid, e.clock, n, q, logs[q][n-1].clock)
					}
				}
			}
			prev = e.clock
		}
	}
}

func TestC26_GeneratedClocks(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application of services that call each other, some instrumented with GoVector, in several processes, and a set of call trees over them, made one after another or at the same time, whose logs are compared with the vector clocks of the calls; non-trivial if some instrumented call crossed to another process"}, func(t *rapid.T, c *h.Case) {
		g := &gen{t: t, a: &app{wire: pick(t, "wire", jsonW, grpcW), logs: true, extra: map[string]*iface{}, labels: map[string]string{}}}
		a := g.a
		d := genDAG(t, c, g, 7, func(k int, _ []*iface) *iface { return walkIface(t, k) })
		d.serial, d.logs = flip(t, "serial", 2, 3), true
		wires := []string{"http"}
		if a.wire == grpcW {
			wires = []string{"http", "grpc"}
		}
		d.deploy(4, wires...)
		tracer := flip(t, "tracer", 1, 3)
		traced := map[*dagSvc]bool{}
		for _, s := range d.svcs {
			mods := g.stack(c, s)
			if tracer && flip(t, "trace", 1, 2) {
				traced[s] = true
				mods = append(mods, mod1("opentelemetry."+pick(t, "otel", "Instrument", "InstrumentWithoutClientSpans"), s.name, "zipkin"))
				c.Label("opentelemetry")
			}
			if flip(t, "instr", 3, 4) {
				s.instr = "govec"
				k := intn(t, "pos", 0, len(mods))
				mods = append(mods[:k:k], append([]string{mod1("govector.Instrument", s.name)}, mods[k:]...)...)
			}
			if s.wire != "" {
				if flip(t, "pool", 1, 4) {
					mods = append(mods, mod1("clientpool.Create", s.name, intn(t, "size", 3, 20)))
				}
				mods = append(mods, mod1(s.wire+".Deploy", s.name))
			}
			s.mods = mods
		}
		if len(traced) > 0 {
			a.svcs[0].mods = append([]string{P + "zipkin».Collector(spec, \"zipkin\")"}, a.svcs[0].mods...)
		}
		name := func(p int) string { return fmt.Sprintf("proc%d", p) }
		number := map[string]int{}
		for p := d.procs - 1; p >= 0; p-- {
			if ss := d.processes()[p]; len(ss) > 0 {
				a.body = append(a.body, fmt.Sprintf(P+"goproc».CreateProcess(spec, %q, \"%s\")", name(p), strings.Join(ss, `", "`)))
				a.body = append(a.body, fmt.Sprintf(P+"govector».Logger(spec, %q)", name(p)))
				a.rets = append(a.rets, name(p))
				number[name(p)] = p
			}
		}
		var roots []*walkNode
		var cmds []cmd
		next, id := 0, 0
		for k := intn(t, "nreq", 2, 12); k > 0; k-- {
			width := 1
			if !d.serial {
				width = pick(t, "width", 1, 3, 8)
			}
			var par []cmd
			for ; width > 0; width-- {
				n, w := d.genWalk(nil, d.probe.kids[intn(t, "root", 0, len(d.probe.kids)-1)], &next, 5, true)
				id++
				roots = append(roots, n)
				par = append(par, cmd{ID: id, Svc: n.svc.name, M: n.method, Lit: w.lit()})
			}
			if len(par) == 1 {
				cmds = append(cmds, par[0])
			} else {
				cmds = append(cmds, cmd{ID: 100000 + id, Par: par})
			}
		}
		x := compileOrFail(c, a)
		ps := x.procs()
		if len(ps) != len(number) {
			c.Failf("%d processes were generated, expected %d", len(ps), len(number))
		}
		if err := x.buildAll(ps, false); err != nil {
			c.Failf("the generated code does not compile: %v", err)
		}
		var o *outcome
		for attempt := 1; ; attempt++ {
			d.addresses(ps, name)
			for s := range traced {
				for _, p := range ps {
					uses := s.proc == number[p.name]
					for _, y := range s.callers {
						uses = uses || y.proc == number[p.name]
					}
					if uses {
						p.args["zipkin.dial_addr"] = "127.0.0.1:9" // nobody collects
					}
				}
			}
			inOrder(ps, number)
			var err error
			o, err = x.runHold(ps, name(0), cmds, nil, nil, 2*time.Minute, func() {})
			if err != nil {
				c.Failf("%v", err)
			}
			late := ""
			for k, r := range roots {
				res, ok := o.results[k+1]
				if !ok || res.Panic != "" {
					c.Failf("request %d: no result, or a panic: %s", k+1, res.Panic)
				}
				w, ok := r.result()
				switch {
				case ok && res.Err == "" && res.Rets != strconv.Quote(w):
					c.Failf("request %d (%s.%s) returned %s, the services return %q", k+1, r.svc.name, r.method, res.Rets, w)
				case !ok && res.Err == "":
					c.Failf("request %d (%s.%s) returned %s, the service returned an error", k+1, r.svc.name, r.method, res.Rets)
				case ok && res.Err != "":
					late = fmt.Sprintf("request %d (%s.%s) failed with %q, the services return %q", k+1, r.svc.name, r.method, res.Err, w)
				}
			}
			if late == "" {
				break
			}
			if attempt == 3 {
				c.Failf("%s", late)
			}
			c.Label("repeated for timing") // gRPC clients give a call one second
		}
		v := &vsim{c: c, name: name, logs: map[string][]vent{}, at: map[string]int{}, clock: map[string]map[string]uint64{}}
		for n, p := range number {
			v.logs[v.pid(p)] = readGovec(c, filepath.Join(x.e.dir, "app", "run", n+".goveclogger-Log.txt"), v.pid(p))
		}
		checkHistory(c, v.logs)
		for _, p := range number {
			v.event(p, "start", msgInit, nil, false)
		}
		if d.serial {
			c.Label("serial")
			for _, r := range roots {
				v.call(r)
			}
			for pid, es := range v.logs {
				if v.at[pid] != len(es) {
					c.Failf("%s has %d events, expected %d; the first too many is %q", pid, len(es), v.at[pid], es[v.at[pid]].msg)
				}
			}
		} else {
			c.Label("concurrent")
			checkCounts(c, d, v, roots)
		}
		c.NonTrivial(v.cross > 0)
	})
}

// checkCounts checks how often each event happened, and that those who received something know of its sender.
func checkCounts(c *h.Case, d *dag, v *vsim, roots []*walkNode) {
	want := map[string]map[string]int{}
	callers := map[string]map[string]bool{} // by the process of the service
	add := func(p int, msg string) {
		if want[v.pid(p)] == nil {
			want[v.pid(p)] = map[string]int{}
		}
		want[v.pid(p)][msg]++
	}
	for _, r := range roots {
		r.each(func(n *walkNode) {
			cp := 0
			if n.caller != nil {
				cp = n.caller.svc.proc
			}
			for _, l := range n.logs {
				if l.P > 0 {
					add(n.svc.proc, govecPrio[l.P]+" "+l.M)
				}
			}
			if n.svc.instr == "" {
				return
			}
			add(cp, msgReq+n.method)
			add(n.svc.proc, msgServe)
			add(n.svc.proc, msgReply)
			add(cp, msgDone)
			if callers[v.pid(n.svc.proc)] == nil {
				callers[v.pid(n.svc.proc)] = map[string]bool{}
			}
			callers[v.pid(n.svc.proc)][v.pid(cp)] = true
			if cp != n.svc.proc {
				v.cross++
			}
		})
	}
	for pid, es := range v.logs {
		got := map[string]int{}
		for _, e := range es[1:] {
			got[e.msg]++
		}
		for m, n := range want[pid] {
			if got[m] != n {
				c.Failf("%q is %d times in the log of %s, expected %d times", m, got[m], pid, n)
			}
		}
		if len(got) != len(want[pid]) {
			c.Failf("the log of %s has events %v, expected %v", pid, got, want[pid])
		}
		if len(callers[pid]) != 1 {
			continue
		}
		for q := range callers[pid] {
			if q == pid {
				continue
			}
			var sent []uint64
			for k, e := range v.logs[q] {
				if strings.HasPrefix(e.msg, msgReq) {
					sent = append(sent, uint64(k+1))
				}
			}
			j := 0
			for k, e := range es {
				if e.msg == msgServe {
					if e.clock[q] < sent[j] {
						c.Failf("event %d of %s is the %d. request of %s, but its clock is %v; the %d. request was sent at %d", k+1, pid, j+1, q, e.clock, j+1, sent[j])
					}
					j++
				}
			}
		}
	}
}
