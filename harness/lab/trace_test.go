package lab

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// collector is a stand-in for Zipkin: it keeps the spans sent to it.
type collector struct {
	mu    sync.Mutex
	spans map[string]zspan // by id
	dup   []string
	l     net.Listener
}

type zspan struct{ TraceID, ID, ParentID, Name string }

func newCollector() *collector {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.EnvError("no loopback port: %v", err)
	}
	c := &collector{spans: map[string]zspan{}, l: l}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var ss []zspan
		if err := json.Unmarshal(b, &ss); err != nil {
			w.WriteHeader(400)
			return
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		for _, s := range ss {
			if _, ok := c.spans[s.ID]; ok {
				c.dup = append(c.dup, s.ID)
			}
			c.spans[s.ID] = s
		}
		w.WriteHeader(202)
	}))
	return c
}

func (c *collector) count() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.spans) }

func TestC22_TracedCalls(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application of services that call each other, some instrumented, some behind HTTP or gRPC, in several processes, and a set of call trees over them run at the same time, whose spans are collected over loopback; non-trivial if some instrumented call crossed to another process and some trace has three or more spans"}, func(t *rapid.T, c *h.Case) {
		g := &gen{t: t, a: &app{wire: pick(t, "wire", jsonW, grpcW), traced: true, extra: map[string]*iface{}, labels: map[string]string{}}}
		a := g.a
		d := genDAG(t, c, g, 7, func(k int, _ []*iface) *iface { return walkIface(t, k) })
		wires := []string{"http"}
		if a.wire == grpcW {
			wires = []string{"http", "grpc"}
		}
		d.deploy(4, wires...)
		for _, s := range d.svcs {
			mods := g.stack(c, s)
			if flip(t, "instr", 3, 4) {
				s.instr = pick(t, "instrk", "spans", "spans", "nospans")
				c.Label("instrumented: " + s.instr)
				k := intn(t, "pos", 0, len(mods))
				m := mod1("opentelemetry."+map[string]string{"spans": "Instrument", "nospans": "InstrumentWithoutClientSpans"}[s.instr], s.name, "zipkin")
				mods = append(mods[:k:k], append([]string{m}, mods[k:]...)...)
			}
			if s.wire != "" {
				if flip(t, "pool", 1, 4) {
					mods = append(mods, mod1("clientpool.Create", s.name, intn(t, "size", 3, 20)))
				}
				mods = append(mods, mod1(s.wire+".Deploy", s.name))
			}
			s.mods = mods
		}
		a.svcs[0].mods = append([]string{P + "zipkin».Collector(spec, \"zipkin\")"}, a.svcs[0].mods...)
		name := func(p int) string { return fmt.Sprintf("proc%d", p) }
		number := map[string]int{}
		for p := d.procs - 1; p >= 0; p-- {
			if ss := d.processes()[p]; len(ss) > 0 {
				a.body = append(a.body, fmt.Sprintf(P+"goproc».CreateProcess(spec, %q, \"%s\")", name(p), strings.Join(ss, `", "`)))
				a.rets = append(a.rets, name(p))
				number[name(p)] = p
			}
		}
		// the requests
		var roots []*walkNode
		var cmds []cmd
		next, id := 0, 0
		for k := intn(t, "nreq", 2, 12); k > 0; k-- {
			var par []cmd
			for m := pick(t, "width", 1, 1, 3, 8); m > 0; m-- {
				n, w := d.genWalk(nil, d.probe.kids[intn(t, "root", 0, len(d.probe.kids)-1)], &next, 5, true)
				id++
				roots = append(roots, n)
				par = append(par, cmd{ID: id, Svc: n.svc.name, M: n.method, Lit: w.lit()})
			}
			if len(par) == 1 {
				cmds = append(cmds, par[0])
			} else {
				cmds = append(cmds, cmd{ID: 100000 + id, Par: par})
			}
		}
		x := compileOrFail(c, a)
		ps := x.procs()
		if len(ps) != len(number) {
			c.Failf("%d processes were generated, expected %d", len(ps), len(number))
		}
		if err := x.buildAll(ps, false); err != nil {
			c.Failf("the generated code does not compile: %v", err)
		}
		crossed, long := false, false
		for attempt := 1; ; attempt++ {
			col := newCollector()
			d.addresses(ps, name)
			for _, p := range ps {
				uses := false
				for _, s := range d.svcs {
					if s.instr == "" {
						continue
					}
					uses = uses || s.proc == number[p.name]
					for _, y := range s.callers {
						uses = uses || y.proc == number[p.name]
					}
				}
				if uses {
					p.args["zipkin.dial_addr"] = col.l.Addr().String()
				}
			}
			inOrder(ps, number)
			want := 0
			for _, r := range roots {
				r.each(func(n *walkNode) {
					switch n.svc.instr {
					case "spans":
						want += 2
					case "nospans":
						want++
					}
				})
			}
			hold := func() {
				for end := time.Now().Add(5 * time.Second); col.count() < want && time.Now().Before(end); {
					time.Sleep(10 * time.Millisecond)
				}
			}
			o, err := x.runHold(ps, name(0), cmds, nil, []string{"OTEL_BSP_SCHEDULE_DELAY=40"}, 2*time.Minute, hold)
			if err != nil {
				c.Failf("%v", err)
			}
			col.l.Close()
			err = checkSpans(c, d, roots, o, col, want, &crossed, &long)
			if err == nil {
				break
			}
			if attempt == 3 || !strings.HasPrefix(err.Error(), "timing: ") {
				c.Failf("%v", err)
			}
			c.Label("repeated for timing")
		}
		c.NonTrivial(crossed && long)
	})
}

func checkSpans(c *h.Case, d *dag, roots []*walkNode, o *outcome, col *collector, want int, crossed, long *bool) error {
	invs := map[string][]inv{}
	for _, i := range o.invs {
		invs[i.Args] = append(invs[i.Args], i)
	}
	for k, r := range roots {
		res, ok := o.results[k+1]
		if !ok || res.Panic != "" {
			return fmt.Errorf("request %d: no result, or a panic: %s", k+1, res.Panic)
		}
		w, ok := r.result()
		if ok && res.Err == "" && res.Rets != strconv.Quote(w) {
			return fmt.Errorf("request %d (%s.%s) returned %s, the services return %q", k+1, r.svc.name, r.method, res.Rets, w)
		}
		if ok && res.Err != "" {
			return fmt.Errorf("timing: request %d (%s.%s) failed with %q, the services return %q", k+1, r.svc.name, r.method, res.Err, w)
		}
		if !ok && res.Err == "" {
			return fmt.Errorf("request %d (%s.%s) returned %s, the service returned an error", k+1, r.svc.name, r.method, res.Rets)
		}
	}
	clients := map[string]int{}
	sizes := map[string]int{}
	var walk func(n *walkNode, cur string) error
	walk = func(n *walkNode, cur string) error {
		what := fmt.Sprintf("call %d of %s.%s (%s, %s)", n.id, n.svc.name, n.method, n.svc.instr, n.svc.wire)
		is := invs[strconv.Itoa(n.id)]
		if len(is) != 1 {
			return fmt.Errorf("%s: the service was called %d times", what, len(is))
		}
		i := is[0]
		if i.Svc != n.svc.label || i.Method != n.method {
			return fmt.Errorf("%s reached %s.%s", what, i.Svc, i.Method)
		}
		here := cur
		if n.svc.instr == "" {
			if n.svc.wire != "" {
				here = ""
			}
			if i.Span != here {
				return fmt.Errorf("%s: the service, which is not instrumented, ran in span %q, expected %q", what, i.Span, here)
			}
		} else {
			if i.Span == "" {
				return fmt.Errorf("%s: the service ran in no span", what)
			}
			here = i.Span
			tr, sp, _ := strings.Cut(i.Span, "/")
			s, ok := col.spans[sp]
			if !ok {
				return fmt.Errorf("timing: %s: the span %s of the service was not exported (%d of %d spans were)", what, i.Span, len(col.spans), want)
			}
			if s.TraceID != tr {
				return fmt.Errorf("%s: span %s was exported with trace %s", what, i.Span, s.TraceID)
			}
			sizes[tr]++
			ct, cs, _ := strings.Cut(cur, "/")
			if cur != "" && tr != ct {
				return fmt.Errorf("%s: the service's span belongs to trace %s, the caller's to %s", what, tr, ct)
			}
			parent := s.ParentID
			if n.svc.instr == "spans" {
				cl, ok := col.spans[parent]
				if !ok || parent == "" {
					return fmt.Errorf("timing: %s: the service's span has parent %q, which is not an exported client span", what, parent)
				}
				clients[parent]++
				if clients[parent] > 1 {
					return fmt.Errorf("%s: its client span %s is the parent of several server spans", what, parent)
				}
				if cl.TraceID != tr {
					return fmt.Errorf("%s: the client span belongs to trace %s, the server's to %s", what, cl.TraceID, tr)
				}
				sizes[tr]++
				parent = cl.ParentID
				if n.caller == nil || n.caller.svc.proc != n.svc.proc {
					*crossed = true
				}
			}
			if parent != cs {
				return fmt.Errorf("%s: the client's span has parent %q, the caller runs in span %q", what, parent, cs)
			}
		}
		for _, k := range n.kids {
			if err := walk(k, here); err != nil {
				return err
			}
		}
		return nil
	}
	for _, r := range roots {
		if err := walk(r, ""); err != nil {
			return err
		}
	}
	for _, n := range sizes {
		if n >= 3 {
			*long = true
		}
	}
	if len(col.dup) > 0 {
		return fmt.Errorf("spans were exported more than once: %v", col.dup)
	}
	if len(col.spans) != want {
		return fmt.Errorf("timing: %d spans were exported, expected %d", len(col.spans), want)
	}
	return nil
}

// stack draws modifiers that neither repeat calls nor change them.
func (g *gen) stack(c *h.Case, s *dagSvc) []string {
	ms, names := g.neutralMods(s.name, false)
	var out []string
	for k, m := range ms {
		if names[k] != "retries" {
			out = append(out, m)
			c.Label(names[k])
		}
	}
	return out
}
