package wire

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/namespaceutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"pgregory.net/rapid"
	"verif/harness/h"
)

// service-level nodes: a service, its modifiers and its RPC client. They live in processes.
type snode interface {
	ir.IRNode
	sn() *sbase
}

type sbase struct {
	name, ns string
	next     ir.IRNode                  // modifiers: what they wrap
	refs     map[int]ir.IRNode          // services: the client of every service they call
	addr     *address.Address[*sServer] // RPC clients
}

func (s *sbase) Name() string   { return s.name }
func (s *sbase) String() string { return s.name }
func (s *sbase) sn() *sbase     { return s }

type (
	sSvc    struct{ sbase }
	sMod    struct{ sbase }
	sClient struct{ sbase }
	sServer struct { // not an snode: only addresses lead to it
		name, ns string
		next     ir.IRNode
		bind     *address.BindConfig
	}
	sCaller struct{ sbase } // what a service looks like to its callers
	sProc   struct {
		name  string
		nodes []ir.IRNode
		edges []ir.IRNode
	}
	sCtr struct{ sProc }
)

func (s *sServer) Name() string   { return s.name }
func (s *sServer) String() string { return s.name }
func (p *sProc) Name() string     { return p.name }
func (p *sProc) String() string   { return p.name }
func (p *sProc) AddNode(n string, node ir.IRNode) error {
	p.nodes = append(p.nodes, node)
	return nil
}
func (p *sProc) AddEdge(n string, node ir.IRNode) error {
	p.edges = append(p.edges, node)
	return nil
}
func (p *sProc) Accepts(t any) bool {
	switch t.(type) {
	case *sServer, snode:
		return true
	}
	return false
}
func (p *sCtr) Accepts(t any) bool { _, ok := t.(*sProc); return ok }

type psvc struct {
	idx   int
	calls []int
	mods  []string // "src:name" "dst:name" "rpc" in the order they are applied
	proc  int      // -1: not deployed to a process explicitly
	bad   bool     // a modifier is applied after RPC
	rpc   bool
	src   []string
	dst   []string
	multi bool // uniqueness disabled
}

func name(i int) string { return fmt.Sprintf("svc%d", i) }

type pApp struct {
	svcs     []*psvc
	ctrOf    map[int]int // process -> container
	nproc    int
	requests []string
	owners   []map[string]bool // per service: the namespaces in which it is expected to be built; nil: not reached
	built    map[string]snode  // filled during BuildIR: "ns|name"
}

func procName(i int) string { return fmt.Sprintf("proc%d", i) }
func ctrName(i int) string  { return fmt.Sprintf("ctr%d", i) }

// applies everything to the spec, interleaving the modifications of different services
func (a *pApp) define(t *rapid.T, c *h.Case, spec wiring.WiringSpec) {
	type op struct {
		svc int
		f   func()
	}
	queues := make([][]op, len(a.svcs))
	mod := func(n, next string) wiring.BuildFunc {
		return func(ns wiring.Namespace) (ir.IRNode, error) {
			var w snode
			if err := ns.Get(next, &w); err != nil {
				return nil, fmt.Errorf("modifier %s: %w", n, err)
			}
			m := &sMod{sbase{name: n, ns: ns.Name(), next: w}}
			a.built[ns.Name()+"|"+n] = m
			return m, nil
		}
	}
	for _, s := range a.svcs {
		s := s
		n := name(s.idx)
		q := func(f func()) { queues[s.idx] = append(queues[s.idx], op{s.idx, f}) }
		q(func() {
			c.Logf("%s calls %v, created%s", n, s.calls, map[bool]string{true: " (not unique)"}[s.multi])
			spec.Define(n+".impl", &sSvc{}, func(ns wiring.Namespace) (ir.IRNode, error) {
				svc := &sSvc{sbase{name: n + ".impl", ns: ns.Name(), refs: map[int]ir.IRNode{}}}
				for _, callee := range s.calls {
					var w snode
					if err := ns.Get(name(callee), &w); err != nil {
						return nil, err
					}
					svc.refs[callee] = w
				}
				a.built[ns.Name()+"|"+svc.name] = svc
				return svc, nil
			})
			if s.multi {
				pointer.CreatePointer[*sCaller](spec, n, n+".impl", pointer.PointerOpts{})
			} else {
				pointer.CreatePointer[*sCaller](spec, n, n+".impl")
			}
		})
		for _, m := range s.mods {
			m := m
			q(func() {
				c.Logf("%s: %s", n, m)
				ptr := pointer.GetPointer(spec, n)
				if ptr == nil {
					c.Failf("GetPointer(%s) = nil", n)
				}
				switch {
				case m == "rpc":
					address.Define[*sServer](spec, n+".addr", n+".server")
					cn := ptr.AddSrcModifier(spec, n+".client")
					spec.Define(n+".client", &sClient{}, func(ns wiring.Namespace) (ir.IRNode, error) {
						addr, err := address.Dial[*sServer](ns, cn)
						if err != nil {
							return nil, fmt.Errorf("client of %s: %w", n, err)
						}
						cl := &sClient{sbase{name: n + ".client", ns: ns.Name(), addr: addr}}
						a.built[ns.Name()+"|"+cl.name] = cl
						return cl, nil
					})
					sn := ptr.AddAddrModifier(spec, n+".addr")
					spec.Define(n+".server", &sServer{}, func(ns wiring.Namespace) (ir.IRNode, error) {
						var w snode
						if err := ns.Get(sn, &w); err != nil {
							return nil, fmt.Errorf("server of %s: %w", n, err)
						}
						srv := &sServer{name: n + ".server", ns: ns.Name(), next: w}
						return srv, address.Bind[*sServer](ns, n+".addr", srv, &srv.bind)
					})
				case strings.HasPrefix(m, "src:"):
					spec.Define(m[4:], &sMod{}, mod(m[4:], ptr.AddSrcModifier(spec, m[4:])))
				default:
					spec.Define(m[4:], &sMod{}, mod(m[4:], ptr.AddDstModifier(spec, m[4:])))
				}
			})
		}
		if s.proc >= 0 {
			q(func() {
				c.Logf("%s in %s", n, procName(s.proc))
				namespaceutil.AddNodeTo[sProc](spec, procName(s.proc), n)
			})
			if ct, in := a.ctrOf[s.proc]; in {
				q(func() {
					c.Logf("%s in %s", n, ctrName(ct))
					namespaceutil.AddNodeTo[sCtr](spec, ctrName(ct), n)
				})
			}
		}
	}
	for p := 0; p < a.nproc; p++ {
		p := p
		spec.Define(procName(p), &sProc{}, func(ns wiring.Namespace) (ir.IRNode, error) {
			n := &sProc{name: procName(p)}
			_, err := namespaceutil.InstantiateNamespace(ns, n)
			return n, err
		})
		spec.Define(ctrName(p), &sCtr{}, func(ns wiring.Namespace) (ir.IRNode, error) {
			n := &sCtr{sProc{name: ctrName(p)}}
			_, err := namespaceutil.InstantiateNamespace(ns, n)
			return n, err
		})
	}
	for {
		var open []int
		for i, q := range queues {
			if len(q) > 0 {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			return
		}
		i := rapid.SampledFrom(open).Draw(t, "next")
		o := queues[i][0]
		queues[i] = queues[i][1:]
		o.f()
	}
}

// expected call path of a client of service s, up to its implementation
func (s *psvc) path() []string {
	n := name(s.idx)
	l := append([]string{}, s.src...)
	if s.rpc {
		l = append(l, n+".client", n+".addr", n+".server")
	}
	for i := len(s.dst) - 1; i >= 0; i-- {
		l = append(l, s.dst[i])
	}
	return append(l, n+".impl")
}

func TestC01(t *testing.T) {
	h.Check(t, h.Opts{Quick: 8000, Thorough: 300000, Hang: h30,
		Rule: "a case is up to 5 services that call one another, with up to 4 client-side, 4 server-side and an RPC modifier each, applied in a random interleaving, grouped into processes and containers; non-trivial if some service has at least 2 modifiers on one side and a caller"}, func(t *rapid.T, c *h.Case) {
		a := &pApp{ctrOf: map[int]int{}, nproc: 3, built: map[string]snode{}}
		n := rapid.IntRange(1, 5).Draw(t, "services")
		useCtr := rapid.IntRange(0, 2).Draw(t, "containers") == 0
		if useCtr {
			for p := 0; p < a.nproc; p++ {
				a.ctrOf[p] = rapid.IntRange(0, 1).Draw(t, "ctr")
			}
		}
		interesting := false
		for i := 0; i < n; i++ {
			s := &psvc{idx: i, proc: -1}
			for j := i + 1; j < n; j++ {
				if rapid.IntRange(0, 2).Draw(t, "calls") > 0 {
					s.calls = append(s.calls, j)
				}
			}
			s.multi = rapid.IntRange(0, 5).Draw(t, "multi") == 0
			wantRPC := rapid.IntRange(0, 2).Draw(t, "rpc") > 0
			disorder := rapid.IntRange(0, 7).Draw(t, "disorder") == 0
			for k := rapid.IntRange(0, 6).Draw(t, "mods"); k > 0; k-- {
				if rapid.Bool().Draw(t, "src") {
					s.src = append(s.src, fmt.Sprintf("%s.s%d", name(i), k))
					s.mods = append(s.mods, "src:"+s.src[len(s.src)-1])
				} else {
					s.dst = append(s.dst, fmt.Sprintf("%s.d%d", name(i), k))
					s.mods = append(s.mods, "dst:"+s.dst[len(s.dst)-1])
				}
			}
			if wantRPC {
				s.rpc = true
				pos := len(s.mods)
				if disorder {
					pos = rapid.IntRange(0, len(s.mods)).Draw(t, "rpc-pos")
				}
				s.bad = pos < len(s.mods)
				s.mods = append(s.mods[:pos:pos], append([]string{"rpc"}, s.mods[pos:]...)...)
			}
			if rapid.IntRange(0, 3).Draw(t, "deployed") > 0 {
				s.proc = rapid.IntRange(0, a.nproc-1).Draw(t, "proc")
			}
			a.svcs = append(a.svcs, s)
			interesting = interesting || len(s.src) > 1 || len(s.dst) > 1
		}
		// the requests: processes or containers, or services directly
		reqProcs := map[int]bool{}
		var rootCalls []int
		for _, s := range a.svcs {
			if s.proc >= 0 && rapid.IntRange(0, 2).Draw(t, "req-proc") > 0 {
				reqProcs[s.proc] = true
			}
			if rapid.IntRange(0, 3).Draw(t, "req-svc") == 0 {
				rootCalls = append(rootCalls, s.idx)
			}
		}
		if len(reqProcs) == 0 && len(rootCalls) == 0 {
			rootCalls = []int{0}
		}
		reached := map[int]bool{}
		for p := 0; p < a.nproc; p++ {
			if reqProcs[p] {
				if useCtr {
					a.requests = append(a.requests, ctrName(a.ctrOf[p]))
				} else {
					a.requests = append(a.requests, procName(p))
				}
			}
		}
		for _, s := range rootCalls {
			a.requests = append(a.requests, name(s))
		}
		if useCtr { // a container brings all of its processes that have services
			for p := range reqProcs {
				for q := 0; q < a.nproc; q++ {
					if a.ctrOf[q] == a.ctrOf[p] {
						for _, s := range a.svcs {
							if s.proc == q {
								reached[q] = true
							}
						}
					}
				}
			}
		}
		for p := range reqProcs {
			reached[p] = true
		}
		// model: in which namespaces each service is built, and who calls it from where
		callersAt := make([]map[string]bool, n)
		owner := make([]map[string]bool, n)
		open := make([]bool, n) // built in one of several places, decided by the compiler
		mustFail := false
		solve := func() (again bool) {
			for i := range a.svcs {
				callersAt[i], owner[i], open[i] = map[string]bool{}, map[string]bool{}, false
			}
			for _, s := range rootCalls {
				callersAt[s]["app"] = true
			}
			mustFail = false
			enter := func(p int) {
				if !reached[p] {
					reached[p] = true
					again = true
				}
				if useCtr {
					for q := 0; q < a.nproc; q++ {
						if a.ctrOf[q] == a.ctrOf[p] && !reached[q] {
							for _, s := range a.svcs {
								if s.proc == q {
									reached[q] = true
									again = true
								}
							}
						}
					}
				}
			}
			for i, s := range a.svcs {
				if s.proc >= 0 && reached[s.proc] {
					owner[i][procName(s.proc)] = true
				}
				if len(callersAt[i]) > 0 {
					if s.bad {
						mustFail = true
					}
					if !s.rpc {
						for ns := range callersAt[i] {
							owner[i][ns] = true
						}
					} else if s.proc >= 0 {
						enter(s.proc)
						owner[i][procName(s.proc)] = true
					} else if len(callersAt[i]) == 1 {
						for ns := range callersAt[i] {
							owner[i][ns] = true
						}
					} else {
						open[i] = true
						for ns := range callersAt[i] {
							owner[i][ns] = true
						}
					}
				}
				if len(owner[i]) > 1 && !s.multi && !open[i] {
					mustFail = true
				}
				for _, callee := range s.calls {
					for ns := range owner[i] {
						callersAt[callee][ns] = true
					}
				}
			}
			return again
		}
		for solve() {
		}
		for i, s := range a.svcs {
			if open[i] {
				t.Skip("RPC server in one of several places")
			}
			if s.bad && len(owner[i]) > 0 && len(callersAt[i]) == 0 {
				t.Skip("misordered modifiers on a service without callers")
			}
			if s.multi && s.rpc && len(owner[i]) > 1 {
				t.Skip("several servers behind one address")
			}
		}
		spec := wiring.NewWiringSpec("app")
		a.define(t, c, spec)
		c.Logf("build %v", a.requests)
		var app *ir.ApplicationNode
		var err error
		if p := h.Try(func() { app, err = spec.BuildIR(a.requests...) }); p != nil {
			c.Failf("BuildIR panicked: %v", p)
		}
		if spec.Err() != nil {
			c.Failf("Err(): %v", spec.Err())
		}
		c.NonTrivial(interesting)
		if mustFail {
			if err == nil {
				c.Failf("the application builds although a modifier follows RPC, or a service that must be unique is reachable from several namespaces")
			}
			c.Label("rejected")
			return
		}
		if err != nil {
			c.Failf("BuildIR: %v", err)
		}
		_ = app
		// every caller's path
		walk := func(callee int, from ir.IRNode, clientNS string) {
			s := a.svcs[callee]
			want := s.path()
			node := from
			var got []string
			side := clientNS
			for step := 0; node != nil && step < 50; step++ {
				got = append(got, node.Name())
				at := ""
				switch x := node.(type) {
				case *sServer:
					at = x.ns
					node = x.next
				case *sClient:
					at = x.ns
					got = append(got, x.addr.Name())
					if x.addr.GetDestination() == nil {
						c.Failf("the address %s has no server", x.addr.Name())
					}
					if x.addr.Dial == nil || x.addr.Bind == nil {
						c.Failf("the address %s lacks its dial or bind configuration", x.addr.Name())
					}
					srv := x.addr.Server
					if !owner[callee][srv.ns] {
						c.Failf("the server of %s is in %s, expected in one of %v", name(callee), srv.ns, keys(owner[callee]))
					}
					if at != side {
						c.Failf("%s is in %s, but the caller is in %s", got[len(got)-2], at, side)
					}
					side = srv.ns
					node = srv
					continue
				case snode:
					at = x.sn().ns
					node = x.sn().next
				default:
					c.Failf("unexpected node %T on the path", node)
				}
				if at != side {
					c.Failf("%s is in %s, expected in %s", got[len(got)-1], at, side)
				}
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Failf("calls to %s from %s pass through\n      %v, expected\n      %v", name(callee), clientNS, got, want)
			}
		}
		for i, s := range a.svcs {
			for ns := range owner[i] {
				impl := a.built[ns+"|"+name(i)+".impl"]
				if impl == nil {
					c.Failf("%s is not built in %s", name(i), ns)
				}
				for _, callee := range s.calls {
					walk(callee, impl.sn().refs[callee], ns)
				}
			}
		}
		for k := range a.built {
			if ns, nm, _ := strings.Cut(k, "|"); strings.HasSuffix(nm, ".impl") {
				var i int
				fmt.Sscanf(nm, "svc%d.impl", &i)
				if !owner[i][ns] {
					c.Failf("%s is built in %s, expected in %v", nm, ns, keys(owner[i]))
				}
			}
		}
		for _, s := range rootCalls {
			// at the top the caller is the application itself: its nodes include the head of the path
			head := a.svcs[s].path()[0]
			for _, ch := range app.Children {
				if ch.Name() == head {
					walk(s, ch, "app")
				}
			}
		}
	})
}

func TestC03SpecErrors(t *testing.T) {
	h.Check(t, h.Opts{Quick: 1500, Thorough: 30000, Hang: h30,
		Rule: "a case is a spec with up to 4 good definitions in which plugins report errors (directly, or by declaring an undefined node unique or pointing at it) or not; non-trivial if an error was reported"}, func(t *rapid.T, c *h.Case) {
		spec := wiring.NewWiringSpec("app")
		var want []string
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			nm := fmt.Sprint("good", i)
			spec.Define(nm, &kind0{}, func(wiring.Namespace) (ir.IRNode, error) { return &kind0{gnode{name: nm}}, nil })
			switch rapid.IntRange(0, 7).Draw(t, "error") {
			case 0:
				e := fmt.Sprintf("reported-%d-%%d", i)
				c.Logf("AddError %s", e)
				spec.AddError(errors.New(e))
				want = append(want, e)
			case 1:
				c.Logf("RequireUniqueness of the undefined miss%d", i)
				spec.Alias(fmt.Sprint("al", i), fmt.Sprint("miss", i))
				pointer.RequireUniqueness(spec, fmt.Sprint("al", i), &ir.ApplicationNode{})
				want = append(want, fmt.Sprint("miss", i))
			case 2:
				c.Logf("pointer to the undefined gone%d", i)
				pointer.CreatePointer[*kind0](spec, fmt.Sprint("ptr", i), fmt.Sprint("gone", i))
				want = append(want, fmt.Sprint("gone", i))
			case 3:
				c.Logf("RequireUniqueness of good%d, which is not an alias", i)
				pointer.RequireUniqueness(spec, nm, &ir.ApplicationNode{})
				want = append(want, nm)
			}
		}
		var reqs []string
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(t, "req") {
				reqs = append(reqs, fmt.Sprint("good", i))
			}
		}
		if len(reqs) == 0 {
			reqs = []string{"good0"}
		}
		c.Logf("build %v", reqs)
		_, err := spec.BuildIR(reqs...)
		if (err != nil) != (len(want) > 0) {
			c.Failf("BuildIR: err=%v, but the errors reported were %v", err, want)
		}
		for _, w := range want {
			if !strings.Contains(err.Error(), w) || !strings.Contains(spec.Err().Error(), w) {
				c.Failf("the error does not mention %q: %v", w, err)
			}
		}
		c.NonTrivial(len(want) > 0)
	})
}
