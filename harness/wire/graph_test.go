package wire

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/namespaceutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"pgregory.net/rapid"
	"verif/harness/h"
)

// Synthetic node kinds. Namespace handlers accept or refuse by kind.
type gnode struct {
	def  *gdef
	name string
	at   string            // path of the namespace it was built in
	refs map[int]ir.IRNode // what its references gave it
	seq  int
}

func (n *gnode) Name() string   { return n.name }
func (n *gnode) String() string { return n.name + "@" + n.at }
func (n *gnode) base() *gnode   { return n }

type based interface {
	ir.IRNode
	base() *gnode
}

type (
	kind0 struct{ gnode }
	kind1 struct{ gnode }
	kind2 struct{ gnode }
	kind3 struct{ gnode }
	kindM struct { // metadata
		ir.IRMetadata
		gnode
	}
	kindNS struct { // a namespace
		gnode
		run      *grun
		path     string
		inside   map[string]int
		edges    map[string]int
		nodes    map[string]ir.IRNode
		edgeNode map[string]ir.IRNode
	}
	kindNS2 struct{ kindNS }
)

func (n *kindM) Name() string          { return n.gnode.Name() }
func (n *kindM) String() string        { return n.gnode.String() }
func (n *kindM) ImplementsIRMetadata() {}

const nKinds = 5 // 0-3 and M(4); namespaces are kinds 5 and 6
var kindName = []string{"k0", "k1", "k2", "k3", "meta", "ns", "ns2"}

func kindValue(k int) any {
	switch k {
	case 0:
		return &kind0{}
	case 1:
		return &kind1{}
	case 2:
		return &kind2{}
	case 3:
		return &kind3{}
	case 4:
		return &kindM{}
	case 5:
		return &kindNS{}
	}
	return &kindNS2{}
}

func kindOf(v any) int {
	switch v.(type) {
	case *kind0:
		return 0
	case *kind1:
		return 1
	case *kind2:
		return 2
	case *kind3:
		return 3
	case *kindM:
		return 4
	case *kindNS:
		return 5
	case *kindNS2:
		return 6
	}
	return -1
}

func (n *kindNS) Accepts(t any) bool {
	k := kindOf(t)
	return k >= 0 && n.def.accepts[k]
}

func (n *kindNS) AddEdge(name string, node ir.IRNode) error {
	if n.def.failEdge != "" && n.def.failEdge == node.Name() {
		return fmt.Errorf("edge-fault-%s", node.Name())
	}
	n.edges[node.Name()]++
	n.edgeNode[node.Name()] = node
	return nil
}

func (n *kindNS) AddNode(name string, node ir.IRNode) error {
	if n.def.failNode != "" && n.def.failNode == node.Name() {
		return fmt.Errorf("node-fault-%s", node.Name())
	}
	n.inside[node.Name()]++
	n.nodes[node.Name()] = node
	return nil
}

type gref struct {
	name        string // as referenced: a def name or an alias
	target      int    // index of the def, -1 if it does not exist
	instantiate bool
	tolerant    bool // errors of this reference are ignored
	wrongType   bool // asks for a node type that the target is not
}

type gdef struct {
	idx     int
	name    string
	kind    int
	refs    []gref
	proxyOf int // -1, or the def whose node this definition returns
	sameOf  int // 0, or 1 + the def of the same kind whose node this definition returns, without being a proxy
	// namespaces
	accepts  [7]bool
	children []gref
	deferred bool // children are instantiated by namespaceutil (deferred), else immediately
	puts     string
	nsName   string // the name given to DeriveNamespace, if it isn't the name of the definition
	// faults
	fail     bool
	failEdge string
	failNode string
	unique   bool // referenced through a uniqueness check
}

type graph struct {
	defs     []*gdef
	aliases  [][2]string
	props    []string // names that only have properties
	requests []gref
	cyc      bool
}

// what one build did
type grun struct {
	builds map[string]int // "path|name" -> how often built
	nodes  map[string]ir.IRNode
	nss    map[string]*kindNS // by path
	paths  map[wiring.Namespace]string
	seq    int
}

func newRun() *grun {
	return &grun{builds: map[string]int{}, nodes: map[string]ir.IRNode{}, nss: map[string]*kindNS{}, paths: map[wiring.Namespace]string{}}
}

func (g *graph) spec(run **grun) wiring.WiringSpec {
	spec := wiring.NewWiringSpec("app")
	for _, d := range g.defs {
		d := d
		var opts []wiring.WiringOpts
		if d.proxyOf >= 0 {
			opts = append(opts, wiring.WiringOpts{ProxyNode: true})
		}
		spec.Define(d.name, kindValue(d.kind), func(ns wiring.Namespace) (ir.IRNode, error) {
			return g.build(*run, d, ns)
		}, opts...)
		if d.kind >= 5 && d.deferred {
			for _, ch := range d.children {
				namespaceutil.AddNodeTo[kind0](spec, d.name, ch.name)
			}
		}
	}
	for _, a := range g.aliases {
		spec.Alias(a[0], a[1])
	}
	for _, p := range g.props {
		spec.SetProperty(p, "some", "value")
	}
	for _, d := range g.defs {
		if d.unique {
			spec.Alias("uniq_"+d.name, d.name)
			pointer.RequireUniqueness(spec, "uniq_"+d.name, &ir.ApplicationNode{})
		}
	}
	return spec
}

func nsPath(run *grun, ns wiring.Namespace) string {
	return run.paths[ns] // empty for the application
}

func (g *graph) build(run *grun, d *gdef, ns wiring.Namespace) (ir.IRNode, error) {
	path := nsPath(run, ns)
	run.builds[path+"|"+d.name]++
	if d.fail {
		return nil, fmt.Errorf("build-fault-%s", d.name)
	}
	if d.proxyOf >= 0 {
		var n ir.IRNode
		err := ns.Get(g.defs[d.proxyOf].name, &n)
		return n, err
	}
	if d.sameOf > 0 {
		var n ir.IRNode
		err := ns.Get(g.defs[d.sameOf-1].name, &n)
		return n, err
	}
	run.seq++
	b := gnode{def: d, name: d.name, at: path, refs: map[int]ir.IRNode{}, seq: run.seq}
	get := func(ns wiring.Namespace, r gref) (ir.IRNode, error) {
		if r.wrongType {
			switch g.defs[r.target].kind {
			case 0:
				var n *kind1
				err := ns.Get(r.name, &n)
				return nil, err
			default:
				var n *kind0
				err := ns.Get(r.name, &n)
				return nil, err
			}
		}
		var n ir.IRNode
		var err error
		if r.instantiate {
			err = ns.Instantiate(r.name, &n)
		} else {
			err = ns.Get(r.name, &n)
		}
		return n, err
	}
	for i, r := range d.refs {
		n, err := get(ns, r)
		if err != nil {
			if r.tolerant {
				continue
			}
			return nil, err
		}
		b.refs[i] = n
	}
	var out ir.IRNode
	switch d.kind {
	case 0:
		out = &kind0{b}
	case 1:
		out = &kind1{b}
	case 2:
		out = &kind2{b}
	case 3:
		out = &kind3{b}
	case 4:
		out = &kindM{gnode: b}
	default:
		k := &kindNS2{kindNS{gnode: b, run: run, path: path + "/" + d.name, inside: map[string]int{}, edges: map[string]int{}, nodes: map[string]ir.IRNode{}, edgeNode: map[string]ir.IRNode{}}}
		handler := &k.kindNS
		if d.kind == 6 {
			out = k
		} else {
			out = handler
		}
		run.nss[handler.path] = handler
		if d.deferred {
			child, err := namespaceutil.InstantiateNamespace(ns, handler)
			if err != nil {
				return nil, err
			}
			run.paths[child] = handler.path
		} else {
			nsName := d.nsName
			if nsName == "" {
				nsName = d.name
			}
			child, err := ns.DeriveNamespace(nsName, handler)
			if err != nil {
				return nil, err
			}
			run.paths[child] = handler.path
			for _, ch := range d.children {
				if _, err := get(child, ch); err != nil && !ch.tolerant {
					return nil, err
				}
			}
			if d.puts != "" {
				putName := d.puts + handler.path
				p := &kind2{gnode{def: nil, name: putName, at: d.name}}
				if err := child.Put(putName, p); err != nil {
					return nil, err
				}
				for _, again := range []func(string, any) error{child.Get, child.Instantiate, child.Get} {
					var n ir.IRNode
					if err := again(putName, &n); err != nil {
						return nil, fmt.Errorf("%s was put into namespace %s but cannot be gotten from it: %w", putName, handler.path, err)
					}
					if n != ir.IRNode(p) {
						return nil, fmt.Errorf("%s was put into namespace %s but it returns %v", putName, handler.path, n)
					}
				}
			}
		}
	}
	run.nodes[path+"|"+d.name] = out
	return out, nil
}

// -------- the model: a worklist over (namespace, name)

type mns struct {
	path   string
	def    *gdef // nil for the application
	parent *mns
	nodes  map[string]bool
	edges  map[string]bool
}

type gmodel struct {
	g      *graph
	root   *mns
	nss    map[string]*mns
	built  map[string]*mns // "path|name"
	work   []func()
	done   map[string]bool
	clash  bool // sibling namespaces have the same name
	multi  bool // a namespace definition is built in two places
	faults map[string]bool
	uniq   map[int]map[string]bool
}

func (m *gmodel) owner(ns *mns, kind int) *mns {
	for ns.def != nil && !ns.def.accepts[kind] {
		ns = ns.parent
	}
	return ns
}

func (m *gmodel) get(ns *mns, r gref) {
	if r.target < 0 {
		m.faults[r.name] = true
		return
	}
	d := m.g.defs[r.target]
	if r.wrongType {
		m.faults["kind"+[]string{"0", "1", "2", "3", "M", "NS", "NS2"}[d.kind]] = true
	}
	if strings.HasPrefix(r.name, "uniq_") {
		o := m.owner(ns, d.kind)
		if m.uniq[d.idx] == nil {
			m.uniq[d.idx] = map[string]bool{}
		}
		m.uniq[d.idx][o.path] = true
		if len(m.uniq[d.idx]) > 1 {
			m.faults[d.name] = true
		}
		// the check node itself returns the built node; edges for it are recorded like for any other
	}
	m.getDef(ns, d, !r.instantiate)
}

func (m *gmodel) getDef(ns *mns, d *gdef, addEdge bool) {
	key := fmt.Sprintf("%s|%s|%v", ns.path, d.name, addEdge)
	if m.done[key] {
		return
	}
	m.done[key] = true
	node := d
	for node.sameOf > 0 {
		node = m.g.defs[node.sameOf-1]
	}
	for ns.def != nil && !ns.def.accepts[d.kind] {
		if addEdge && d.kind != 4 && d.proxyOf < 0 {
			ns.edges[node.name] = true
			if ns.def.failEdge == node.name {
				m.faults["edge-fault-"+node.name] = true
			}
		}
		ns = ns.parent
	}
	bk := ns.path + "|" + d.name
	if m.built[bk] != nil {
		return
	}
	m.built[bk] = ns
	if d.fail {
		m.faults["build-fault-"+d.name] = true
		return
	}
	if d.proxyOf >= 0 {
		m.getDef(ns, m.g.defs[d.proxyOf], true)
		return
	}
	if d.sameOf > 0 {
		m.getDef(ns, m.g.defs[d.sameOf-1], true)
		return
	}
	ns.nodes[d.name] = true
	if ns.def != nil && ns.def.failNode == d.name {
		m.faults["node-fault-"+d.name] = true
	}
	for _, r := range d.refs {
		if r.tolerant {
			// the target is a faulty leaf: built (without success) in its owner
			continue
		}
		m.get(ns, r)
	}
	if d.kind >= 5 {
		for _, other := range m.nss {
			m.multi = m.multi || other.def == d
			m.clash = m.clash || other.parent == ns && d.nsName != "" && other.def.nsName == d.nsName
		}
		child := &mns{path: ns.path + "/" + d.name, def: d, parent: ns, nodes: map[string]bool{}, edges: map[string]bool{}}
		m.nss[child.path] = child
		for _, ch := range d.children {
			if !ch.tolerant {
				m.get(child, ch)
			}
		}
		if d.puts != "" {
			o := child
			for o.def != nil && !o.def.accepts[2] {
				o.edges[d.puts+child.path] = true
				o = o.parent
			}
			o.nodes[d.puts+child.path] = true
		}
	}
}

func (g *graph) model() *gmodel {
	m := &gmodel{g: g, nss: map[string]*mns{}, built: map[string]*mns{}, done: map[string]bool{}, faults: map[string]bool{}, uniq: map[int]map[string]bool{}}
	m.root = &mns{path: "", nodes: map[string]bool{}, edges: map[string]bool{}}
	for _, r := range g.requests {
		m.get(m.root, r)
	}
	if m.clash {
		for _, d := range g.defs {
			d.nsName = ""
		}
	}
	return m
}

// genGraph draws an acyclic graph of definitions without faults.
func genGraph(t *rapid.T, c *h.Case) *graph {
	g := &graph{}
	n := rapid.IntRange(2, 11).Draw(t, "defs")
	for i := 0; i < n; i++ {
		d := &gdef{idx: i, proxyOf: -1}
		d.kind = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 5, 5, 5, 6}).Draw(t, "kind")
		if i == n-1 && d.kind >= 5 {
			d.kind = 0
		}
		d.name = fmt.Sprintf("%s_%d", kindName[d.kind], i)
		g.defs = append(g.defs, d)
	}
	// aliases, possibly chained
	aliasFor := map[int][]string{}
	for i := rapid.IntRange(0, 4).Draw(t, "aliases"); i > 0; i-- {
		tgt := rapid.IntRange(0, n-1).Draw(t, "alias-target")
		to := g.defs[tgt].name
		if l := aliasFor[tgt]; len(l) > 0 && rapid.Bool().Draw(t, "chain") {
			to = l[len(l)-1]
		}
		a := fmt.Sprintf("alias%d", i)
		g.aliases = append(g.aliases, [2]string{a, to})
		aliasFor[tgt] = append(aliasFor[tgt], a)
		c.Logf("%s -> %s", a, to)
	}
	ref := func(lo int) gref {
		tgt := rapid.IntRange(lo, n-1).Draw(t, "ref")
		r := gref{name: g.defs[tgt].name, target: tgt}
		if l := aliasFor[tgt]; len(l) > 0 && rapid.Bool().Draw(t, "use-alias") {
			r.name = rapid.SampledFrom(l).Draw(t, "alias")
		}
		r.instantiate = rapid.IntRange(0, 4).Draw(t, "instantiate") == 0
		return r
	}
	for i, d := range g.defs {
		if i < n-1 {
			for k := rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "nrefs"); k > 0; k-- {
				d.refs = append(d.refs, ref(i+1))
			}
		}
		if d.kind >= 5 {
			for k := 0; k < 7; k++ {
				d.accepts[k] = rapid.IntRange(0, 2).Draw(t, "accepts") == 0 || (k == 0 && rapid.Bool().Draw(t, "accept0"))
			}
			d.deferred = rapid.Bool().Draw(t, "deferred")
			for k := rapid.IntRange(0, 3).Draw(t, "nchildren"); k > 0; k-- {
				r := ref(i + 1)
				if d.deferred {
					r.instantiate = false
				}
				d.children = append(d.children, r)
			}
			if !d.deferred && rapid.IntRange(0, 5).Draw(t, "puts") == 0 {
				d.puts = "put_" + d.name
			}
			if !d.deferred && rapid.Bool().Draw(t, "nsname") {
				d.nsName = "main"
			}
		}
	}
	// a proxy definition returning a node nobody else refers to
	if rapid.IntRange(0, 3).Draw(t, "proxy") == 0 {
		leaf := &gdef{idx: n, proxyOf: -1, kind: rapid.IntRange(0, 3).Draw(t, "proxied-kind")}
		leaf.name = fmt.Sprintf("%s_proxied", kindName[leaf.kind])
		p := &gdef{idx: n + 1, proxyOf: n, kind: rapid.SampledFrom([]int{0, 1, 2, 3, 5, 6}).Draw(t, "proxy-kind"), name: "proxy"}
		g.defs = append(g.defs, leaf, p)
		for _, d := range g.defs[:n] {
			if rapid.IntRange(0, 2).Draw(t, "use-proxy") == 0 {
				d.refs = append(d.refs, gref{name: "proxy", target: n + 1})
			}
		}
	}
	// a definition that returns the node of another definition of its kind
	if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
		tgt := rapid.IntRange(0, n-1).Draw(t, "same-of")
		if d := g.defs[tgt]; d.kind < 4 {
			x := &gdef{idx: len(g.defs), proxyOf: -1, sameOf: tgt + 1, kind: d.kind, name: "same_" + d.name}
			g.defs = append(g.defs, x)
			for _, d := range g.defs[:tgt] {
				if rapid.IntRange(0, 1).Draw(t, "use-same") == 0 {
					r := gref{name: x.name, target: x.idx, instantiate: rapid.IntRange(0, 4).Draw(t, "instantiate") == 0}
					k := rapid.IntRange(0, len(d.refs)).Draw(t, "pos")
					d.refs = append(d.refs[:k:k], append([]gref{r}, d.refs[k:]...)...)
				}
			}
		}
	}
	for k := rapid.IntRange(1, 3).Draw(t, "nrequests"); k > 0; k-- {
		r := ref(0)
		if rapid.Bool().Draw(t, "first") {
			r = gref{name: g.defs[0].name, target: 0}
		}
		r.instantiate = false
		g.requests = append(g.requests, r)
	}
	return g
}

func (g *graph) log(c *h.Case) {
	rs := func(l []gref) string {
		var s []string
		for _, r := range l {
			x := r.name
			if r.instantiate {
				x += "(instantiate)"
			}
			if r.tolerant {
				x += "(ignoring errors)"
			}
			if r.wrongType {
				x += "(as a wrong type)"
			}
			s = append(s, x)
		}
		return strings.Join(s, ", ")
	}
	for _, d := range g.defs {
		s := fmt.Sprintf("%s refs [%s]", d.name, rs(d.refs))
		if d.proxyOf >= 0 {
			s += " proxy of " + g.defs[d.proxyOf].name
		}
		if d.sameOf > 0 {
			s += " returns the node of " + g.defs[d.sameOf-1].name
		}
		if d.kind >= 5 {
			var acc []string
			for k, a := range d.accepts {
				if a {
					acc = append(acc, kindName[k])
				}
			}
			s += fmt.Sprintf(" children [%s] deferred=%v accepts %v puts %q named %q", rs(d.children), d.deferred, acc, d.puts, d.nsName)
		}
		if d.fail {
			s += " FAILS"
		}
		if d.failEdge != "" {
			s += " FAILS on edge " + d.failEdge
		}
		if d.failNode != "" {
			s += " FAILS on node " + d.failNode
		}
		if d.unique {
			s += " unique"
		}
		c.Logf("%s", s)
	}
	for _, a := range g.aliases {
		c.Logf("alias %s -> %s", a[0], a[1])
	}
	if len(g.props) > 0 {
		c.Logf("only properties: %v", g.props)
	}
	c.Logf("build %s", rs(g.requests))
}

func keys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (g *graph) requestNames() []string {
	var l []string
	for _, r := range g.requests {
		l = append(l, r.name)
	}
	return l
}

func TestC02(t *testing.T) {
	h.Check(t, h.Opts{Quick: 30000, Thorough: 600000, Hang: h30,
		Rule: "a case is an acyclic graph of up to 11 definitions of 7 kinds (namespaces that accept some kinds, metadata, proxies) with aliases, built once or twice from up to 3 requested names; non-trivial if nodes are built in at least two namespaces and an edge crosses one"}, func(t *rapid.T, c *h.Case) {
		g := genGraph(t, c)
		m := g.model()
		g.log(c)
		var run *grun
		spec := g.spec(&run)
		var prev string
		for round := 0; round < 2; round++ {
			run = newRun()
			var app *ir.ApplicationNode
			var err error
			if p := h.Try(func() { app, err = spec.BuildIR(g.requestNames()...) }); p != nil {
				c.Failf("BuildIR panicked: %v", p)
			}
			if err != nil {
				c.Failf("BuildIR: %v", err)
			}
			dump := g.compare(c, m, run, app)
			if round == 1 && dump != prev {
				c.Failf("building again gives another application:\n%s\n----\n%s", prev, dump)
			}
			prev = dump
		}
		crossed := false
		for _, ns := range m.nss {
			crossed = crossed || len(ns.edges) > 0
		}
		inner := false
		for _, ns := range m.nss {
			inner = inner || len(ns.nodes) > 0
		}
		c.NonTrivial(crossed && inner)
	})
}

func (g *graph) compare(c *h.Case, m *gmodel, run *grun, app *ir.ApplicationNode) string {
	var dump strings.Builder
	// exactly the reachable nodes, once each, in the right namespace
	for k, n := range run.builds {
		if m.built[k] == nil {
			c.Failf("%s is built (namespace|name) but should not be there", k)
		}
		if n != 1 {
			c.Failf("%s is built %d times", k, n)
		}
	}
	for _, k := range keys(m.built) {
		if run.builds[k] == 0 {
			c.Failf("%s (namespace|name) is not built", k)
		}
	}
	rootNodes := map[string]int{}
	rootByName := map[string]ir.IRNode{}
	for _, ch := range app.Children {
		rootNodes[ch.Name()]++
		rootByName[ch.Name()] = ch
	}
	check := func(what string, want map[string]bool, got map[string]int) {
		if fmt.Sprint(keys(want)) != fmt.Sprint(keys(got)) {
			c.Failf("%s: %v, expected %v", what, keys(got), keys(want))
		}
		for n, k := range got {
			if k != 1 {
				c.Failf("%s: %s is recorded %d times", what, n, k)
			}
		}
		fmt.Fprintf(&dump, "%s: %v\n", what, keys(got))
	}
	check("nodes of the application", m.root.nodes, rootNodes)
	if len(run.nss) != len(m.nss) {
		c.Failf("namespaces %v, expected %v", keys(run.nss), keys(m.nss))
	}
	nodeAt := func(path, name string) ir.IRNode {
		if path == "" {
			return rootByName[name]
		}
		return run.nss[path].nodes[name]
	}
	for _, p := range keys(m.nss) {
		check("nodes of namespace "+p, m.nss[p].nodes, run.nss[p].inside)
		check("edges of namespace "+p, m.nss[p].edges, run.nss[p].edges)
		for name, node := range run.nss[p].edgeNode {
			o := m.nss[p]
			d := g.byName(name)
			if d == nil {
				continue
			}
			o = m.owner(o, d.kind)
			if nodeAt(o.path, name) != node {
				c.Failf("the edge %s of namespace %s is not the node built in %q", name, p, o.path)
			}
		}
	}
	// references resolve to the one node of the owner
	for k, node := range run.nodes {
		path := strings.SplitN(k, "|", 2)[0]
		ns := m.root
		if path != "" {
			ns = m.nss[path]
		}
		d := node.(based).base().def
		if g.nodeFor(m, ns, d, nodeAt) != node {
			c.Failf("%s is not the node recorded in its namespace", k)
		}
		for i, r := range d.refs {
			want := g.nodeFor(m, ns, g.defs[r.target], nodeAt)
			if got := node.(based).base().refs[i]; got != want || want == nil {
				c.Failf("%s got %v for %s, expected %v", k, got, r.name, want)
			}
		}
	}
	return dump.String()
}

func (g *graph) byName(n string) *gdef {
	for _, d := range g.defs {
		if d.name == n {
			return d
		}
	}
	return nil
}

func (g *graph) nodeFor(m *gmodel, ns *mns, d *gdef, nodeAt func(string, string) ir.IRNode) ir.IRNode {
	o := m.owner(ns, d.kind)
	if d.proxyOf >= 0 {
		return g.nodeFor(m, o, g.defs[d.proxyOf], nodeAt)
	}
	if d.sameOf > 0 {
		return g.nodeFor(m, o, g.defs[d.sameOf-1], nodeAt)
	}
	return nodeAt(o.path, d.name)
}
