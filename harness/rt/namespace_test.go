package rt

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"pgregory.net/rapid"
	"verif/harness/h"
)

// withFlags runs f with a fresh command line.
func withFlags(args []string, f func()) {
	oldF, oldA := flag.CommandLine, os.Args
	flag.CommandLine = flag.NewFlagSet("verif", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	os.Args = append([]string{"verif"}, args...)
	defer func() { flag.CommandLine, os.Args = oldF, oldA }()
	f()
}

type nsNode struct {
	name  string
	level int
	deps  []any
}

type nsRunnable struct {
	nsNode
	release chan struct{}
	retErr  error
	started atomic.Int32
	stopped atomic.Bool
	sawDone atomic.Bool
	nodone  bool // ignore cancellation
}

func (r *nsRunnable) Run(ctx context.Context) error {
	r.started.Add(1)
	if r.nodone {
		<-r.release
	} else {
		select {
		case <-r.release:
		case <-ctx.Done():
			r.sawDone.Store(true)
		}
	}
	time.Sleep(50 * time.Microsecond)
	r.stopped.Store(true)
	return r.retErr
}

type nsDef struct {
	name     string
	deps     []string
	fail     bool
	runnable bool
	alias    bool // builds no instance of its own: it is the same instance as its last dependency
}
type nsKey struct {
	level int
	name  string
}

// nsWorld is a chain of namespaces (root first) with definitions, plus the model of what they must do.
type nsWorld struct {
	defs   []map[string]nsDef // per level
	mu     sync.Mutex
	builds map[nsKey]int // successful builds
	made   map[nsKey]any
	runs   map[nsKey]*nsRunnable
	ns     []*golang.Namespace
	slow   bool // widen the window in which a node is being built
}

func (w *nsWorld) owner(level int, name string) int {
	for ; level >= 0; level-- {
		if _, ok := w.defs[level][name]; ok {
			return level
		}
	}
	return -1
}
func (w *nsWorld) ok(level int, name string) bool {
	o := w.owner(level, name)
	if o < 0 {
		return false
	}
	d := w.defs[o][name]
	for _, dep := range d.deps {
		if !w.ok(o, dep) {
			return false
		}
	}
	return !d.fail
}

// all nodes that building (level,name) builds successfully along the way
func (w *nsWorld) touches(level int, name string, out map[nsKey]bool) bool {
	o := w.owner(level, name)
	if o < 0 {
		return false
	}
	d := w.defs[o][name]
	for _, dep := range d.deps {
		if !w.touches(o, dep, out) {
			return false
		}
	}
	if d.fail {
		return false
	}
	out[nsKey{o, name}] = true
	return true
}

var errBuild = errors.New("scripted build failure")

func genWorld(t *rapid.T, c *h.Case, maxLevels int, failures, runnables bool) *nsWorld {
	w := &nsWorld{builds: map[nsKey]int{}, made: map[nsKey]any{}, runs: map[nsKey]*nsRunnable{}}
	levels := rapid.IntRange(1, maxLevels).Draw(t, "levels")
	for l := 0; l < levels; l++ {
		m := map[string]nsDef{}
		ks0 := rapid.SliceOfNDistinct(rapid.IntRange(0, 6), 1, 6, rapid.ID[int]).Draw(t, "names")
		sort.Ints(ks0)
		w.defs = append(w.defs, m)
		for _, k := range ks0 {
			d := nsDef{name: fmt.Sprint("n", k)}
			for j := 0; j < k; j++ {
				// mostly names that exist
				if rapid.IntRange(0, 1).Draw(t, "dep") == 0 && (w.owner(l, fmt.Sprint("n", j)) >= 0 || rapid.IntRange(0, 20).Draw(t, "undefined") == 0) {
					d.deps = append(d.deps, fmt.Sprint("n", j))
				}
			}
			d.fail = failures && rapid.IntRange(0, 12).Draw(t, "fail") == 0
			d.runnable = runnables && rapid.IntRange(0, 1).Draw(t, "run") == 0
			d.alias = len(d.deps) > 0 && rapid.IntRange(0, 3).Draw(t, "alias") == 0
			m[d.name] = d
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Logf("level %d: %+v", l, m[k])
		}
	}
	return w
}

func (w *nsWorld) build(n *golang.Namespace, level int, d nsDef) (any, error) {
	node := nsNode{name: d.name, level: level}
	for _, dep := range d.deps {
		var v any
		if err := n.Get(dep, &v); err != nil {
			return nil, fmt.Errorf("dependency %s of %s: %w", dep, d.name, err)
		}
		node.deps = append(node.deps, v)
	}
	if w.slow {
		time.Sleep(10 * time.Microsecond)
	}
	if d.fail {
		return nil, fmt.Errorf("%s: %w", d.name, errBuild)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	k := nsKey{level, d.name}
	w.builds[k]++
	if d.alias {
		w.made[k] = node.deps[len(node.deps)-1]
		return w.made[k], nil
	}
	if d.runnable {
		r := &nsRunnable{nsNode: node, release: make(chan struct{})}
		w.runs[k], w.made[k] = r, r
		return r, nil
	}
	w.made[k] = &node
	return &node, nil
}

func (w *nsWorld) start(c *h.Case, instantiate [][]string) error {
	for l := range w.defs {
		b := golang.NewNamespaceBuilder(fmt.Sprint("ns", l))
		for _, d := range w.defs[l] {
			b.Define(d.name, func(n *golang.Namespace) (any, error) { return w.build(n, l, d) })
		}
		if instantiate != nil {
			for _, n := range instantiate[l] {
				b.Instantiate(n)
			}
		}
		var ns *golang.Namespace
		var err error
		if l == 0 {
			ns, err = b.Build(bg)
		} else {
			ns, err = b.BuildWithParent(w.ns[l-1])
		}
		if err != nil {
			return err
		}
		w.ns = append(w.ns, ns)
	}
	return nil
}

// pick chooses a name that can be reached from the level, or one time in odds any name
func (w *nsWorld) pick(t *rapid.T, level int, odds int) string {
	var names []string
	for i := 0; i < 7; i++ {
		if n := fmt.Sprint("n", i); w.owner(level, n) >= 0 {
			names = append(names, n)
		}
	}
	if rapid.IntRange(1, odds).Draw(t, "any") == 1 {
		return fmt.Sprint("n", rapid.IntRange(0, 7).Draw(t, "name"))
	}
	return rapid.SampledFrom(names).Draw(t, "name")
}

func (w *nsWorld) stop() {
	for _, r := range w.runs {
		select {
		case <-r.release:
		default:
			close(r.release)
		}
	}
	for _, n := range w.ns {
		n.Shutdown(false)
	}
}

func (w *nsWorld) checkGet(level int, name string) string {
	var v any
	err := w.ns[level].Get(name, &v)
	if !w.ok(level, name) {
		if err == nil {
			return fmt.Sprintf("Get(%s) at level %d returned %v although it cannot be built", name, level, v)
		}
		if v != nil {
			return fmt.Sprintf("failed Get(%s) at level %d produced %v", name, level, v)
		}
		out := map[nsKey]bool{}
		if o := w.owner(level, name); o >= 0 && !w.touches(level, name, out) && !errors.Is(err, errBuild) && !strings.Contains(err.Error(), "unknown") {
			return fmt.Sprintf("Get(%s) at level %d returned an unrelated error %v", name, level, err)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("Get(%s) at level %d: %v", name, level, err)
	}
	o := w.owner(level, name)
	w.mu.Lock()
	want := w.made[nsKey{o, name}]
	w.mu.Unlock()
	if v == nil || v != want {
		return fmt.Sprintf("Get(%s) at level %d returned %v, expected the instance of level %d", name, level, v, o)
	}
	return ""
}

func (w *nsWorld) checkOnce(c *h.Case, touched map[nsKey]bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, n := range w.builds {
		if n > 1 {
			c.Failf("%v was built %d times", k, n)
		}
		if touched != nil && !touched[k] {
			c.Failf("%v was built although nobody needed it", k)
		}
	}
}

func (w *nsWorld) depsOf(d nsDef) []string { return d.deps }

// every built node holds the same dependency instances everybody else gets
func (w *nsWorld) checkDeps(c *h.Case) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for k, v := range w.made {
		if w.defs[k.level][k.name].alias {
			continue
		}
		var node *nsNode
		switch x := v.(type) {
		case *nsNode:
			node = x
		case *nsRunnable:
			node = &x.nsNode
		}
		for i, dep := range w.defs[k.level][k.name].deps {
			if want := w.made[nsKey{w.owner(k.level, dep), dep}]; node.deps[i] != want {
				c.Failf("%v was built with another instance of %s than everyone else's", k, dep)
			}
		}
	}
}

func TestC36_Graph(t *testing.T) {
	h.Check(t, h.Opts{Quick: 6000, Thorough: 200000, Hang: 60 * time.Second, Rule: "1-3 nested namespaces with random acyclic node definitions (shadowing allowed), failing builders and eagerly instantiated nodes; random Gets are compared with a model (owner, instance identity, build count, error); non-trivial = at least one node with a dependency is built or a build fails"}, func(t *rapid.T, c *h.Case) {
		w := genWorld(t, c, 3, true, true)
		defer w.stop()
		touched := map[nsKey]bool{}
		inst := make([][]string, len(w.defs))
		expectErr := false
		for l := range w.defs {
			for i := rapid.IntRange(0, 2).Draw(t, "inst"); i > 0; i-- {
				n := w.pick(t, l, 30)
				inst[l] = append(inst[l], n)
				if !expectErr {
					w.touches(l, n, touched)
					if !w.ok(l, n) {
						expectErr = true
					}
				}
			}
		}
		c.Logf("instantiate %v", inst)
		err := w.start(c, inst)
		if (err != nil) != expectErr {
			c.Failf("building the namespaces returned %v, expected failure=%v", err, expectErr)
		}
		w.checkOnce(c, touched)
		if err != nil {
			return
		}
		w.mu.Lock()
		for k := range touched {
			if w.builds[k] != 1 {
				w.mu.Unlock()
				c.Failf("%v should have been built eagerly", k)
			}
		}
		w.mu.Unlock()
		for i := rapid.IntRange(1, 10).Draw(t, "gets"); i > 0; i-- {
			l := rapid.IntRange(0, len(w.defs)-1).Draw(t, "level")
			n := w.pick(t, l, 8)
			c.Logf("get %s at %d", n, l)
			w.touches(l, n, touched)
			if o := w.owner(l, n); o >= 0 && (len(w.defs[o][n].deps) > 0 || w.defs[o][n].fail) {
				c.NonTrivial(true)
			}
			if s := w.checkGet(l, n); s != "" {
				c.Failf("%s", s)
			}
			w.checkOnce(c, touched)
		}
		w.checkDeps(c)
	})
}

func TestC36_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 3000, Thorough: 60000, Hang: 60 * time.Second, Rule: "2-8 goroutines Get overlapping nodes of 1-3 nested namespaces at once; every node is built at most once and everyone gets the same instance; non-trivial = two goroutines want the same node"}, func(t *rapid.T, c *h.Case) {
		w := genWorld(t, c, 3, rapid.Bool().Draw(t, "failures"), false)
		w.slow = true
		defer w.stop()
		if err := w.start(c, nil); err != nil {
			c.Failf("%v", err)
		}
		ng := rapid.IntRange(2, 8).Draw(t, "goroutines")
		type get struct {
			level int
			name  string
		}
		progs := make([][]get, ng)
		touched := map[nsKey]bool{}
		wanted := map[nsKey]int{}
		for g := range progs {
			for i := rapid.IntRange(1, 6).Draw(t, "gets"); i > 0; i-- {
				x := get{rapid.IntRange(0, len(w.defs)-1).Draw(t, "level"), fmt.Sprint("n", rapid.IntRange(0, 6).Draw(t, "get"))}
				progs[g] = append(progs[g], x)
				w.touches(x.level, x.name, touched)
				wanted[nsKey{w.owner(x.level, x.name), x.name}]++
			}
			c.Logf("g%d: %v", g, progs[g])
		}
		for _, n := range wanted {
			c.NonTrivial(n > 1)
		}
		var start, wg sync.WaitGroup
		start.Add(1)
		bad := make(chan string, 100)
		for g := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				for _, x := range progs[g] {
					if s := w.checkGet(x.level, x.name); s != "" {
						bad <- s
						return
					}
				}
			}()
		}
		start.Done()
		wg.Wait()
		select {
		case s := <-bad:
			c.Failf("%s", s)
		default:
		}
		w.checkOnce(c, touched)
		w.checkDeps(c)
	})
}

func TestC36_Await(t *testing.T) {
	h.Check(t, h.Opts{Quick: 2500, Thorough: 40000, Hang: 60 * time.Second, Rule: "runnable nodes are started in 1-4 nested namespaces, somebody awaits one of the namespaces, and the runnables are stopped one by one or by shutting a namespace down; Await must not return while a runnable of the namespace or one derived from it runs, and must return afterwards; non-trivial = a runnable lives in a derived namespace"}, func(t *rapid.T, c *h.Case) {
		w := genWorld(t, c, 4, false, true)
		defer w.stop()
		if err := w.start(c, nil); err != nil {
			c.Failf("%v", err)
		}
		for l := range w.defs {
			for n := range w.defs[l] {
				var v any
				w.ns[l].Get(n, &v)
			}
		}
		target := rapid.IntRange(0, len(w.defs)-1).Draw(t, "await")
		var relevant, all []*nsRunnable
		var keys []nsKey
		for k := range w.runs {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i].level < keys[j].level || keys[i].level == keys[j].level && keys[i].name < keys[j].name
		})
		for _, k := range keys {
			if k.level > target {
				c.NonTrivial(true)
			}
			if k.level >= target {
				relevant = append(relevant, w.runs[k])
			}
			all = append(all, w.runs[k])
		}
		viaShutdown := rapid.Bool().Draw(t, "shutdown")
		c.Logf("await level %d, %d runnables relevant, shutdown=%v", target, len(relevant), viaShutdown)
		early := make(chan string, 1)
		done := make(chan struct{})
		check := func() {
			for _, r := range relevant {
				if !r.stopped.Load() {
					select {
					case early <- fmt.Sprintf("waiting for level %d returned while %s (level %d) still runs", target, r.name, r.level):
					default:
					}
				}
			}
		}
		if viaShutdown {
			w.ns[target].Shutdown(true)
			check()
			close(done)
			for _, r := range all {
				if r.level < target && r.sawDone.Load() {
					c.Failf("shutting down level %d stopped %s of level %d", target, r.name, r.level)
				}
			}
		} else {
			go func() {
				w.ns[target].Await()
				check()
				close(done)
			}()
			perm := rapid.Permutation(all).Draw(t, "order")
			for _, r := range perm {
				if rapid.IntRange(0, 3).Draw(t, "pause") == 0 {
					time.Sleep(100 * time.Microsecond)
				}
				close(r.release)
			}
		}
		<-done
		select {
		case s := <-early:
			c.Failf("%s", s)
		default:
		}
		for _, r := range all {
			for i := 0; r.started.Load() == 0 && i < 100000; i++ {
				time.Sleep(10 * time.Microsecond)
			}
			if r.started.Load() != 1 {
				c.Failf("%s of level %d was run %d times", r.name, r.level, r.started.Load())
			}
		}
	})
}

var argNames = []string{"a.dial_addr", "a.bind_addr", "b-c.dial_addr", "X", "svc.http.addr", "1st.addr"}

func refEnvVar(name string) string { // documented: punctuation becomes underscores, letters upper case
	out := []byte{}
	prevBad := false
	for _, r := range name {
		good := r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
		if good {
			out = append(out, byte(r))
		} else if !prevBad {
			out = append(out, '_')
		}
		prevBad = !good
	}
	for len(out) > 0 && out[0] >= '0' && out[0] <= '9' {
		out = out[1:]
	}
	return strings.ToUpper(string(out))
}

func TestC36_Args(t *testing.T) {
	h.Check(t, h.Opts{Quick: 6000, Thorough: 100000, Rule: "required and optional arguments given by Set, flag, environment variable, several of them or none, in a root namespace and a derived one; values and missing-argument errors compared with the documented precedence; non-trivial = an argument is missing or given in two ways"}, func(t *rapid.T, c *h.Case) {
		type arg struct {
			name               string
			required           bool
			set, flag, env     string
			setAfter, hasSet   bool
			hasFlag, hasEnv    bool
			want               string
			missing, childOnly bool
		}
		var args []*arg
		names := rapid.SliceOfNDistinct(rapid.SampledFrom(argNames), 1, 5, rapid.ID[string]).Draw(t, "names")
		var cmdline []string
		for _, n := range names {
			a := &arg{name: n, required: rapid.Bool().Draw(t, "required")}
			val := func(k string) string {
				return fmt.Sprintf(rapid.SampledFrom([]string{"%s1", "%slocalhost:80", "%s", "%sx y", "%s=", "%s-v", " %s ", "%s\n", "\t%s", "\"%s\"", "'%s'", "$%s", "%s\\n", "%s,x", "-%s", "--%s"}).Draw(t, "v"), k)
			}
			if rapid.IntRange(0, 3).Draw(t, "hasSet") == 0 {
				a.hasSet, a.set = true, val("s")
			}
			if rapid.IntRange(0, 2).Draw(t, "hasFlag") == 0 {
				a.hasFlag, a.flag = true, val("f")
				cmdline = append(cmdline, "--"+n+"="+a.flag)
			}
			if rapid.IntRange(0, 1).Draw(t, "hasEnv") == 0 {
				a.hasEnv, a.env = true, val("e")
			}
			switch {
			case a.hasSet:
				a.want = a.set
			case a.hasFlag:
				a.want = a.flag
			case a.hasEnv:
				a.want = a.env
			default:
				a.missing = true
			}
			n := 0
			for _, b := range []bool{a.hasSet, a.hasFlag, a.hasEnv} {
				if b {
					n++
				}
			}
			c.NonTrivial(n != 1)
			c.Logf("%+v", *a)
			args = append(args, a)
		}
		for _, a := range args {
			os.Unsetenv(refEnvVar(a.name))
			if a.hasEnv {
				os.Setenv(refEnvVar(a.name), a.env)
				defer os.Unsetenv(refEnvVar(a.name))
			}
		}
		withFlags(cmdline, func() {
			b := golang.NewNamespaceBuilder("root")
			var missing []string
			for _, a := range args {
				if a.required {
					b.Required(a.name, "a description")
					if a.missing {
						missing = append(missing, a.name)
					}
				} else {
					b.Optional(a.name, "a description")
				}
				if a.hasSet {
					b.Set(a.name, a.set)
				}
			}
			root, err := b.Build(bg)
			if len(missing) > 0 {
				c.Label("missing required")
				if err == nil {
					c.Failf("built although required %v are missing", missing)
				}
				for _, m := range missing {
					if !strings.Contains(err.Error(), m) {
						c.Failf("error %q does not name missing %s", err, m)
					}
				}
				return
			}
			if err != nil {
				c.Failf("Build: %v", err)
			}
			defer root.Shutdown(false)
			child, err := golang.NewNamespaceBuilder("child").BuildWithParent(root)
			if err != nil {
				c.Failf("BuildWithParent: %v", err)
			}
			for _, a := range args {
				for i, n := range []*golang.Namespace{root, child} {
					var v string
					err := n.Get(a.name, &v)
					if a.missing {
						if err == nil {
							c.Failf("Get of the missing %s returned %q", a.name, v)
						}
					} else if err != nil || v != a.want {
						c.Failf("Get(%s) in namespace %d returned %q %v, expected %q", a.name, i, v, err, a.want)
					}
				}
			}
			// a derived namespace's requirements are met by its parents' definitions
			cb := golang.NewNamespaceBuilder("child2")
			need := rapid.SampledFrom(argNames).Draw(t, "need")
			known := false
			for levels := rapid.IntRange(0, 3).Draw(t, "levels"); levels > 0; levels-- {
				if child, err = golang.NewNamespaceBuilder("middle").BuildWithParent(child); err != nil {
					c.Failf("BuildWithParent: %v", err)
				}
			}
			for _, a := range args {
				known = known || a.name == need
			}
			if !known {
				cb.Required(need, "a description")
				own := rapid.Bool().Draw(t, "own")
				if own {
					cb.Set(need, "mine")
				}
				c.Logf("child requires %s own=%v", need, own)
				_, err := cb.BuildWithParent(child)
				if own != (err == nil) {
					c.Failf("child requiring %s (defined=%v) built with error %v", need, own, err)
				}
			}
			mb := golang.NewNamespaceBuilder("defines")
			mb.Set("defined.here", "v")
			defines, err := mb.BuildWithParent(child)
			if err != nil {
				c.Failf("BuildWithParent: %v", err)
			}
			below := rapid.IntRange(0, 3).Draw(t, "below")
			ns := defines
			for i := 0; i < below; i++ {
				if ns, err = golang.NewNamespaceBuilder("middle").BuildWithParent(ns); err != nil {
					c.Failf("BuildWithParent: %v", err)
				}
			}
			rb := golang.NewNamespaceBuilder("requires")
			rb.Required("defined.here", "a description")
			ns, err = rb.BuildWithParent(ns)
			if err != nil {
				c.Failf("a namespace %d levels below one that defines what it requires was not built: %v", below+1, err)
			}
			var v string
			if err := ns.Get("defined.here", &v); err != nil || v != "v" {
				c.Failf("Get(defined.here) returned %q, %v", v, err)
			}
		})
	})
}
