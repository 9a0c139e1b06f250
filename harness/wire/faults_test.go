package wire

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"
)

// injects one fault into the graph; returns its kind
func (g *graph) inject(t *rapid.T) string {
	n := len(g.defs)
	// adds a reference to a definition (or a namespace child), before or after its other references
	attach := func(r gref) {
		d := g.defs[rapid.IntRange(0, n-1).Draw(t, "at")]
		for _, x := range g.defs {
			if d.proxyOf >= 0 || d.sameOf > 0 || x.proxyOf == d.idx {
				d = g.defs[0]
			}
		}
		l := &d.refs
		if d.kind >= 5 && rapid.Bool().Draw(t, "as-child") {
			l = &d.children
			if d.deferred {
				r.instantiate, r.tolerant, r.wrongType = false, false, false
			}
		}
		k := rapid.IntRange(0, len(*l)).Draw(t, "pos")
		*l = append((*l)[:k:k], append([]gref{r}, (*l)[k:]...)...)
	}
	add := func(kind int, name string) *gdef {
		d := &gdef{idx: len(g.defs), proxyOf: -1, kind: kind, name: name}
		g.defs = append(g.defs, d)
		return d
	}
	kind := func() int { return rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "fault-kind") }
	maybe := func() bool { return rapid.Bool().Draw(t, "maybe") }
	switch f := rapid.SampledFrom([]string{"build", "build", "build-leaf", "undefined", "undefined-alias", "property-only", "alias-cycle",
		"wrong-type", "edge", "node", "unique", "unique", "cycle", "self", "tolerated", "tolerated-alias"}).Draw(t, "fault"); f {
	case "build":
		d := g.defs[rapid.IntRange(0, n-1).Draw(t, "who")]
		if d.proxyOf < 0 {
			d.fail = true
		}
		return f
	case "build-leaf":
		d := add(kind(), "leaf%d100%s") // names may contain anything
		d.fail = true
		name := d.name
		if maybe() {
			g.aliases = append(g.aliases, [2]string{"leafalias", name})
			name = "leafalias"
		}
		attach(gref{name: name, target: d.idx, instantiate: maybe()})
		return f
	case "undefined":
		attach(gref{name: "nowhere", target: -1, instantiate: maybe()})
		return f
	case "undefined-alias":
		g.aliases = append(g.aliases, [2]string{"dangling", "missing"})
		attach(gref{name: "dangling", target: -1, instantiate: maybe()})
		return f
	case "property-only":
		g.props = append(g.props, "onlyprops")
		attach(gref{name: "onlyprops", target: -1, instantiate: maybe()})
		return f
	case "alias-cycle":
		g.aliases = append(g.aliases, [2]string{"round1", "round2"}, [2]string{"round2", "round1"})
		attach(gref{name: "round1", target: -1})
		return f
	case "wrong-type":
		d := add(kind(), "typed")
		attach(gref{name: d.name, target: d.idx, wrongType: true})
		return f
	case "edge", "node":
		d := add(rapid.IntRange(0, 3).Draw(t, "leaf-kind"), "leaf")
		attach(gref{name: d.name, target: d.idx})
		for _, x := range g.defs {
			if x.kind >= 5 && maybe() {
				if f == "edge" {
					x.failEdge = d.name
				} else {
					x.failNode = d.name
				}
			}
		}
		return f
	case "unique":
		d := add(rapid.IntRange(0, 3).Draw(t, "leaf-kind"), "onlyone")
		d.unique = true
		if maybe() {
			// users in the innermost of nested namespaces, which can have the same name
			for i := rapid.IntRange(1, 2).Draw(t, "hosts"); i > 0; i-- {
				main := add(5, fmt.Sprintf("main%d", i))
				main.children = []gref{{name: "uniq_onlyone", target: d.idx, instantiate: maybe()}}
				main.accepts[d.kind] = rapid.IntRange(0, 3).Draw(t, "own") > 0
				if maybe() {
					main.nsName = "main"
				}
				host := add(6, fmt.Sprintf("host%d", i))
				host.children = []gref{{name: main.name, target: main.idx}}
				host.accepts[5] = rapid.IntRange(0, 3).Draw(t, "inside") > 0
				g.requests = append(g.requests, gref{name: host.name, target: host.idx})
			}
			if maybe() {
				return f
			}
		}
		for i := 0; i < 3; i++ {
			attach(gref{name: "uniq_onlyone", target: d.idx})
		}
		for _, x := range g.defs {
			if x.kind >= 5 && maybe() {
				x.accepts[d.kind] = true
			}
		}
		return f
	case "cycle":
		k1, k2 := rapid.IntRange(0, 3).Draw(t, "k1"), rapid.IntRange(0, 3).Draw(t, "k2")
		a, b := add(k1, "ring1"), add(k2, "ring2")
		a.refs = []gref{{name: b.name, target: b.idx, instantiate: maybe()}}
		b.refs = []gref{{name: a.name, target: a.idx, instantiate: maybe()}}
		g.cyc = true
		attach(gref{name: a.name, target: a.idx, instantiate: maybe()})
		return f
	case "self":
		a := add(kind(), "ring1")
		a.refs = []gref{{name: a.name, target: a.idx}}
		g.cyc = true
		attach(gref{name: a.name, target: a.idx, instantiate: maybe()})
		return f
	default:
		// a reference whose failure is ignored, and possibly others whose failure is not
		var r gref
		if f == "tolerated" {
			d := add(kind(), "leaf")
			d.fail = true
			r = gref{name: d.name, target: d.idx}
			if maybe() {
				g.aliases = append(g.aliases, [2]string{"leafalias", d.name})
				r.name = "leafalias"
			}
		} else {
			g.aliases = append(g.aliases, [2]string{"dangling", "missing"})
			r = gref{name: "dangling", target: -1}
		}
		for i := rapid.IntRange(1, 3).Draw(t, "times"); i > 0; i-- {
			r2 := r
			r2.tolerant, r2.instantiate = true, maybe()
			attach(r2)
		}
		if maybe() {
			attach(r)
		}
		return f
	}
}

func TestC03(t *testing.T) {
	h.Check(t, h.Opts{Quick: 30000, Thorough: 1000000, Hang: h30,
		Rule: "a case is a graph of definitions as for C02 with up to 2 injected faults (failing builds, undefined or cyclic names, wrong types, handler errors, nodes that must be unique, dependency cycles, ignored errors) that may or may not be reachable; non-trivial if a fault is reached, or one is injected and none is reached"}, func(t *rapid.T, c *h.Case) {
		g := genGraph(t, c)
		var kinds []string
		for i := rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "nfaults"); i > 0; i-- {
			if len(kinds) > 0 && kinds[0] != "build" {
				break // a second fault must not reuse the names of the first
			}
			kinds = append(kinds, g.inject(t))
		}
		m := g.model()
		g.log(c)
		faults := m.faults
		if g.cyc {
			for k := range m.built {
				if strings.HasSuffix(k, "|ring1") {
					faults["ring"] = true
				}
			}
		}
		run := newRun()
		spec := g.spec(&run)
		var err error
		if p := h.Try(func() { _, err = spec.BuildIR(g.requestNames()...) }); p != nil {
			c.Failf("BuildIR panicked: %v", p)
		}
		if len(faults) == 0 && err != nil {
			c.Failf("nothing reachable is faulty but BuildIR fails: %v", err)
		}
		if len(faults) > 0 {
			if err == nil {
				c.Failf("BuildIR reports success although these faults are reachable: %v", keys(faults))
			}
			found := false
			for f := range faults {
				found = found || strings.Contains(err.Error(), f)
			}
			if !found {
				c.Failf("the error does not mention any of %v: %v", keys(faults), err)
			}
		}
		c.NonTrivial(len(kinds) > 0)
		for _, k := range kinds {
			c.Label(fmt.Sprintf("%s reached=%v", k, len(faults) > 0))
		}
	})
}
