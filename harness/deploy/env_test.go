package deploy

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/environment"
)

// TestC09Environment: any set of bind and dial configs against the meaning of .env and .local.env.
func TestC09Environment(t *testing.T) {
	h.Check(t, h.Opts{Quick: 20000, Thorough: 600000, Hang: h60,
		Rule: "0-10 addresses, each with a bind config, a dial config or both, other config nodes among them, any order and initial port; non-trivial when at least three addresses have both"}, func(t *rapid.T, c *h.Case) {
		addrs := genNames(t, "naddr", 0, 10)
		var nodes []ir.IRNode
		type want struct{ bind, dial bool }
		wants := map[string]want{}
		both := 0
		for i := range addrs {
			addrs[i] += rapid.SampledFrom([]string{".addr", ".grpc.addr", "", ".http_addr"}).Draw(t, "suffix")
			a := addrs[i]
			w := want{}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				w.bind = true
			case 1:
				w.dial = true
			default:
				w.bind, w.dial = true, true
				both++
			}
			if w.bind {
				p := uint16(0)
				if rapid.IntRange(0, 3).Draw(t, "fixed") == 0 {
					p = rapid.SampledFrom(ports).Draw(t, "port")
				}
				nodes = append(nodes, bindNode(a, p, rapid.SampledFrom([]uint16{0, 3306}).Draw(t, "pref")))
			}
			if w.dial {
				nodes = append(nodes, dialNode(a))
				if rapid.IntRange(0, 5).Draw(t, "again") == 0 {
					nodes = append(nodes, dialNode(a)) // a second namespace's view of the same config
				}
			}
			wants[a] = w
		}
		for i := rapid.IntRange(0, 2).Draw(t, "other"); i > 0; i-- {
			nodes = append(nodes, &conf{name: "other." + strconv.Itoa(i), hasValue: rapid.Bool().Draw(t, "v")})
		}
		if len(nodes) > 0 {
			nodes = rapid.Permutation(nodes).Draw(t, "order")
		}
		var init uint16
		switch rapid.IntRange(0, 3).Draw(t, "init") {
		case 0:
			init = rapid.Uint16Range(1, 65535).Draw(t, "initial")
		case 1:
			init = 12345
		case 2:
			init = 65535 - uint16(rapid.IntRange(0, 11).Draw(t, "high"))
		case 3:
			init = 1024
		}
		for _, n := range nodes {
			c.Logf("%s", n.Name())
		}
		c.Logf("initial port %d", init)
		c.NonTrivial(both >= 3)
		dir, rm := h.TempDir()
		defer rm()
		environment.AssignPorts(init)
		var err error
		// only the environment plugin builds these nodes
		app := &ir.ApplicationNode{ApplicationName: "app", Children: nodes}
		if p := h.Try(func() { err = app.GenerateArtifacts(filepath.Join(dir, "out")) }); p != nil {
			c.Failf("generating panics: %v", p)
		}
		if int(init)+len(addrs)-1 > 65535 {
			c.Label("out of ports")
			if err == nil {
				c.Failf("%d addresses from port %d on do not fit but there is no error", len(addrs), init)
			}
			return
		}
		if err != nil {
			c.Failf("generating fails: %v", err)
		}
		if len(nodes) == 0 {
			return
		}
		port := map[string]string{}
		for _, file := range []string{".local.env", ".env"} {
			b, err := os.ReadFile(filepath.Join(dir, "out", file))
			if err != nil {
				c.Failf("%v", err)
			}
			fail := func(f string, a ...any) { c.Failf("%s: %s\n%s", file, fmt.Sprintf(f, a...), b) }
			vars := map[string]string{}
			for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
				if l == "" {
					continue
				}
				k, v, ok := strings.Cut(l, "=")
				if !ok {
					fail("line %q", l)
				}
				if o, has := vars[k]; has && o != v {
					fail("%v is assigned %v and %v", k, o, v)
				}
				vars[k] = v
			}
			n := 0
			seen := map[string]string{}
			var got []int
			for _, a := range addrs {
				w := wants[a]
				p := ""
				if w.bind {
					n++
					v, ok := strings.CutPrefix(vars[envName(a+".bind_addr")], "0.0.0.0:")
					if !ok {
						fail("server variable of %v is %q", a, vars[envName(a+".bind_addr")])
					}
					p = v
				}
				if w.dial {
					n++
					hn := "localhost"
					if file == ".env" {
						hn = strings.Split(a, ".")[0]
					}
					v, ok := strings.CutPrefix(vars[envName(a+".dial_addr")], hn+":")
					if !ok || (w.bind && v != p) {
						fail("caller variable of %v is %q but the server listens on %v", a, vars[envName(a+".dial_addr")], p)
					}
					p = v
				}
				if o, has := seen[p]; has {
					fail("addresses %v and %v share port %v", o, a, p)
				}
				seen[p] = a
				if port[a] != "" && port[a] != p {
					fail("address %v has port %v in the other file and %v here", a, port[a], p)
				}
				port[a] = p
				i, err := strconv.Atoi(p)
				if err != nil {
					fail("port %q of %v", p, a)
				}
				got = append(got, i)
			}
			if n != len(vars) {
				fail("%d variables for %d configs", len(vars), n)
			}
			sort.Ints(got)
			for i, p := range got {
				if p != int(init)+i {
					fail("ports %v are not counted up from %d", got, init)
				}
			}
		}
	})
}

var _ = address.Split
