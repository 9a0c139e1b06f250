// Package wire checks the compiler core: wiring specs, namespaces, pointers, names and ports.
package wire

import (
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/ioutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/stringutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"golang.org/x/exp/slog"
	"pgregory.net/rapid"
	"verif/harness/h"
)

func TestMain(m *testing.M) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	os.Exit(m.Run())
}

type tA struct{ n string }
type tB struct{ n string }

func (t *tA) Name() string   { return t.n }
func (t *tA) String() string { return t.n }
func (t *tB) Name() string   { return t.n }
func (t *tB) String() string { return t.n }

// ---------------------------------------------------------------- C04

type mdef struct {
	defined bool
	typ     any
	id      int
	proxy   bool
	props   map[string][]any
}

type mspec struct {
	defs    map[string]*mdef
	aliases map[string]string
}

func (m *mspec) get(n string) *mdef {
	d, ok := m.defs[n]
	if !ok {
		d = &mdef{props: map[string][]any{}}
		m.defs[n] = d
		delete(m.aliases, n)
	}
	return d
}

// resolves an alias; ok=false for a cycle
func (m *mspec) resolve(n string) (string, bool) {
	seen := map[string]bool{}
	for {
		to, is := m.aliases[n]
		if !is {
			return n, true
		}
		if seen[n] {
			return "", false
		}
		seen[n] = true
		n = to
	}
}

func TestC04(t *testing.T) {
	h.Check(t, h.Opts{Quick: 20000, Thorough: 400000,
		Rule: "a case is a history of up to 40 define/alias/property/read calls over 6 names; non-trivial if it redefines a name or points an alias elsewhere, follows an alias chain of length >= 2 or reads a property with several values"}, func(t *rapid.T, c *h.Case) {
		spec := wiring.NewWiringSpec("app")
		m := &mspec{defs: map[string]*mdef{}, aliases: map[string]string{}}
		names := []string{"a", "b", "a.b", "c", "d", "e e"}
		keys := []string{"k", "l", "Children"}
		var redefined, chain, multi bool
		nextID := 0
		built := -1
		strict := func(what string, f func()) {
			if p := h.Try(f); p != nil {
				c.Failf("%s panicked: %v", what, p)
			}
		}
		checkName := func(n string) {
			to, isAlias := m.aliases[n]
			gto, gis := spec.GetAlias(n)
			if gis != isAlias || (isAlias && gto != to) || (!isAlias && gto != "") {
				c.Failf("GetAlias(%q) = %q, %v; expected %q, %v", n, gto, gis, to, isAlias)
			}
			res, ok := m.resolve(n)
			var want *mdef
			if ok {
				want = m.defs[res]
			}
			got := spec.GetDef(n)
			if want == nil || !want.defined {
				if got != nil && got.Build != nil {
					c.Failf("GetDef(%q) returns a definition (%s), but none exists", n, got.Name)
				}
				return
			}
			if isAlias {
				if _, is2 := m.aliases[to]; is2 {
					chain = true
				}
			}
			if got == nil {
				c.Failf("GetDef(%q) = nil, expected the definition of %q", n, res)
			}
			if got.Name != res {
				c.Failf("GetDef(%q) is the definition of %q, expected of %q", n, got.Name, res)
			}
			if reflect.TypeOf(got.NodeType) != reflect.TypeOf(want.typ) {
				c.Failf("GetDef(%q) has node type %T, expected %T", n, got.NodeType, want.typ)
			}
			if got.Options.ProxyNode != want.proxy {
				c.Failf("GetDef(%q) has ProxyNode=%v, expected %v", n, got.Options.ProxyNode, want.proxy)
			}
			built = -1
			got.Build(nil)
			if built != want.id {
				c.Failf("GetDef(%q) has the build function of definition #%d, expected #%d", n, built, want.id)
			}
		}
		readProps := func(n, k string) {
			want := []any{}
			if d := m.defs[n]; d != nil {
				want = d.props[k]
			}
			isStr := true
			for _, v := range want {
				if _, s := v.(string); !s {
					isStr = false
				}
			}
			if isStr && len(want) > 0 {
				var all []string
				if err := spec.GetProperties(n, k, &all); err != nil {
					c.Failf("GetProperties(%q, %q): %v", n, k, err)
				}
				if len(all) != len(want) {
					c.Failf("GetProperties(%q, %q) = %q, expected %v", n, k, all, want)
				}
				for i := range all {
					if all[i] != want[i] {
						c.Failf("GetProperties(%q, %q) = %q, expected %v", n, k, all, want)
					}
				}
				// what was returned belongs to the caller
				for i := range all {
					all[i] = "OVERWRITTEN"
				}
				if len(all) > 0 {
					all = append(all[:0], "X")
				}
			}
			var allAny []any
			if err := spec.GetProperties(n, k, &allAny); err != nil {
				c.Failf("GetProperties(%q, %q): %v", n, k, err)
			}
			if len(allAny) != len(want) {
				c.Failf("GetProperties(%q, %q) = %v, expected %v", n, k, allAny, want)
			}
			for i := range allAny {
				if allAny[i] != want[i] {
					c.Failf("GetProperties(%q, %q) = %v, expected %v", n, k, allAny, want)
				}
				allAny[i] = "OVERWRITTEN"
			}
			if len(want) > 1 {
				multi = true
			}
			var one any = "before"
			err := spec.GetProperty(n, k, &one)
			if err != nil {
				c.Failf("GetProperty(%q, %q): %v", n, k, err)
			}
			if len(want) == 1 && one != want[0] {
				c.Failf("GetProperty(%q, %q) = %v, expected %v", n, k, one, want[0])
			}
			if len(want) > 1 && one != nil && one != "before" {
				c.Failf("GetProperty(%q, %q) = %v although there are %d values", n, k, one, len(want))
			}
			if len(want) == 1 {
				// reading into a wrong type is an error and leaves the destination alone
				if _, s := want[0].(string); s {
					x := 42
					if err := spec.GetProperty(n, k, &x); err == nil || x != 42 {
						c.Failf("GetProperty(%q, %q) into an int: err=%v, value %d", n, k, err, x)
					}
				}
			}
		}
		checkAll := func() {
			for _, n := range names {
				checkName(n)
			}
			var want []string
			for n, d := range m.defs {
				if d.defined {
					want = append(want, n)
				}
			}
			sort.Strings(want)
			got := spec.Defs()
			sort.Strings(got)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				c.Failf("Defs() = %q, expected %q", got, want)
			}
		}
		steps := rapid.IntRange(1, 40).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			n := rapid.SampledFrom(names).Draw(t, "name")
			_, isAlias := m.aliases[n]
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
			case op <= 2:
				id := nextID
				nextID++
				var typ any = &tA{}
				if rapid.Bool().Draw(t, "typ") {
					typ = &tB{}
				}
				proxy := rapid.IntRange(0, 3).Draw(t, "proxy")
				c.Logf("Define(%q, %T) #%d proxy=%d", n, typ, id, proxy)
				build := func(wiring.Namespace) (ir.IRNode, error) { built = id; return nil, nil }
				d := m.get(n)
				if d.defined {
					redefined = true
				}
				d.defined, d.typ, d.id = true, typ, id
				strict("Define", func() {
					switch proxy {
					case 2:
						d.proxy = false
						spec.Define(n, typ, build, wiring.WiringOpts{})
					case 3:
						d.proxy = true
						spec.Define(n, typ, build, wiring.WiringOpts{ProxyNode: true})
					default: // options of an earlier definition are not reset when none are given: left open
						d.proxy = false
						spec.Define(n, typ, build, wiring.WiringOpts{ReturnType: &tB{}})
					}
				})
			case op <= 4:
				to := rapid.SampledFrom(names).Draw(t, "to")
				c.Logf("Alias(%q, %q)", n, to)
				if isAlias || (m.defs[n] != nil) {
					redefined = true
				}
				delete(m.defs, n)
				m.aliases[n] = to
				strict("Alias", func() { spec.Alias(n, to) })
			case op == 5 && !isAlias: // setting properties of an alias is left open
				k := rapid.SampledFrom(keys).Draw(t, "key")
				v := fmt.Sprint("v", i)
				c.Logf("SetProperty(%q, %q, %q)", n, k, v)
				m.get(n).props[k] = []any{v}
				strict("SetProperty", func() { spec.SetProperty(n, k, v) })
			case op <= 7 && !isAlias:
				k := rapid.SampledFrom(keys).Draw(t, "key")
				var v any = fmt.Sprint("v", i)
				if rapid.IntRange(0, 9).Draw(t, "int") == 0 {
					v = i
				}
				c.Logf("AddProperty(%q, %q, %#v)", n, k, v)
				m.get(n).props[k] = append(m.get(n).props[k], v)
				strict("AddProperty", func() { spec.AddProperty(n, k, v) })
			default:
				k := rapid.SampledFrom(keys).Draw(t, "key")
				c.Logf("read %q %q", n, k)
				if !isAlias {
					strict("GetProperty", func() { readProps(n, k) })
				}
				strict("String", func() { _ = spec.GetDef("a") })
			}
			strict("GetDef", checkAll)
		}
		for _, n := range names {
			if _, isAlias := m.aliases[n]; !isAlias {
				for _, k := range keys {
					strict("GetProperty", func() { readProps(n, k) })
				}
			}
		}
		strict("checks", checkAll)
		var s string
		strict("String", func() { s = spec.String() })
		for n, d := range m.defs {
			if d.defined && !strings.Contains(s, n+" = ") {
				c.Failf("String() does not mention %q:\n%s", n, s)
			}
		}
		for n, to := range m.aliases {
			if !strings.Contains(s, n+" -> "+to) {
				c.Failf("String() does not mention alias %q:\n%s", n, s)
			}
		}
		if spec.Err() != nil {
			c.Failf("Err() = %v", spec.Err())
		}
		c.NonTrivial(redefined && (chain || multi))
	})
}

// ---------------------------------------------------------------- C05

var reIdent = regexp.MustCompile(`^[a-zA-Z0-9_]+$`)
var reEnv = regexp.MustCompile(`^[A-Z_][A-Z0-9_]*$`)
var reFunc = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)

func TestC05(t *testing.T) {
	h.Check(t, h.Opts{Quick: 8000, Thorough: 300000,
		Rule: "a case is one node name (plain, or arbitrary unicode and punctuation) used for a file, an environment variable, a function and a runtime argument; non-trivial if the name has a character that is not a letter or digit, or starts with a digit"}, func(t *rapid.T, c *h.Case) {
		name := rapid.OneOf(
			rapid.StringMatching(`[a-zA-Z0-9_]{0,6}([._\-/: #][a-zA-Z0-9_]{1,5}){0,4}`),
			rapid.StringMatching(`[0-9]{0,3}[._\- ]{0,2}[0-9]{0,2}[a-zA-Z]{0,3}`),
			rapid.String(),
		).Draw(t, "name")
		if !strings.ContainsFunc(name, func(r rune) bool { return r < '0' || r > '9' }) {
			t.Skip("digits only") // converts to nothing: not in the universe
		}
		c.Logf("%q", name)
		clean := ir.CleanName(name)
		env := linux.EnvVar(name)
		fn := linux.FuncName(name)
		if !reIdent.MatchString(clean) {
			c.Failf("CleanName = %q is not made of letters, digits and underscores only", clean)
		}
		if clean[0] >= '0' && clean[0] <= '9' {
			c.Failf("CleanName = %q starts with a digit", clean)
		}
		if !reEnv.MatchString(env) {
			c.Failf("EnvVar = %q is not a valid upper-case shell identifier", env)
		}
		if !reFunc.MatchString(fn) {
			c.Failf("FuncName = %q is not a valid lower-case identifier", fn)
		}
		if again := ir.CleanName(clean); again != clean {
			c.Failf("CleanName is not idempotent: %q, then %q", clean, again)
		}
		if again := linux.EnvVar(env); again != env {
			c.Failf("EnvVar is not idempotent: %q, then %q", env, again)
		}
		if again := linux.FuncName(fn); again != fn {
			c.Failf("FuncName is not idempotent: %q, then %q", fn, again)
		}
		if ir.CleanName(name) != clean || stringutil.CleanName(name) != clean || linux.EnvVar(name) != env || linux.FuncName(name) != fn {
			c.Failf("not deterministic")
		}
		if !strings.EqualFold(clean, env) || !strings.EqualFold(clean, fn) {
			c.Failf("names do not agree: %q %q %q", clean, env, fn)
		}
		// letters and digits survive, in order
		var want, got strings.Builder
		for _, r := range name {
			if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
				want.WriteRune(r)
			}
		}
		for _, r := range clean {
			if r != '_' {
				got.WriteRune(r)
			}
		}
		if w, g := want.String(), got.String(); !strings.HasSuffix(w, g) || strings.Trim(strings.TrimSuffix(w, g), "0123456789") != "" {
			c.Failf("CleanName = %q loses letters of the name", clean)
		}
		// the artifact's variable is the one the running process reads
		if rt := golang.EnvVar(name); rt != env {
			c.Failf("the generated artifacts set %q but the running process reads %q", env, rt)
		}
		c.NonTrivial(clean != name)
	})
}

func TestC05Running(t *testing.T) {
	d, rm := h.TempDir()
	defer rm()
	h.Check(t, h.Opts{Quick: 1500, Thorough: 30000,
		Rule: "a case is one or two node names that a process namespace requires, given by environment variable only; also the node directory made for the name; non-trivial if a name is changed by the conversion"}, func(t *rapid.T, c *h.Case) {
		n := rapid.IntRange(1, 2).Draw(t, "n")
		// each case plays a process of its own
		savedFlags, savedArgs := flag.CommandLine, os.Args
		flag.CommandLine, os.Args = flag.NewFlagSet("proc", flag.ContinueOnError), []string{"proc"}
		defer func() { flag.CommandLine, os.Args = savedFlags, savedArgs }()
		b := golang.NewNamespaceBuilder("proc")
		envs := map[string]string{}
		byName := map[string]string{}
		for i := 0; i < n; i++ {
			name := rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,6}([._\-/: #][a-zA-Z0-9_]{1,5}){0,3}`).Draw(t, "name")
			env := linux.EnvVar(name)
			if _, dup := envs[env]; dup {
				continue
			}
			v := fmt.Sprint("value", i)
			envs[env], byName[name] = v, v
			c.Logf("%q", name)
			c.NonTrivial(ir.CleanName(name) != name)
			b.Required(name, "x")
			os.Setenv(env, v)
			dir, err := ioutil.CreateNodeDir(d, name)
			if err != nil {
				c.Failf("CreateNodeDir: %v", err)
			}
			if dir != d+"/"+ir.CleanName(name) {
				c.Failf("CreateNodeDir(%q) = %q", name, dir)
			}
			if st, err := os.Stat(dir); err != nil || !st.IsDir() {
				c.Failf("CreateNodeDir(%q): not made: %v", name, err)
			}
		}
		defer func() {
			for e := range envs {
				os.Unsetenv(e)
			}
		}()
		ns, err := b.Build(t.Context())
		if err != nil {
			c.Failf("the process does not start although %v are set: %v", envs, err)
		}
		for name, v := range byName {
			var got string
			if err := ns.Get(name, &got); err != nil || got != v {
				c.Failf("the process sees %q=%q (%v), expected %q", name, got, err, v)
			}
		}
	})
}

// ---------------------------------------------------------------- C06

func TestC06(t *testing.T) {
	h.Check(t, h.Opts{Quick: 40000, Thorough: 1000000, Hang: h30,
		Rule: "a case is up to 12 bind addresses with fixed, preferred or no ports (often colliding or near the ends of the port range), assigned, extended and assigned again, then cleared; non-trivial if two addresses want the same port"}, func(t *rapid.T, c *h.Case) {
		port := rapid.OneOf(rapid.SampledFrom([]uint16{0, 0, 0, 1, 2, 1999, 2000, 2001, 12345, 12346, 65533, 65534, 65535}), rapid.Uint16())
		var binds []*address.BindConfig
		contended := false
		add := func() {
			for i := rapid.IntRange(0, 6).Draw(t, "n"); i > 0; i-- {
				b := &address.BindConfig{}
				b.Key = fmt.Sprintf("s%d.bind_addr", len(binds))
				b.AddressName = fmt.Sprintf("s%d.addr", len(binds))
				b.PreferredPort = port.Draw(t, "preferred")
				if rapid.IntRange(0, 3).Draw(t, "fix") == 0 {
					b.Port = port.Draw(t, "port")
				}
				for _, o := range binds {
					if o.PreferredPort == b.PreferredPort || o.Port != 0 && o.Port == b.Port || o.Port == b.PreferredPort {
						contended = true
					}
				}
				binds = append(binds, b)
				c.Logf("%s port=%d preferred=%d", b.Key, b.Port, b.PreferredPort)
			}
		}
		for round := 0; round < 2; round++ {
			add()
			type st struct{ port, pref uint16 }
			before := map[*address.BindConfig]st{}
			fixedCount := map[uint16]int{}
			conflict := false
			for _, b := range binds {
				before[b] = st{b.Port, b.PreferredPort}
				if b.Port != 0 {
					fixedCount[b.Port]++
					conflict = conflict || fixedCount[b.Port] > 1
				}
			}
			c.Logf("assign")
			var pre, ass []*address.BindConfig
			var err error
			if p := h.Try(func() { pre, ass, err = address.AssignPorts(binds) }); p != nil {
				c.Failf("AssignPorts panicked: %v", p)
			}
			if conflict {
				if err == nil {
					c.Failf("two addresses have the same fixed port but AssignPorts reports no error")
				}
				c.NonTrivial(true)
				return
			}
			if err != nil {
				c.Failf("AssignPorts: %v", err)
			}
			byPort := map[uint16]*address.BindConfig{}
			for _, b := range binds {
				if b.Port == 0 {
					c.Failf("%s has no port", b.Key)
				}
				if o := byPort[b.Port]; o != nil {
					c.Failf("%s and %s both have port %d", o.Key, b.Key, b.Port)
				}
				byPort[b.Port] = b
				if was := before[b]; was.port != 0 && was.port != b.Port {
					c.Failf("%s had the fixed port %d but now has %d", b.Key, was.port, b.Port)
				}
			}
			for _, b := range binds {
				if was := before[b]; was.port == 0 && was.pref != 0 && b.Port != was.pref && byPort[was.pref] == nil {
					c.Failf("%s prefers port %d, which nobody holds, but has %d", b.Key, was.pref, b.Port)
				}
			}
			in := func(l []*address.BindConfig) map[*address.BindConfig]bool {
				r := map[*address.BindConfig]bool{}
				for _, b := range l {
					if r[b] {
						c.Failf("%s is reported twice", b.Key)
					}
					r[b] = true
				}
				return r
			}
			inPre, inAss := in(pre), in(ass)
			if len(inPre)+len(inAss) != len(binds) {
				c.Failf("%d preassigned and %d assigned addresses reported, but there are %d", len(pre), len(ass), len(binds))
			}
			for _, b := range binds {
				if (before[b].port != 0) != inPre[b] || (before[b].port == 0) != inAss[b] {
					c.Failf("%s (port before: %d) reported preassigned=%v assigned=%v", b.Key, before[b].port, inPre[b], inAss[b])
				}
			}
			if round == 0 {
				// hostnames, and clearing what was assigned: the next assignment gives the same ports again
				host := rapid.SampledFrom([]string{"", "localhost", "h"}).Draw(t, "host")
				address.SetHostname(host, binds)
				got := map[*address.BindConfig]uint16{}
				for _, b := range binds {
					if b.Hostname != host {
						c.Failf("SetHostname: %s has %q", b.Key, b.Hostname)
					}
					got[b] = b.Port
				}
				if rapid.Bool().Draw(t, "clear") {
					c.Logf("clear assigned")
					address.Clear(ass)
					for _, b := range binds {
						if inAss[b] && (b.Port != 0 || b.Hostname != "" || b.HasValue()) {
							c.Failf("%s is not cleared: %s", b.Key, b.Value())
						}
						if !inAss[b] && (b.Port != got[b] || b.Hostname != host) {
							c.Failf("%s was cleared too", b.Key)
						}
					}
				}
			}
		}
		c.NonTrivial(contended)
	})
}

func TestC06Full(t *testing.T) {
	h.Check(t, h.Opts{Quick: 4, Thorough: 30, Hang: h30,
		Rule: "a case is 65533..65537 bind addresses, so that all ports or more are needed; every case is non-trivial"}, func(t *rapid.T, c *h.Case) {
		n := rapid.IntRange(65533, 65537).Draw(t, "n")
		pref := rapid.SampledFrom([]uint16{0, 1, 2000, 65535}).Draw(t, "pref")
		c.Logf("%d addresses, preferred port %d", n, pref)
		c.NonTrivial(true)
		binds := make([]*address.BindConfig, n)
		fixed := 0
		for i := range binds {
			binds[i] = &address.BindConfig{PreferredPort: pref}
			if i > 0 && i < n-20 { // all but a few are fixed, since searching is linear
				fixed++
				binds[i].Port = uint16(fixed)
			}
		}
		_, _, err := address.AssignPorts(binds)
		if (n > 65535) != (err != nil) {
			c.Failf("AssignPorts of %d addresses: err=%v", n, err)
		}
		if err == nil {
			seen := map[uint16]bool{}
			for _, b := range binds {
				if b.Port == 0 || seen[b.Port] {
					c.Failf("port %d is 0 or assigned twice", b.Port)
				}
				seen[b.Port] = true
			}
		}
	})
}
