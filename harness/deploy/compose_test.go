package deploy

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
)

func itoa(p uint16) string   { return strconv.Itoa(int(p)) }
func quote(s string) string  { return strconv.Quote(s) }

var passRE = regexp.MustCompile(`^\$\{([A-Z0-9_]+)(\?|:\?|:-|-)?[^}]*\}$`)
var portRE = regexp.MustCompile(`^\$\{([A-Z0-9_]+)(\?|:\?|:-|-)?[^}]*\}:([0-9]+)$`)

// TestC07Compose: any deployment of synthetic containers against the meaning of the generated docker-compose.yml.
func TestC07Compose(t *testing.T) {
	h.Check(t, h.Opts{Quick: 12000, Thorough: 400000, Hang: h60,
		Rule: "a deployment of 1-5 containers (prebuilt or built) with up to 8 addresses, dials inside and outside the deployment, config values, env vars, volumes, commands and custom configuration; non-trivial when a container dials an address bound by another container"}, func(t *rapid.T, c *h.Case) {
		names := genNames(t, "ncont", 1, 5)
		addrs := genNames(t, "naddr", 0, 8)
		for i := range addrs {
			addrs[i] += ".addr"
		}
		cs := genContainers(t, names, addrs, true)
		for _, ct := range cs {
			for _, s := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"vol1", "/host/dir", "./rel"}), 0, 2, rapid.ID[string]).Draw(t, "vols") {
				ct.volumes = append(ct.volumes, kv{s, rapid.SampledFrom([]string{"/data", "/var/lib/x:ro"}).Draw(t, "dst")})
			}
			for i := rapid.IntRange(0, 3).Draw(t, "ncmd"); i > 0; i-- {
				ct.command = append(ct.command, genValue(t))
			}
			for _, s := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"gpus", "user", "shm_size"}), 0, 2, rapid.ID[string]).Draw(t, "custom") {
				ct.custom = append(ct.custom, kv{s, rapid.SampledFrom([]string{"all", "root", "1gb"}).Draw(t, "cv")})
			}
		}
		dup := false
		if rapid.IntRange(0, 30).Draw(t, "dup") == 0 {
			// two containers whose names are the same for docker
			x := &container{name: strings.ReplaceAll(cs[0].name, "_", ".") + "!", image: "x"}
			y := &container{name: clean(x.name), image: "y"}
			cs = append(cs, x, y)
			dup = true
		}
		bad, conflict := false, false
		owner := map[string]*container{}
		cross := false
		for _, ct := range cs {
			c.Logf("%s", ct.describe())
			bad = bad || ct.bad
			fixed := map[uint16]bool{}
			for _, b := range ct.binds {
				owner[b.addr] = ct
				if b.port != 0 {
					if fixed[b.port] {
						conflict = true
					}
					fixed[b.port] = true
				}
			}
		}
		for _, ct := range cs {
			for _, d := range ct.dials {
				if o := owner[d]; o != nil && o != ct {
					cross = true
				}
			}
		}
		dir, rm := h.TempDir()
		defer rm()
		var nodes []ir.IRNode
		for _, ct := range cs {
			nodes = append(nodes, ct)
		}
		dep := &dockercompose.Deployment{DeploymentName: "app", Nodes: nodes}
		var err error
		if p := h.Try(func() { err = dep.GenerateArtifacts(dir) }); p != nil {
			c.Failf("generating the deployment panics: %v", p)
		}
		if bad || conflict || dup {
			c.Label("invalid")
			c.NonTrivial(true)
			if err == nil {
				c.Failf("a deployment that is not possible (argument that is no config: %v, two servers fixed to one port: %v, two containers of one name: %v) is generated without an error", bad, conflict, dup)
			}
			return
		}
		if err != nil {
			c.Failf("generating the deployment fails: %v", err)
		}
		c.NonTrivial(cross)
		y, text, err := parseYAML(filepath.Join(dir, "docker-compose.yml"))
		if err != nil {
			c.Failf("docker-compose.yml is not valid YAML: %v\n%s", err, text)
		}
		fail := func(f string, a ...any) { c.Failf("%s\n%s", fmt.Sprintf(f, a...), text) }
		svcs, ok := y["services"].(parsed)
		if !ok || len(svcs) != len(cs) {
			fail("%d containers but services are %v", len(cs), y["services"])
		}
		host := map[string]string{}
		env := map[string]map[string]string{}
		for _, ct := range cs {
			s, ok := svcs[clean(ct.name)].(parsed)
			if !ok {
				fail("container %v has no service", ct.name)
			}
			for k := range s {
				switch k {
				case "image", "build", "hostname", "expose", "ports", "environment", "volumes", "command", "restart":
				default:
					found := false
					for _, e := range ct.custom {
						found = found || e.k == k
					}
					if !found {
						fail("container %v has an unexpected key %v", ct.name, k)
					}
				}
			}
			if ct.image != "" {
				if s["image"] != ct.image || s["build"] != nil {
					fail("container %v should use image %v but has image=%v build=%v", ct.name, ct.image, s["image"], s["build"])
				}
			} else {
				b, _ := s["build"].(parsed)
				ctx, _ := b["context"].(string)
				df, _ := b["dockerfile"].(string)
				if s["image"] != nil || filepath.Clean(ctx) != clean(ct.imageDir()) {
					fail("container %v should be built from %v but has image=%v build=%v", ct.name, clean(ct.imageDir()), s["image"], s["build"])
				}
				if _, err := os.Stat(filepath.Join(dir, ctx, df)); err != nil {
					fail("the build context of container %v does not exist: %v", ct.name, err)
				}
			}
			host[ct.name], _ = s["hostname"].(string)
			if host[ct.name] == "" {
				host[ct.name] = clean(ct.name)
			}
			env[ct.name] = map[string]string{}
			el, ok := strList(s["environment"])
			if !ok {
				fail("environment of %v is not a list of strings: %v", ct.name, s["environment"])
			}
			for _, e := range el {
				k, v, ok := strings.Cut(e, "=")
				if _, has := env[ct.name][k]; has || !ok {
					fail("environment of %v sets %v twice or without value", ct.name, k)
				}
				env[ct.name][k] = v
			}
		}
		for _, ct := range cs {
			s := svcs[clean(ct.name)].(parsed)
			seen := map[string]bool{}
			expect := func(k, v, why string) {
				seen[k] = true
				got, has := env[ct.name][k]
				if !has || got != v {
					fail("container %v should have %s=%q (%s) but has %q (set: %v)", ct.name, k, v, why, got, has)
				}
			}
			pass := func(name string, optional bool) {
				k := envName(name)
				seen[k] = true
				m := passRE.FindStringSubmatch(env[ct.name][k])
				if m == nil || m[1] != k || (strings.HasSuffix(m[2], "-")) != optional || (strings.HasSuffix(m[2], "?")) == optional {
					fail("container %v should get %v passed through from the environment (optional: %v) but has %q", ct.name, k, optional, env[ct.name][k])
				}
			}
			// servers
			pl, ok := strList(s["ports"])
			if !ok {
				fail("ports of %v: %v", ct.name, s["ports"])
			}
			published := map[string]string{}
			for _, p := range pl {
				m := portRE.FindStringSubmatch(p)
				if m == nil || published[m[1]] != "" {
					fail("port mapping %q of %v", p, ct.name)
				}
				published[m[1]] = m[3]
			}
			if len(published) != len(ct.binds) {
				fail("container %v binds %d addresses but publishes %v", ct.name, len(ct.binds), published)
			}
			exposed := map[string]bool{}
			xl, _ := s["expose"].([]any)
			for _, x := range xl {
				exposed[fmt.Sprint(x)] = true
			}
			used := map[string]string{}
			for _, b := range ct.binds {
				p := published[envName(b.addr+".bind_addr")]
				n, err := strconv.Atoi(p)
				if err != nil || n <= 0 || n > 65535 {
					fail("address %v bound by %v is not published at a port: %q", b.addr, ct.name, p)
				}
				if o, ok := used[p]; ok {
					fail("addresses %v and %v of container %v share port %v", b.addr, o, ct.name, p)
				}
				used[p] = b.addr
				if !exposed[p] {
					fail("port %v of %v is not exposed", p, ct.name)
				}
				if b.port != 0 && itoa(b.port) != p {
					fail("address %v is fixed to port %v but is published at %v", b.addr, b.port, p)
				}
				bk := envName(b.addr + ".bind_addr")
				if b.port == 0 {
					expect(bk, "0.0.0.0:"+p, "port chosen for the server")
				} else if v, has := env[ct.name][bk]; has {
					expect(bk, "0.0.0.0:"+p, "port of the server"+v)
				}
			}
			if len(exposed) != len(ct.binds) {
				fail("container %v exposes %v", ct.name, exposed)
			}
			for _, d := range ct.dials {
				if o := owner[d]; o != nil {
					op := ""
					ol, _ := strList(svcs[clean(o.name)].(parsed)["ports"])
					for _, p := range ol {
						if m := portRE.FindStringSubmatch(p); m != nil && m[1] == envName(d+".bind_addr") {
							op = m[3]
						}
					}
					expect(envName(d+".dial_addr"), host[o.name]+":"+op, "server is bound by "+o.name)
				} else {
					pass(d+".dial_addr", false)
				}
			}
			for _, cf := range ct.confs {
				if cf.hasValue {
					if v, has := env[ct.name][envName(cf.name)]; has {
						fail("config %v has its own value but is passed to %v as %q", cf.name, ct.name, v)
					}
				} else {
					pass(cf.name, cf.optional)
				}
			}
			for _, e := range ct.env {
				expect(envName(e.k), e.v, "environment variable")
			}
			for k := range env[ct.name] {
				if !seen[k] {
					fail("container %v has an environment variable %v nobody asked for", ct.name, k)
				}
			}
			vl, ok := strList(s["volumes"])
			if !ok || len(vl) != len(ct.volumes) {
				fail("volumes of %v are %v", ct.name, s["volumes"])
			}
			vs := map[string]bool{}
			for _, v := range vl {
				vs[v] = true
			}
			for _, v := range ct.volumes {
				if !vs[v.k+":"+v.v] {
					fail("volume %v:%v of %v is missing", v.k, v.v, ct.name)
				}
			}
			cl, ok := strList(s["command"])
			if !ok || len(cl) != len(ct.command) || (len(cl) > 0 && !reflect.DeepEqual(cl, ct.command)) {
				fail("command of %v is %q instead of %q", ct.name, s["command"], ct.command)
			}
			for _, e := range ct.custom {
				if fmt.Sprint(s[e.k]) != e.v {
					fail("custom configuration %v of %v is %v", e.k, ct.name, s[e.k])
				}
			}
		}
	})
}
