package deploy

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/h"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod"
)

func dig(v any, path ...string) any {
	for _, p := range path {
		m, ok := v.(parsed)
		if !ok {
			return nil
		}
		v = m[p]
	}
	return v
}

// TestC08Kubernetes: any assignment of synthetic containers to pods against the meaning of the manifests.
func TestC08Kubernetes(t *testing.T) {
	h.Check(t, h.Opts{Quick: 8000, Thorough: 250000, Hang: h60,
		Rule: "1-4 pods with 1-3 containers each and up to 8 addresses, dials within a pod, across pods and to nowhere; non-trivial when a container dials a server in another pod and another one in its own pod"}, func(t *rapid.T, c *h.Case) {
		podNames := genNames(t, "npods", 1, 4)
		for i := range podNames {
			podNames[i] = strings.ReplaceAll(podNames[i], ".", "_") + "_pod"
		}
		registry := rapid.SampledFrom([]string{"reg.io:5000", "docker.io/u"}).Draw(t, "registry")
		names := genNames(t, "ncont", len(podNames), len(podNames)*2)
		addrs := genNames(t, "naddr", 0, 8)
		for i := range addrs {
			addrs[i] += ".addr"
		}
		cs := genContainers(t, names, addrs, false)
		podOf := map[*container]int{}
		pods := make([][]*container, len(podNames))
		for i, ct := range cs {
			p := i
			if i >= len(pods) {
				p = rapid.IntRange(0, len(pods)-1).Draw(t, "pod")
			}
			podOf[ct] = p
			pods[p] = append(pods[p], ct)
		}
		// mostly without addresses that do not exist
		dangling := rapid.IntRange(0, 9).Draw(t, "dangling") == 0
		owner := map[string]*container{}
		for _, ct := range cs {
			for _, b := range ct.binds {
				owner[b.addr] = ct
			}
		}
		bad, missing := false, false
		within, across := false, false
		for _, ct := range cs {
			if !dangling {
				var dials []string
				var args []ir.IRNode
				for _, d := range ct.dials {
					if owner[d] != nil {
						dials = append(dials, d)
					}
				}
				for _, a := range ct.argPerm {
					keep := true
					for _, d := range ct.dials {
						if owner[d] == nil && a.Name() == d+".dial_addr" {
							keep = false
						}
					}
					if keep {
						args = append(args, a)
					}
				}
				ct.dials, ct.argPerm = dials, args
			}
			switch rapid.IntRange(0, 40).Draw(t, "conf") {
			case 0:
				cf := &conf{name: "some.conf"}
				ct.confs = append(ct.confs, cf)
				ct.argPerm = append(ct.argPerm, cf)
				bad = true
			case 1:
				cf := &conf{name: "some.conf", hasValue: true}
				ct.confs = append(ct.confs, cf)
				ct.argPerm = append(ct.argPerm, cf)
			case 2:
				ct.argPerm = append(ct.argPerm, &misc{"misc"})
				bad = true
			}
			c.Logf("pod %s: %s", podNames[podOf[ct]], ct.describe())
			w, a := false, false
			for _, d := range ct.dials {
				switch {
				case owner[d] == nil:
					missing = true
				case podOf[owner[d]] != podOf[ct]:
					a = true
				default:
					w = true
				}
			}
			within, across = within || w, across || a
		}
		conflict := false
		for _, p := range pods {
			fixed := map[uint16]bool{}
			for _, ct := range p {
				for _, b := range ct.binds {
					if b.port != 0 {
						conflict = conflict || fixed[b.port]
						fixed[b.port] = true
					}
				}
			}
		}
		dir, rm := h.TempDir()
		defer rm()
		var nodes []ir.IRNode
		for i, p := range pods {
			pod := &kubepod.PodDeployment{PodName: podNames[i], DockerRegistryAddr: registry}
			for _, ct := range p {
				pod.Nodes = append(pod.Nodes, ct)
			}
			nodes = append(nodes, pod)
		}
		app := &kubernetes.Application{AppName: "app", Nodes: nodes}
		var err error
		if p := h.Try(func() { err = app.GenerateArtifacts(dir) }); p != nil {
			c.Failf("generating the application panics: %v", p)
		}
		if bad || conflict || missing {
			c.Label("invalid")
			c.NonTrivial(true)
			if err == nil {
				c.Failf("an application that is not possible (argument that cannot be passed: %v, two servers of a pod fixed to one port: %v, dialled address that nobody binds: %v) is generated without an error", bad, conflict, missing)
			}
			return
		}
		if err != nil {
			c.Failf("generating the application fails: %v", err)
		}
		c.NonTrivial(within && across)
		all := ""
		fail := func(f string, a ...any) { c.Failf("%s\n%s", fmt.Sprintf(f, a...), all) }
		load := func(name string) parsed {
			y, text, err := parseYAML(filepath.Join(dir, name))
			all += "--- " + name + text
			if err != nil {
				fail("%s is not valid YAML: %v", name, err)
			}
			return y
		}
		cm := load("app_config.yaml")
		if cm["kind"] != "ConfigMap" || dig(cm, "metadata", "name") != "app-config" {
			fail("app_config.yaml is %v", cm)
		}
		cmData := map[string]string{}
		if d := dig(cm, "data"); d != nil {
			for k, v := range d.(parsed) {
				s, ok := v.(string)
				if !ok {
					fail("config map value %v of %v is no string", v, k)
				}
				cmData[k] = s
			}
		}
		deps := make([]parsed, len(pods))
		svcs := make([]parsed, len(pods))
		portOf := map[string]string{}
		kname := func(s string) string { return strings.ReplaceAll(s, "_", "-") }
		for i := range pods {
			deps[i] = load(kname(podNames[i]) + "-deployment.yaml")
			svcs[i] = load(kname(podNames[i]) + "-service.yaml")
			if deps[i]["kind"] != "Deployment" || svcs[i]["kind"] != "Service" || dig(deps[i], "metadata", "name") != kname(podNames[i]) || dig(svcs[i], "metadata", "name") != kname(podNames[i]) {
				fail("pod %v has manifests of kind/name %v/%v %v/%v", podNames[i], deps[i]["kind"], dig(deps[i], "metadata", "name"), svcs[i]["kind"], dig(svcs[i], "metadata", "name"))
			}
			// the service selects the deployment's pods, and the deployment its own
			sel, _ := dig(svcs[i], "spec", "selector").(parsed)
			msel, _ := dig(deps[i], "spec", "selector", "matchLabels").(parsed)
			labels, _ := dig(deps[i], "spec", "template", "metadata", "labels").(parsed)
			for _, s := range []parsed{sel, msel} {
				if len(s) == 0 {
					fail("pod %v: empty selector", podNames[i])
				}
				for k, v := range s {
					if labels[k] != v {
						fail("pod %v: selector %v=%v does not match labels %v", podNames[i], k, v, labels)
					}
				}
			}
			seenPorts := map[string]bool{}
			pl, _ := dig(svcs[i], "spec", "ports").([]any)
			nb := 0
			for _, ct := range pods[i] {
				nb += len(ct.binds)
				for _, b := range ct.binds {
					want := strings.ReplaceAll(kname(b.addr), ".", "-")
					found := 0
					for _, p := range pl {
						pm := p.(parsed)
						if strings.ReplaceAll(fmt.Sprint(pm["name"]), ".", "-") == want {
							found++
							port := fmt.Sprint(pm["port"])
							if fmt.Sprint(pm["targetPort"]) != port && pm["targetPort"] != nil {
								fail("address %v: port %v but target port %v", b.addr, port, pm["targetPort"])
							}
							if seenPorts[port] {
								fail("pod %v: two servers share port %v", podNames[i], port)
							}
							seenPorts[port] = true
							portOf[b.addr] = port
							n, err := strconv.Atoi(port)
							if err != nil || n < 1 || n > 65535 || (b.port != 0 && n != int(b.port)) {
								fail("address %v fixed to %v has port %v", b.addr, b.port, port)
							}
						}
					}
					if found != 1 {
						fail("address %v bound in pod %v has %d service ports", b.addr, podNames[i], found)
					}
				}
			}
			if len(pl) != nb {
				fail("pod %v binds %d addresses but its service has %d ports", podNames[i], nb, len(pl))
			}
		}
		cmNeeded := map[string]string{}
		for i := range pods {
			cl, _ := dig(deps[i], "spec", "template", "spec", "containers").([]any)
			if len(cl) != len(pods[i]) {
				fail("pod %v has %d containers but its deployment has %d", podNames[i], len(pods[i]), len(cl))
			}
			byName := map[string]parsed{}
			for _, x := range cl {
				byName[fmt.Sprint(dig(x, "name"))] = x.(parsed)
			}
			for _, ct := range pods[i] {
				x := byName[kname(clean(ct.name))]
				if x == nil {
					fail("container %v has no entry in the deployment of %v", ct.name, podNames[i])
				}
				img := ct.image
				if img == "" {
					img = registry + "/" + ct.name
				}
				if x["image"] != img {
					fail("container %v uses image %v instead of %v", ct.name, x["image"], img)
				}
				env := map[string]string{}
				ref := map[string]bool{}
				el, _ := x["env"].([]any)
				for _, e := range el {
					k, _ := dig(e, "name").(string)
					if _, has := env[k]; has || ref[k] || k == "" {
						fail("container %v sets %v twice", ct.name, k)
					}
					if key := dig(e, "valueFrom", "configMapKeyRef", "key"); key != nil {
						if dig(e, "valueFrom", "configMapKeyRef", "name") != "app-config" {
							fail("container %v takes %v from another config map", ct.name, k)
						}
						if _, ok := cmData[key.(string)]; !ok {
							fail("container %v takes %v from a config map entry %v that does not exist", ct.name, k, key)
						}
						env[k] = cmData[key.(string)]
						ref[k] = true
						continue
					}
					v, ok := dig(e, "value").(string)
					if !ok {
						fail("container %v: value of %v is no string: %v", ct.name, k, dig(e, "value"))
					}
					env[k] = v
				}
				seen := map[string]bool{}
				expect := func(k, v, why string, fromMap bool) {
					seen[k] = true
					if got, has := env[k]; !has || got != v || ref[k] != fromMap {
						fail("container %v should have %s=%q (%s) but has %q (set %v, from config map %v)", ct.name, k, v, why, got, has, ref[k])
					}
				}
				cports := map[string]int{}
				ppl, _ := x["ports"].([]any)
				for _, p := range ppl {
					cports[fmt.Sprint(dig(p, "containerPort"))]++
				}
				if len(cports) != len(ct.binds) || len(ppl) != len(ct.binds) {
					fail("container %v binds %d addresses but has container ports %v", ct.name, len(ct.binds), cports)
				}
				for _, b := range ct.binds {
					if cports[portOf[b.addr]] != 1 {
						fail("port %v of %v is no container port of %v", portOf[b.addr], b.addr, ct.name)
					}
					if k := envName(b.addr + ".bind_addr"); b.port == 0 || env[k] != "" {
						expect(k, "0.0.0.0:"+portOf[b.addr], "port of the server", false)
					}
				}
				for _, d := range ct.dials {
					o := owner[d]
					k := envName(d + ".dial_addr")
					if podOf[o] == i {
						expect(k, "localhost:"+portOf[d], "server in the same pod", false)
					} else {
						w := kname(podNames[podOf[o]]) + ":" + portOf[d]
						cmNeeded[k] = w
						expect(k, w, "server in another pod", true)
					}
				}
				for _, e := range ct.env {
					expect(envName(e.k), e.v, "environment variable", false)
				}
				for k := range env {
					if !seen[k] {
						fail("container %v has an environment variable %v nobody asked for", ct.name, k)
					}
				}
			}
		}
		for k, v := range cmNeeded {
			if cmData[k] != v {
				fail("config map has %v=%v instead of %v", k, cmData[k], v)
			}
		}
	})
}
