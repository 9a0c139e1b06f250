package deploy

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/h"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	goproclinux "github.com/blueprint-uservices/blueprint/plugins/goproc/linuxgen"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
)

// a synthetic process
type proc struct {
	name   string
	deps   []ir.IRNode
	goproc bool   // uses goproc's run function with a stub binary
	chdir  bool   // changes directory
	mode   string // "ok", "fail", "novar"
	dir    string
	build  []string // build scripts, relative to the process dir
}

func (p *proc) Name() string           { return p.name }
func (p *proc) String() string         { return p.name }
func (p *proc) ImplementsLinuxProcess() {}

func (p *proc) AddProcessArtifacts(ws linux.ProcessWorkspace) error {
	dir, err := ws.CreateProcessDir(p.name)
	if err != nil {
		return err
	}
	p.dir = dir
	if p.goproc {
		// what a built go process looks like
		stub := "#!/bin/bash\nX=\"BIN " + p.name + " cwd=$PWD\"\nfor a in \"$@\"; do X=\"$X|$a\"; done\necho \"$X\" >> \"$VLOG\"\n"
		if err := os.WriteFile(filepath.Join(dir, clean(p.name)), []byte(stub), 0755); err != nil {
			return err
		}
	}
	for _, b := range p.build {
		f := filepath.Join(dir, b)
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(f, []byte("#!/bin/bash\necho \"BUILD $(pwd)/$(basename \"$0\")\" >> \"$VLOG\"\n"), 0644); err != nil {
			return err
		}
		if err := ws.AddBuildScript(f); err != nil {
			return err
		}
	}
	return nil
}

func (p *proc) AddProcessInstance(ws linux.ProcessWorkspace) error {
	if p.goproc {
		f, err := goproclinux.GenerateBinaryRunFunc(clean(p.name), p.deps...)
		if err != nil {
			return err
		}
		return ws.DeclareRunCommand(p.name, f, p.deps...)
	}
	b := "function start_it() {\n"
	b += "\tX=\"START " + p.name + " cwd=$PWD\"\n"
	for _, d := range p.deps {
		b += "\tX=\"$X|" + envName(d.Name()) + "=${" + envName(d.Name()) + "-UNSET}\"\n"
	}
	b += "\techo \"$X\" >> \"$VLOG\"\n"
	if p.chdir {
		b += "\tcd " + clean(p.name) + "\n"
	}
	switch p.mode {
	case "ok":
		b += "\t" + envName(p.name) + "=pid_of_" + clean(p.name) + "\n\treturn 0\n"
	case "fail":
		b += "\treturn 3\n"
	case "novar":
		b += "\treturn 0\n"
	}
	b += "}"
	return ws.DeclareRunCommand(p.name, b, p.deps...)
}

func runScript(dir, script string, env []string) (string, int, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/bash", "./"+script)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	if ctx.Err() != nil {
		return out.String(), -1, true
	}
	if cmd.ProcessState == nil {
		h.EnvError("cannot run bash: %v", err)
	}
	return out.String(), cmd.ProcessState.ExitCode(), false
}

func readLog(f string) []string {
	b, _ := os.ReadFile(f)
	s := strings.TrimSpace(string(b))
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

var pidRE = regexp.MustCompile(`^[0-9]+$`)

// TestC10Scripts: run.sh and build.sh of any set of processes, executed.
func TestC10Scripts(t *testing.T) {
	h.Check(t, h.Opts{Quick: 1500, Thorough: 40000, Hang: h60,
		Rule: "1-5 processes (shell functions or goproc run functions over a stub binary) with an acyclic dependency graph and up to 4 configuration values, failing processes, values with odd characters, missing variables, build scripts; run.sh and build.sh are executed with bash; non-trivial when a process depends on another one"}, func(t *rapid.T, c *h.Case) {
		names := genNames(t, "nproc", 1, 5)
		var confs []*conf
		for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.grpc.addr.dial_addr", "b.http.bind_addr", "opt-level", "cfg_x"}), 0, 4, rapid.ID[string]).Draw(t, "confs") {
			confs = append(confs, &conf{name: k})
		}
		procs := make([]*proc, len(names))
		depth := false
		for i, n := range names {
			p := &proc{name: n, mode: "ok"}
			p.goproc = rapid.IntRange(0, 2).Draw(t, "goproc") == 0
			p.chdir = rapid.Bool().Draw(t, "chdir")
			if !p.goproc {
				p.mode = rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "fail", "novar"}).Draw(t, "mode")
			}
			for _, b := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"build.sh", "sub/dir/make it.sh", "other.sh"}), 0, 2, rapid.ID[string]).Draw(t, "build") {
				p.build = append(p.build, b)
			}
			procs[i] = p
		}
		// dependencies go from later to earlier in a random order of the processes, so names do not predict it
		order := rapid.Permutation(names).Draw(t, "order")
		pos := map[string]int{}
		for i, n := range order {
			pos[n] = i
		}
		required := map[string]bool{}
		for _, p := range procs {
			for _, q := range procs {
				if pos[q.name] < pos[p.name] && rapid.IntRange(0, 2).Draw(t, "dep") == 0 {
					p.deps = append(p.deps, q)
					depth = true
				}
			}
			for _, cf := range confs {
				if rapid.IntRange(0, 2).Draw(t, "needs") == 0 {
					p.deps = append(p.deps, cf)
					required[cf.name] = true
				}
			}
			if len(p.deps) > 0 {
				p.deps = rapid.Permutation(p.deps).Draw(t, "deps")
			}
		}
		tmp, rm := h.TempDir()
		defer rm()
		dir := filepath.Join(tmp, rapid.SampledFrom([]string{"ws", "my work space"}).Draw(t, "dir"))
		os.MkdirAll(dir, 0755)
		vlog := filepath.Join(tmp, "log")
		env := []string{"VLOG=" + vlog}
		vals := map[string]string{}
		var missing []string
		for _, cf := range confs {
			if !required[cf.name] {
				continue
			}
			if rapid.IntRange(0, 11).Draw(t, "missing") == 0 {
				missing = append(missing, cf.name)
				continue
			}
			v := rapid.SampledFrom([]string{"localhost:1234", "a b", "", "x*y", "$HOME", "q\"q", "it's", "-n", "a;b", "`id`", "\\"}).Draw(t, "value")
			vals[cf.name] = v
			env = append(env, envName(cf.name)+"="+v)
		}
		byName := map[string]*proc{}
		var nodes []ir.IRNode
		for _, p := range procs {
			byName[p.name] = p
			nodes = append(nodes, p)
			var ds []string
			for _, d := range p.deps {
				ds = append(ds, d.Name())
			}
			c.Logf("process %s goproc=%v chdir=%v mode=%s deps=%v build=%q", p.name, p.goproc, p.chdir, p.mode, ds, p.build)
		}
		c.Logf("values %q missing %v dir %q", vals, missing, filepath.Base(dir))
		c.NonTrivial(depth)
		ctr := &linuxcontainer.Container{InstanceName: "ctr", ImageName: "ctr", Nodes: nodes}
		gdir := dir
		if rapid.IntRange(0, 9).Draw(t, "relative") == 0 {
			// a workspace given by a relative path
			if wd, err := os.Getwd(); err == nil {
				if r, err := filepath.Rel(wd, dir); err == nil {
					gdir = r
					c.Logf("relative workspace path")
				}
			}
		}
		var err error
		if p := h.Try(func() { err = ctr.GenerateArtifacts(gdir) }); p != nil {
			c.Failf("generating the workspace panics: %v", p)
		}
		if err != nil {
			c.Failf("generating the workspace fails: %v", err)
		}

		// ---- build.sh
		out, _, hang := runScript(dir, "build.sh", env)
		if hang {
			c.Failf("build.sh does not finish\n%s", out)
		}
		var want []string
		for _, p := range procs {
			for _, b := range p.build {
				want = append(want, "BUILD "+filepath.Join(dir, clean(p.name), b))
			}
		}
		got := readLog(vlog)
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Failf("build.sh should run\n%s\nbut ran\n%s\n%s", strings.Join(want, "\n"), strings.Join(got, "\n"), out)
		}
		os.Remove(vlog)

		// ---- run.sh
		out, code, hang := runScript(dir, "run.sh", env)
		script, _ := os.ReadFile(filepath.Join(dir, "run.sh"))
		fail := func(f string, a ...any) {
			c.Failf("%s\n--- output (exit code %d)\n%s--- log\n%s\n--- run.sh\n%s", fmt.Sprintf(f, a...), code, out, strings.Join(readLog(vlog), "\n"), script)
		}
		if hang {
			fail("run.sh does not finish")
		}
		log := readLog(vlog)
		if len(missing) > 0 {
			c.Label("missing variable")
			if len(log) > 0 {
				fail("variables %v are missing but processes are started", missing)
			}
			for _, m := range missing {
				found := false
				for _, l := range strings.Split(out, "\n") {
					found = found || strings.Contains(l, envName(m)) && strings.Contains(l, "missing")
				}
				if !found {
					fail("the missing variable %v is not named", envName(m))
				}
			}
			for k := range vals {
				for _, l := range strings.Split(out, "\n") {
					if strings.HasPrefix(strings.TrimSpace(l), envName(k)+" (missing)") {
						fail("variable %v is set but reported as missing", envName(k))
					}
				}
			}
			if code == 0 {
				fail("variables are missing but run.sh succeeds")
			}
			return
		}
		canStart := map[string]bool{}
		for _, n := range order { // dependencies come first
			ok := true
			for _, d := range byName[n].deps {
				if q, isProc := d.(*proc); isProc && !(canStart[q.name] && q.mode == "ok") {
					ok = false
				}
			}
			canStart[n] = ok
		}
		started := map[string]int{}
		bins := map[string]int{}
		for _, l := range log {
			parts := strings.Split(l, "|")
			f := strings.Fields(parts[0])
			if len(f) < 3 || byName[f[1]] == nil {
				fail("log line %q", l)
			}
			p := byName[f[1]]
			cwd := strings.TrimPrefix(parts[0][len(f[0])+len(f[1])+2:], "cwd=")
			if f[0] == "BIN" {
				bins[p.name]++
				if cwd != filepath.Join(dir, clean(p.name)) {
					fail("go process %v is started in %v", p.name, cwd)
				}
				args := map[string]string{}
				for _, a := range parts[1:] {
					k, v, _ := strings.Cut(strings.TrimPrefix(a, "--"), "=")
					args[k] = v
				}
				if len(args) != len(p.deps) || len(parts)-1 != len(p.deps) {
					fail("go process %v needs %d arguments but gets %q", p.name, len(p.deps), parts[1:])
				}
				for _, d := range p.deps {
					v, has := args[d.Name()]
					if q, isProc := d.(*proc); isProc {
						if !has || (q.goproc && !pidRE.MatchString(v)) || (!q.goproc && v != "pid_of_"+clean(q.name)) {
							fail("go process %v gets %v=%q", p.name, d.Name(), v)
						}
					} else if !has || v != vals[d.Name()] {
						fail("go process %v gets %v=%q instead of %q", p.name, d.Name(), v, vals[d.Name()])
					}
				}
				continue
			}
			started[p.name]++
			if cwd != dir {
				fail("process %v is started in %v instead of the workspace root", p.name, cwd)
			}
			for i, d := range p.deps {
				k, v, _ := strings.Cut(parts[1+i], "=")
				if k != envName(d.Name()) {
					fail("log line %q", l)
				}
				if q, isProc := d.(*proc); isProc {
					if (q.goproc && !pidRE.MatchString(v)) || (!q.goproc && v != "pid_of_"+clean(q.name)) {
						fail("process %v is started before its dependency %v (%v=%q)", p.name, q.name, k, v)
					}
				} else if v != vals[d.Name()] {
					fail("process %v sees %v=%q instead of %q", p.name, k, v, vals[d.Name()])
				}
			}
		}
		for _, p := range procs {
			n := started[p.name]
			if p.goproc {
				n = bins[p.name]
			}
			switch {
			case !canStart[p.name] && n > 0:
				fail("process %v is started although a dependency could not be", p.name)
			case canStart[p.name] && n == 0:
				fail("process %v is not started", p.name)
			case p.mode == "ok" && n > 1:
				fail("process %v is started %d times", p.name, n)
			}
		}
	})
}

// TestC10BuildScripts: which build scripts a workspace accepts.
func TestC10BuildScripts(t *testing.T) {
	h.Check(t, h.Opts{Quick: 4000, Thorough: 100000, Hang: h60,
		Rule: "a workspace and up to 4 paths of build scripts, inside it (possibly repeated or spelled with .. ) or outside it; non-trivial when one is outside"}, func(t *rapid.T, c *h.Case) {
		tmp, rm := h.TempDir()
		defer rm()
		dir := filepath.Join(tmp, "ws")
		os.MkdirAll(filepath.Join(dir, "p"), 0755)
		ws := linuxcontainer.NewBasicWorkspace("ws", dir)
		want := map[string]bool{}
		outside := false
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			p := rapid.SampledFrom([]string{"p/build.sh", "p/x/../build.sh", "p/b2.sh", "root.sh", "../other/build.sh", "../ws2/build.sh", "p/../../build.sh", "..hidden/build.sh", "../ws/p/build.sh"}).Draw(t, "path")
			full := dir + "/" + p
			inside := strings.HasPrefix(filepath.Clean(full), dir+"/")
			if inside {
				if !want[filepath.Clean(full)] {
					want[filepath.Clean(full)] = true
					os.MkdirAll(filepath.Dir(filepath.Clean(full)), 0755)
					os.WriteFile(filepath.Clean(full), []byte("#!/bin/sh\necho \"$(pwd)/$(basename \"$0\")\" >> \"$VLOG\"\n"), 0644)
				}
			} else {
				outside = true
			}
			c.Logf("%s", p)
			var err error
			if pn := h.Try(func() { err = ws.AddBuildScript(full) }); pn != nil {
				c.Failf("adding build script %v panics: %v", p, pn)
			}
			if inside != (err == nil) {
				c.Failf("build script %v: inside the workspace: %v, error: %v", p, inside, err)
			}
		}
		c.NonTrivial(outside)
		if err := ws.Finish(); err != nil {
			c.Failf("finishing the workspace fails: %v", err)
		}
		if rapid.IntRange(0, 3).Draw(t, "run") != 0 {
			return
		}
		vlog := filepath.Join(tmp, "log")
		out, _, hang := runScript(dir, "build.sh", []string{"VLOG=" + vlog})
		if hang {
			c.Failf("build.sh does not finish")
		}
		got := readLog(vlog)
		if len(got) != len(want) {
			c.Failf("build.sh ran %v instead of %v\n%s", got, want, out)
		}
		for _, g := range got {
			if !want[g] {
				c.Failf("build.sh ran %v instead of %v\n%s", got, want, out)
			}
		}
	})
}
