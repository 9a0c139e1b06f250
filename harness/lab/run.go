package lab

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/h"
)

type env struct {
	dir  string // scratch directory, reused by every application of this run so that the build cache works
	repo string // directories that go.work of the wiring uses
	vars []string
	bin  string
}

var theEnv *env
var envOnce sync.Once

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return filepath.Join(r, "harness")
	}
	return filepath.Dir(os.Getenv("GOWORK"))
}

func repoDir() string {
	b, _ := os.ReadFile(filepath.Join(root(), "go.work"))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasSuffix(l, "/blueprint") {
			return strings.TrimSuffix(l, "/blueprint")
		}
	}
	return "/repo"
}

// setup prepares the scratch directory and the protoc plugins.
func setup() *env {
	envOnce.Do(func() {
		d, _ := h.TempDir()
		e := &env{dir: d, repo: repoDir(), bin: filepath.Join(d, "bin")}
		os.MkdirAll(e.bin, 0755)
		run := func(args ...string) {
			c := exec.Command("go", args...)
			c.Dir = root()
			c.Env = os.Environ()
			if b, err := c.CombinedOutput(); err != nil {
				h.EnvError("cannot build the protoc plugins: %v\n%s", err, b)
			}
		}
		run("build", "-o", e.bin+"/", "./cmd/protoc-gen-go-grpc", "google.golang.org/protobuf/cmd/protoc-gen-go")
		e.vars = append(os.Environ(), "PATH="+e.bin+":"+os.Getenv("PATH"), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
		var sum bytes.Buffer
		for _, p := range []string{"blueprint", "plugins", "runtime", "test/wiring", "test/workflow", "examples/dsb_sn/wiring"} {
			b, _ := os.ReadFile(filepath.Join(e.repo, p, "go.sum"))
			sum.Write(b)
		}
		b, _ := os.ReadFile(filepath.Join(root(), "go.work.sum"))
		sum.Write(b)
		os.WriteFile(filepath.Join(d, "go.work.sum"), sum.Bytes(), 0644)
		// gRPC and what it needs, without the requirements that cannot be resolved offline
		o, _ := exec.Command("go", "env", "GOMODCACHE").Output()
		cache := strings.TrimSpace(string(o))
		vendorModule(cache, "golang.org/x/net", filepath.Join(d, "xnet"), "require golang.org/x/text v0.19.0", "http2", "http2/hpack", "http/httpguts", "idna", "trace", "internal")
		vendorModule(cache, "google.golang.org/grpc", filepath.Join(d, "grpc"), "require (\n\tgithub.com/golang/protobuf v1.5.4\n\tgolang.org/x/sys v0.26.0\n\tgoogle.golang.org/protobuf v1.34.0\n)", "")
		vendorModule(cache, "google.golang.org/genproto", filepath.Join(d, "genproto"), "require google.golang.org/protobuf v1.34.0", "googleapis/rpc/status")
		os.Rename(filepath.Join(d, "genproto/googleapis/rpc/status"), filepath.Join(d, "genproto/status"))
		writeFiles(d, map[string]string{"genproto/go.mod": "module google.golang.org/genproto/googleapis/rpc\n\ngo 1.25\n\nrequire google.golang.org/protobuf v1.34.0\n"})
		theEnv = e
	})
	return theEnv
}

// vendorModule copies directories of a cached module and gives the copy a go.mod of its own.
func vendorModule(cache, module, to, requires string, dirs ...string) {
	vs, _ := filepath.Glob(cache + "/" + module + "@v*")
	if len(vs) == 0 {
		h.EnvError("%s is not in the module cache", module)
	}
	from := vs[len(vs)-1]
	for _, d := range dirs {
		filepath.Walk(filepath.Join(from, d), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			rel, _ := filepath.Rel(from, p)
			if fi.IsDir() {
				_, no := os.Stat(filepath.Join(p, "go.mod"))
				if n := fi.Name(); p != from && no == nil || n == "testdata" || n == "examples" || n == "test" || n == "interop" {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				b, _ := os.ReadFile(p)
				writeFiles(to, map[string]string{rel: string(b)})
			}
			return nil
		})
	}
	writeFiles(to, map[string]string{"go.mod": "module " + module + "\n\ngo 1.25\n\n" + requires + "\n"})
}

func cleanup() {
	if theEnv != nil && os.Getenv("LAB_KEEP") == "" {
		os.RemoveAll(theEnv.dir)
	}
}

func writeFiles(dir string, files map[string]string) {
	for p, s := range files {
		f := filepath.Join(dir, p)
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			h.EnvError("cannot write %s: %v", f, err)
		}
	}
}

// goWork writes a go.work with the given modules, and with every module of the harness's own workspace (so that the
// same versions of outside modules are selected, the only ones available offline) unless one of dirs is the same module.
func (e *env) goWork(name string, grpc bool, dirs ...string) string {
	have := map[string]bool{}
	for _, d := range dirs {
		have[modulePath(d)] = true
	}
	b, err := os.ReadFile(filepath.Join(root(), "go.work"))
	if err != nil {
		h.EnvError("%v", err)
	}
	var base []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") || strings.HasPrefix(l, "./") || l == "." {
			if !strings.HasPrefix(l, "/") {
				l = filepath.Join(root(), l)
			}
			base = append(base, l)
		}
	}
	base = append(base, root()+"/stubs/mux", root()+"/stubs/circuitbreaker")
	if grpc {
		base = append(base, e.dir+"/grpc", e.dir+"/genproto", e.dir+"/xnet")
	}
	var w strings.Builder
	w.WriteString("go 1.25\n\nuse (\n")
	for _, d := range dirs {
		fmt.Fprintf(&w, "\t%s\n", d)
	}
	for _, d := range base {
		if !have[modulePath(d)] {
			fmt.Fprintf(&w, "\t%s\n", d)
		}
	}
	fmt.Fprintf(&w, ")\n\nreplace gitlab.mpi-sws.org/cld/tracing/tracing-framework-go => %s/stubs/tracing\n", root())
	f := filepath.Join(e.dir, name, "go.work")
	os.MkdirAll(filepath.Dir(f), 0755)
	os.WriteFile(f, []byte(w.String()), 0644)
	s, _ := os.ReadFile(filepath.Join(e.dir, "go.work.sum"))
	os.WriteFile(filepath.Join(e.dir, name, "go.work.sum"), s, 0644)
	return f
}

func modulePath(dir string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	return ""
}

func (e *env) cmd(gowork, dir string, limit time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = append(append([]string{}, e.vars...), "GOWORK="+gowork)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = time.Second
	b, err := c.CombinedOutput()
	return string(b), err
}

// compiled is an application that Blueprint has compiled.
type compiled struct {
	e   *env
	a   *app
	out string
}

type compileError struct{ stage, text string }

func (c *compileError) Error() string { return c.stage + ":\n" + c.text }

// compile writes the application, checks that its own code builds, and runs the Blueprint compiler on it.
func compile(a *app) (*compiled, *compileError) {
	e := setup()
	app := filepath.Join(e.dir, "app")
	os.RemoveAll(app)
	writeFiles(filepath.Join(app, "wf"), a.workflow())
	writeFiles(filepath.Join(app, "wiring"), map[string]string{
		"go.mod":  "module lab.test/wiring\n\ngo 1.23\n",
		"main.go": a.wiring(),
	})
	writeFiles(app, a.files)
	dirs := []string{filepath.Join(app, "wf"), filepath.Join(app, "wiring")}
	for _, d := range a.mods {
		dirs = append(dirs, filepath.Join(app, d))
	}
	gw := e.goWork("app", false, dirs...)
	if o, err := e.cmd(gw, filepath.Join(app, "wf"), 5*time.Minute, "go", "build", "./..."); err != nil {
		return nil, &compileError{"generated-input", o} // the harness wrote bad code
	}
	bin := filepath.Join(app, "wiring.bin")
	if o, err := e.cmd(gw, filepath.Join(app, "wiring"), 5*time.Minute, "go", "build", "-trimpath", "-o", bin, "."); err != nil {
		return nil, &compileError{"generated-input", o}
	}
	out := filepath.Join(app, "out")
	start := time.Now()
	if o, err := e.cmd(gw, filepath.Join(app, "wiring"), 3*time.Minute, bin, append([]string{"-w", "lab", "-o", out}, a.flags...)...); err != nil {
		if time.Since(start) >= 3*time.Minute { // it takes a second or two; shrinking would run into the check's own limit
			fmt.Printf("\nVERIF-HANG: the wiring program did not finish within 3 minutes\n  case:\n%s\n", a.wiring())
			os.Exit(3)
		}
		return nil, &compileError{"blueprint", brief(o)}
	}
	return &compiled{e, a, out}, nil
}

// brief keeps the errors of the compiler's output.
func brief(o string) string {
	var ls []string
	for _, l := range strings.Split(o, "\n") {
		if strings.Contains(l, "ERROR") || strings.Contains(l, "Unable") || strings.HasPrefix(l, "panic") {
			if len(l) > 500 {
				l = l[:500]
			}
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return tail(o, 40)
	}
	return tail(strings.Join(ls, "\n"), 15)
}

func tail(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	return strings.Join(ls, "\n")
}

// proc is a generated Go process.
type proc struct {
	up    []string // addresses to wait for before the next process is started
	name  string   // process name
	dir   string   // workspace
	bin   string
	args  map[string]string
	argv  []string // instead of args
	wd    string   // working directory
	vars  []string // additional environment
	ready func()   // called when it is up
}

// procs finds the Go processes Blueprint generated, wherever they are in the output.
func (c *compiled) procs() []*proc {
	var out []*proc
	filepath.Walk(c.out, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Name() == "go.work" {
			d := filepath.Dir(p)
			out = append(out, &proc{name: filepath.Base(d), dir: d})
			return filepath.SkipDir
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// workDirs lists the modules of the generated workspace, from its go.work.
func workDirs(dir string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, "go.work"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "./") {
			out = append(out, filepath.Join(dir, l))
		}
	}
	return out
}

// workFile makes the go.work used to build a generated process offline.
func (c *compiled) workFile(p *proc) string {
	return c.e.goWork("work-"+p.name, c.a.wire == grpcW, workDirs(p.dir)...)
}

// buildAll builds the generated processes, in parallel.
func (c *compiled) buildAll(ps []*proc, race bool) *compileError {
	errs := make([]*compileError, len(ps))
	var wg sync.WaitGroup
	for k, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.bin = filepath.Join(c.e.dir, "app", p.name+".bin")
			args := []string{"build", "-trimpath", "-o", p.bin}
			if race {
				args = append(args, "-race")
			}
			if o, err := c.e.cmd(c.workFile(p), filepath.Join(p.dir, p.name), 5*time.Minute, "go", append(args, ".")...); err != nil {
				errs[k] = &compileError{"build of generated process " + p.name, tail(strings.ReplaceAll(o, c.e.dir, ""), 40)}
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// ports hands out free loopback addresses.
var nextPort = 0

// freeAddr returns a free address below the range that connections take their own ports from, so that
// nothing else takes it before the process it is meant for.  The checks that run at the same time use
// ranges of their own.
func freeAddr() string {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	if nextPort == 0 {
		nextPort = os.Getpid() * 97
	}
	for k := 0; k < 4800; k++ {
		nextPort++
		a := fmt.Sprintf("127.0.0.1:%d", 12000+shard%4*5000+nextPort%5000)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
	h.EnvError("no loopback port")
	return ""
}

// inv and result mirror the records of assets/lab.go.
type inv struct {
	Svc, Method, Args string
	Start, End        int64
	Deadline          int64
	Val, CtxErr       string
	N                 int
	Span              string
	Pid               int
	Inst              string
}

type cmd struct {
	ID    int
	Svc   string
	M     string
	Seed  int64 `json:",omitempty"`
	Lit   []json.RawMessage
	Val   string `json:",omitempty"`
	Limit int    `json:",omitempty"`
	Par   []cmd  `json:",omitempty"`
}

type result struct {
	ID               int
	Svc, M, Args     string
	Rets, Err        string
	Want, WantErr    string
	ArgsAfter, Panic string
	Start, End       int64
	Span             string
}

type outcome struct {
	results map[int]result
	order   []int
	invs    []inv // start records
	ends    []inv
	output  string
}

// run starts every process (the one with the probe last), lets the probe execute the commands, and collects what happened.
func (c *compiled) run(ps []*proc, probe string, cmds []cmd, waitFor []string, extra []string, limit time.Duration) (*outcome, error) {
	return c.runHold(ps, probe, cmds, waitFor, extra, limit, nil)
}

// runHold is run, but waits for hold to return before the processes are ended.  A run that stalls
// is repeated once, so that a machine that hands out a port twice or is busy raises no alarm.
func (c *compiled) runHold(ps []*proc, probe string, cmds []cmd, waitFor []string, extra []string, limit time.Duration, hold func()) (*outcome, error) {
	o, err := c.runOnce(ps, probe, cmds, waitFor, extra, limit/2, hold)
	if err != nil && errors.As(err, &stalled{}) {
		fmt.Printf("NOTE: a run stalled and is repeated: %v\n%s\n", err, c.a.wiring())
		o, err = c.runOnce(ps, probe, cmds, waitFor, extra, limit, hold)
	}
	return o, err
}

// stalled is the error of a run in which nothing went wrong except that it did not end.
type stalled struct{ error }

func (c *compiled) runOnce(ps []*proc, probe string, cmds []cmd, waitFor []string, extra []string, limit time.Duration, hold func()) (*outcome, error) {
	d := filepath.Join(c.e.dir, "app", "run")
	os.RemoveAll(d)
	os.MkdirAll(d, 0755)
	var cb bytes.Buffer
	for _, x := range cmds {
		b, _ := json.Marshal(x)
		cb.Write(append(b, '\n'))
	}
	os.WriteFile(filepath.Join(d, "cmds"), cb.Bytes(), 0644)
	vars := append(append([]string{}, c.e.vars...), "LAB_CMDS="+d+"/cmds", "LAB_OUT="+d+"/out", "LAB_GO="+d+"/go", "LAB_LOG="+d+"/log", "LAB_WIRE="+string(c.a.wire))
	if c.a.wire == inProc {
		vars = append(vars, "LAB_STRICT=1")
	}
	vars = append(vars, extra...)
	if hold != nil {
		vars = append(vars, "LAB_STAY=1")
	}
	var mu sync.Mutex
	var out bytes.Buffer
	type running struct {
		p    *proc
		c    *exec.Cmd
		done chan struct{}
	}
	var rs []*running
	defer func() {
		for _, r := range rs {
			syscall.Kill(-r.c.Process.Pid, syscall.SIGKILL)
			<-r.done
		}
	}()
	text := func() string { mu.Lock(); defer mu.Unlock(); return tail(out.String(), 40) }
	end := time.Now().Add(limit)
	await := func(addrs []string) error {
		for _, a := range addrs {
			for {
				if cn, err := net.DialTimeout("tcp", a, time.Second); err == nil {
					cn.Close()
					break
				}
				for _, r := range rs {
					select {
					case <-r.done:
						return fmt.Errorf("process %s ended before its servers were up:\n%s", r.p.name, text())
					default:
					}
				}
				if time.Now().After(end) {
					return stalled{fmt.Errorf("no server at %s after %v:\n%s", a, limit, text())}
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		return nil
	}
	var probeDone chan struct{}
	for _, p := range ps {
		var as []string
		for k, v := range p.args {
			as = append(as, "--"+k+"="+v)
		}
		sort.Strings(as)
		if p.argv != nil {
			as = p.argv
		}
		x := exec.Command(p.bin, as...)
		x.Dir, x.Env = d, append(vars[:len(vars):len(vars)], p.vars...)
		if p.wd != "" {
			x.Dir = p.wd
		}
		x.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		w := &lockedWriter{mu: &mu, b: &out, prefix: p.name + ": "}
		x.Stdout, x.Stderr = w, w
		if p.name == probe {
			// a gRPC client that meets no server waits for a second before it tries again
			if err := await(waitFor); err != nil {
				return nil, err
			}
		}
		if err := x.Start(); err != nil {
			h.EnvError("cannot start %s: %v", p.bin, err)
		}
		r := &running{p, x, make(chan struct{})}
		go func() { x.Wait(); close(r.done) }()
		rs = append(rs, r)
		if p.name == probe {
			probeDone = r.done
		}
		if err := await(p.up); err != nil {
			return nil, err
		}
		if p.ready != nil {
			p.ready()
		}
	}
	if err := await(waitFor); err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(d, "go"), nil, 0644)
	wrote := make(chan struct{})
	if hold != nil {
		go func() {
			for {
				if b, _ := os.ReadFile(filepath.Join(d, "out")); strings.Contains(string(b), "{\"ID\":-1}") {
					break
				}
				select {
				case <-probeDone:
					return
				case <-time.After(5 * time.Millisecond):
				}
			}
			hold()
			close(wrote)
		}()
	}
	select {
	case <-probeDone:
	case <-wrote:
	case <-time.After(time.Until(end)):
		return nil, stalled{fmt.Errorf("the requests did not finish within %v:\n%s\n%s", limit, text(), readTail(filepath.Join(d, "log")))}
	}
	o := &outcome{results: map[int]result{}, output: text()}
	b, _ := os.ReadFile(filepath.Join(d, "out"))
	complete := false
	for _, l := range strings.Split(string(b), "\n") {
		var r result
		if json.Unmarshal([]byte(l), &r) == nil && l != "" {
			if r.ID == -1 {
				complete = true
				continue
			}
			o.results[r.ID] = r
			o.order = append(o.order, r.ID)
		}
	}
	if !complete {
		return nil, fmt.Errorf("the process making the requests ended early:\n%s", text())
	}
	lb, _ := os.ReadFile(filepath.Join(d, "log"))
	for _, l := range strings.Split(string(lb), "\n") {
		var i inv
		if l != "" && json.Unmarshal([]byte(l), &i) == nil {
			if i.End == 0 {
				o.invs = append(o.invs, i)
			} else {
				o.ends = append(o.ends, i)
			}
		}
	}
	return o, nil
}

func readTail(f string) string {
	b, _ := os.ReadFile(f)
	return tail(string(b), 10)
}

type lockedWriter struct {
	mu     *sync.Mutex
	b      *bytes.Buffer
	prefix string
}

func (w *lockedWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if bytes.HasPrefix(p, []byte("{\"Resource\":")) {
		return len(p), nil // metrics on standard output
	}
	if w.b.Len() < 1<<20 {
		w.b.WriteString(w.prefix)
		w.b.Write(p)
	}
	return len(p), nil
}

// settle gives gRPC clients that were started before their servers the time to connect.
func settle() { time.Sleep(1500 * time.Millisecond) }

func (x *compiled) settle() func() {
	if x.a.wire == grpcW {
		return settle
	}
	return nil
}
