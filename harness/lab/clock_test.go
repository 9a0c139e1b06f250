package lab

import (
	"context"
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/DistributedClocks/GoVector/govec"
	gvclock "github.com/DistributedClocks/GoVector/govec/vclock"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/govector"
	"pgregory.net/rapid"
	"verif/harness/h"
)

var govecOnce sync.Once
var govecLogger *govector.GoVecLogger
var govecFile string

// theGoVecLogger is the logger of this process: there can be only one.
func theGoVecLogger(c *h.Case) *govector.GoVecLogger {
	govecOnce.Do(func() {
		dir, _ := os.MkdirTemp(os.Getenv("VERIF_TMP"), "govec")
		govecFile = filepath.Join(dir, "p")
		l, err := govector.NewGoVecLogger(context.Background(), govecFile)
		if err != nil {
			c.Failf("NewGoVecLogger: %v", err)
		}
		govecLogger = l
		govecFile += "-Log.txt"
	})
	return govecLogger
}

// readLog returns what was written since the offset: pairs of a clock and a message.
func readLog(c *h.Case, off int) (clocks, msgs []string, n int) {
	b, err := os.ReadFile(govecFile)
	if err != nil {
		c.Failf("no log file: %v", err)
	}
	n = len(b)
	ls := strings.Split(strings.TrimSuffix(string(b[off:]), "\n"), "\n")
	for i := 0; i+1 < len(ls); i += 2 {
		clocks, msgs = append(clocks, ls[i]), append(msgs, ls[i+1])
	}
	return
}

type vclock map[string]uint64

func (v vclock) merge(w vclock) vclock {
	out := maps.Clone(v)
	for k, n := range w {
		out[k] = max(out[k], n)
	}
	return out
}

// speer is another process: its clock, by the library, and as the model has it.
type speer struct {
	name  string
	log   *govec.GoLog
	model vclock
}

func (p *speer) tick() { p.model = p.model.merge(vclock{p.name: p.model[p.name] + 1}) }

type vmessage struct {
	bytes []byte
	clock vclock // nil: the bytes are no clock
	text  string
}

func TestC26_ProcessClock(t *testing.T) {
	counts := map[string]uint64{}
	h.Check(t, h.Opts{Quick: 12000, Thorough: 400000, Rule: "2-40 events of a process, among them messages sent to and received from 1-4 other processes in any order, some received twice or not at all, some lost or damaged, some from several goroutines; non-trivial = the process learned of another process's events and sent a message after that"}, func(t *rapid.T, c *h.Case) {
		l := theGoVecLogger(c)
		backend.SetDefaultLogger(l)
		me := strings.TrimSuffix(govecFile, "-Log.txt")
		// the process and its clock outlive the case: start from the clock it has, with an empty log
		if _, err := l.Info(context.Background(), "start"); err != nil {
			c.Failf("Info: %v", err)
		}
		clocks, _, _ := readLog(c, 0)
		os.Truncate(govecFile, 0)
		off := 0
		cur := vclock{}
		if err := json.Unmarshal([]byte(clocks[len(clocks)-1][len(me)+1:]), &cur); err != nil {
			c.Failf("the log ends with the clock %q", clocks[len(clocks)-1])
		}
		var peers []*speer
		for n := rapid.IntRange(1, 4).Draw(t, "peers"); n > 0; n-- {
			p := &speer{name: fmt.Sprintf("peer%d.goveclogger", n)}
			cfg := govec.GetDefaultConfig()
			cfg.LogToFile = false
			p.model = vclock{p.name: counts[p.name]} // the process may know what it was in the case before
			cfg.InitialVC = gvclock.New().CopyFromMap(maps.Clone(p.model))
			p.log = govec.InitGoVector(p.name, p.name, cfg)
			peers = append(peers, p)
			defer func() { counts[p.name] = p.model[p.name] }()
		}
		opts := govec.GetDefaultLogOptions()
		var mail []vmessage // messages that anyone may receive, any number of times
		type event struct {
			clock vclock
			msg   string
		}
		var want []event
		learned, told := false, false
		tick := func(msg string) {
			cur = cur.merge(vclock{me: cur[me] + 1})
			want = append(want, event{cur, "INFO " + msg})
		}
		text := func() string {
			return rapid.SampledFrom([]string{"a", "Preparing to make request for function Get", "", "{\"x\":1}", "%d", "peer1 {\"peer1\":9}"}).Draw(t, "text")
		}
		var runPar func()
		for k := rapid.IntRange(2, 40).Draw(t, "n"); k > 0; k-- {
			switch op := rapid.SampledFrom([]string{"local", "send", "receive", "receive", "receive", "damaged", "peer-local", "peer-send", "peer-send", "peer-receive", "par"}).Draw(t, "op"); op {
			case "local":
				m := text()
				c.Logf("local %q", m)
				p := backend.Priority(rapid.IntRange(0, 3).Draw(t, "prio"))
				if _, err := l.Logf(context.Background(), backend.LogOptions{Level: p}, "%s", m); err != nil {
					c.Failf("Logf: %v", err)
				}
				if p == backend.DEBUG { // no event of the process
					continue
				}
				tick(m)
				want[len(want)-1].msg = []string{"DEBUG", "INFO", "WARNING", "ERROR"}[p] + " " + m
			case "send":
				m := text()
				c.Logf("send %q", m)
				b, err := govector.GetLogger().GetSendCtx(context.Background(), m)
				if err != nil {
					c.Failf("GetSendCtx: %v", err)
				}
				tick(m)
				mail = append(mail, vmessage{b, cur, m})
				told = told || learned
			case "receive", "damaged":
				if len(mail) == 0 && op == "receive" {
					continue
				}
				var x vmessage
				if op == "damaged" {
					x = vmessage{bytes: rapid.SampledFrom([][]byte{nil, {}, {0}, {0xc1, 1, 2}, []byte("hello")}).Draw(t, "bytes")}
				} else {
					x = mail[rapid.IntRange(max(0, len(mail)-6), len(mail)-1).Draw(t, "which")]
				}
				m := text()
				c.Logf("receive %v", x.clock)
				var err error
				if p := h.Try(func() { err = l.UnpackReceiveCtx(context.Background(), m, x.bytes) }); p != nil {
					c.Failf("UnpackReceiveCtx(%q) panics: %v", x.bytes, p)
				}
				if err != nil && x.clock != nil {
					c.Failf("UnpackReceiveCtx: %v", err)
				}
				before := cur
				tick(m)
				cur = cur.merge(x.clock)
				want[len(want)-1].clock = cur
				for q := range x.clock {
					if q != me && x.clock[q] > before[q] {
						learned = true
					}
				}
			case "peer-local", "peer-send":
				p := peers[rapid.IntRange(0, len(peers)-1).Draw(t, "peer")]
				c.Logf("%s %s", p.name, op)
				p.tick()
				if op == "peer-local" {
					p.log.LogLocalEvent("x", opts)
				} else {
					mail = append(mail, vmessage{p.log.PrepareSend("x", "", opts), p.model, "x"})
				}
			case "peer-receive":
				if len(mail) == 0 {
					continue
				}
				p := peers[rapid.IntRange(0, len(peers)-1).Draw(t, "peer")]
				x := mail[rapid.IntRange(max(0, len(mail)-6), len(mail)-1).Draw(t, "which")]
				c.Logf("%s receives %v", p.name, x.clock)
				var s string
				p.log.UnpackReceive("x", x.bytes, &s, opts)
				p.tick()
				p.model = p.model.merge(x.clock)
				if got := p.log.GetCurrentVC().GetMap(); !maps.Equal(got, map[string]uint64(p.model)) {
					c.Failf("%s received %v, of a process with the clock %v, and has the clock %v, expected %v", p.name, x.text, x.clock, got, p.model)
				}
			case "par":
				if runPar != nil {
					continue // once, at the end
				}
				n := rapid.IntRange(2, 6).Draw(t, "goroutines")
				each := rapid.IntRange(1, 5).Draw(t, "each")
				kinds := rapid.SliceOfN(rapid.IntRange(0, 2), n, n).Draw(t, "kinds")
				runPar = func() {
					c.Logf("%d goroutines of kinds %v, %d events each", n, kinds, each)
					var wg sync.WaitGroup
					var mu sync.Mutex
					var sent [][]byte
					known := vclock{}
					for g := 0; g < n; g++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for e := 0; e < each; e++ {
								switch kinds[g] {
								case 0:
									l.Info(context.Background(), "par")
								case 1:
									b, _ := l.GetSendCtx(context.Background(), "par")
									mu.Lock()
									sent = append(sent, b)
									mu.Unlock()
								default:
									var x vmessage
									mu.Lock()
									if len(mail) > 0 {
										x = mail[(g+e)%len(mail)]
										known = known.merge(x.clock)
									}
									mu.Unlock()
									l.UnpackReceiveCtx(context.Background(), "par", x.bytes)
								}
							}
						}()
					}
					wg.Wait()
					clocks, msgs, _ := readLog(c, off)
					if len(clocks) != len(want)+n*each {
						c.Failf("%d events in the log, expected %d", len(clocks), len(want)+n*each)
					}
					prev := cur
					for i, s := range clocks[len(want):] {
						var v vclock
						if err := json.Unmarshal([]byte(s[len(me)+1:]), &v); err != nil || msgs[len(want)+i] != "INFO par" {
							c.Failf("concurrent event %d is %q %q", i+1, s, msgs[len(want)+i])
						}
						if v[me] != prev[me]+1 || !maps.Equal(v.merge(prev), v) {
							c.Failf("concurrent event %d has clock %v, the one before it %v", i+1, v, prev)
						}
						prev = v
					}
					end := cur.merge(known)
					end[me] = cur[me] + uint64(n*each)
					if !maps.Equal(prev, end) {
						c.Failf("after concurrent events the clock is %v, expected %v", prev, end)
					}
					own := map[uint64]bool{}
					for _, b := range sent {
						p := peers[0]
						var s string
						q := govec.InitGoVector("q", "q", govec.GoLogConfig{})
						q.UnpackReceive("x", b, &s, opts)
						v := q.GetCurrentVC().GetMap()
						if own[v[me]] || v[me] <= cur[me] || v[me] > end[me] {
							c.Failf("messages sent at the same time carry the clock %v (%s)", v, p.name)
						}
						own[v[me]] = true
					}
				}
			}
		}
		clocks, msgs, _ := readLog(c, off)
		if len(clocks) != len(want) {
			c.Failf("%d events in the log, expected %d: %q", len(clocks), len(want), msgs)
		}
		for i, w := range want {
			p, s := me, clocks[i][len(me)+1:]
			var v vclock
			if err := json.Unmarshal([]byte(s), &v); err != nil || p != clocks[i][:len(me)] {
				c.Failf("event %d is logged as %q", i+1, clocks[i])
			}
			if !maps.Equal(v, w.clock) || msgs[i] != w.msg {
				c.Failf("event %d is %v %q, expected %v %q", i+1, v, msgs[i], w.clock, w.msg)
			}
		}
		if runPar != nil {
			runPar()
			c.Label("concurrent")
		}
		c.NonTrivial(told)
	})
}
