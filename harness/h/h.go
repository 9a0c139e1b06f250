// Package h is the driver shared by all property tests: it runs a property with rapid, counts what
// was generated, watches for hangs and writes the statistics that tools/check.py turns into evidence.
package h

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Opts describes one property test.
type Opts struct {
	Quick, Thorough int           // number of generated cases per tier
	Rule            string        // what a case is, and what makes one non-trivial
	Hang            time.Duration // a single case running longer than this is a violation ("hangs"); 0 = 120s
}

// Case is one generated case: its log is the human-readable form of the input.
type Case struct {
	t          *rapid.T
	mu         sync.Mutex
	log        []string
	nontrivial bool
	labels     []string
}

// Logf records a part of the generated case. Two cases with the same log are the same case.
func (c *Case) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.log = append(c.log, s)
	c.mu.Unlock()
}

// Failf fails the case, printing the case log first.
func (c *Case) Failf(format string, args ...any) {
	c.t.Helper()
	c.mu.Lock()
	l := strings.Join(c.log, "\n    ")
	c.mu.Unlock()
	c.t.Fatalf("%s\n  case:\n    %s", fmt.Sprintf(format, args...), l)
}

// NonTrivial marks the case as non-trivial by the test's rule if cond holds.
func (c *Case) NonTrivial(cond bool) {
	if cond {
		c.mu.Lock()
		c.nontrivial = true
		c.mu.Unlock()
	}
}

// Label counts cases by class.
func (c *Case) Label(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, l := range c.labels {
		if l == s {
			return
		}
	}
	c.labels = append(c.labels, s)
}

type stats struct {
	Test       string         `json:"test"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evaluations"`
	NonTrivial int            `json:"distinct_nontrivial"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	WallS      float64        `json:"wall_s"`
	Keys       []string       `json:"keys"` // identify the distinct non-trivial cases
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale picks a bound by tier.
func Scale(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

var known map[string]bool
var knownOnce sync.Once

// Known reports whether the finding with this id is listed in known_findings.txt (as "[id]").
func Known(id string) bool {
	knownOnce.Do(func() {
		known = map[string]bool{}
		f, err := os.Open(os.Getenv("VERIF_KNOWN"))
		if err != nil {
			return
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := sc.Text()
			if !strings.HasPrefix(l, "KNOWN-FINDING:") {
				continue
			}
			if i, j := strings.Index(l, "["), strings.Index(l, "]"); i >= 0 && j > i {
				known[l[i+1:j]] = true
			}
		}
	})
	return known[id]
}

// Check runs the property f on generated cases.
func Check(t *testing.T, o Opts, f func(t *rapid.T, c *Case)) {
	t.Helper()
	n := Scale(o.Quick, o.Thorough)
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	if o.Hang == 0 {
		o.Hang = 120 * time.Second
	}
	st := &stats{Test: t.Name(), Rule: o.Rule, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var cur struct {
		sync.Mutex
		c     *Case
		since time.Time
	}
	done := make(chan struct{})
	defer close(done)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			cur.Lock()
			c, since := cur.c, cur.since
			cur.Unlock()
			if c != nil && time.Since(since) > o.Hang {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				c.mu.Lock()
				fmt.Printf("\nVERIF-HANG: %s: a case did not finish within %v\n  case:\n    %s\n%s\n", t.Name(), o.Hang, strings.Join(c.log, "\n    "), buf)
				os.Exit(3)
			}
		}
	}()
	start := time.Now()
	failed := false
	defer func() {
		st.WallS = time.Since(start).Seconds()
		writeStats(st)
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{t: rt}
		cur.Lock()
		cur.c, cur.since = c, time.Now()
		cur.Unlock()
		ok := false
		defer func() {
			cur.Lock()
			cur.c = nil
			cur.Unlock()
			if !ok {
				failed = true // or skipped; statistics stop growing only on real failures, which end the run anyway
			}
		}()
		f(rt, c)
		ok = true
		if failed && rt.Failed() {
			return
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		st.Evals++
		for _, l := range c.labels {
			st.Labels[l]++
		}
		if c.nontrivial {
			hh := fnv.New64a()
			for _, l := range c.log {
				hh.Write([]byte(l))
				hh.Write([]byte{0})
			}
			k := hh.Sum64()
			if !seen[k] {
				seen[k] = true
				st.NonTrivial++
				st.Keys = append(st.Keys, strconv.FormatUint(k, 36))
				if len(st.Samples) < 3 || (st.NonTrivial%97 == 0 && len(st.Samples) < 6) {
					s := strings.Join(c.log, " ; ")
					if len(s) > 1500 {
						s = s[:1500] + "..."
					}
					st.Samples = append(st.Samples, s)
				}
			}
		}
	})
}

func writeStats(st *stats) {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		b, _ := json.Marshal(map[string]any{"evals": st.Evals, "nontrivial": st.NonTrivial, "labels": st.Labels, "wall": st.WallS})
		fmt.Println("STATS", string(b))
		return
	}
	b, _ := json.Marshal(st)
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	defer f.Close()
	f.Write(append(b, '\n'))
}

// TempDir makes a scratch directory for one case; call the returned function to remove it.
func TempDir() (string, func()) {
	base := os.Getenv("VERIF_TMP")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		fmt.Println("VERIF-ENV: cannot make a scratch directory:", err)
		os.Exit(4)
	}
	d, _ = filepath.EvalSymlinks(d)
	return d, func() { os.RemoveAll(d) }
}

// EnvError aborts the run as an error of the environment (not a violation).
func EnvError(format string, args ...any) {
	fmt.Printf("\nVERIF-ENV: "+format+"\n", args...)
	os.Exit(4)
}

// Try runs f and returns the panic it raised, if any.
func Try(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			// let rapid's own control flow through
			s := fmt.Sprintf("%T", r)
			if strings.HasPrefix(s, "rapid.") || strings.HasPrefix(s, "*rapid.") {
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}
