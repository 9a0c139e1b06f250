package rt

import (
	"context"
	"encoding/csv"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/workload"
	"pgregory.net/rapid"
	"verif/harness/h"
)

// proportions that sum to 100, including zeros and many small ones
func genProps(t *rapid.T) []int {
	var out []int
	left := 100
	style := rapid.IntRange(0, 2).Draw(t, "style")
	for left > 0 && len(out) < 100 {
		m := left
		if style == 1 {
			m = min(left, 3)
		} else if style == 2 {
			m = min(left, 30)
		}
		p := rapid.IntRange(0, m).Draw(t, "p")
		out = append(out, p)
		left -= p
	}
	if left > 0 {
		out = append(out, left)
	}
	if rapid.IntRange(0, 3).Draw(t, "trailing") == 0 {
		out = append(out, 0)
	}
	return out
}

func TestC38_Run(t *testing.T) {
	log.SetOutput(io.Discard)
	h.Check(t, h.Opts{Quick: 60, Thorough: 1200, Hang: 120 * time.Second, Rule: "a random API mix summing to 100 is run for 50-150 ms at 2k-200k requests/s with APIs that succeed, fail or take longer than the run; every issued request must be recorded once and each API's share must match its proportion (7 sigma); non-trivial = three or more APIs and 100+ requests issued"}, func(t *rapid.T, c *h.Case) {
		props := genProps(t)
		tput := rapid.SampledFrom([]int64{2000, 20000, 50000, 200000}).Draw(t, "tput")
		dur := rapid.IntRange(50, 150).Draw(t, "ms")
		viaCtx := rapid.IntRange(0, 3).Draw(t, "viaCtx") == 0
		slow := rapid.IntRange(0, 2).Draw(t, "slow") == 0
		c.Logf("proportions %v at %d/s for %dms ctx=%v slow=%v", props, tput, dur, viaCtx, slow)
		w := workload.NewWorkload()
		counts := make([]atomic.Int64, len(props))
		var next, finished atomic.Int64
		sameNames := rapid.IntRange(0, 2).Draw(t, "same names") // the name has no meaning to the engine
		for i, p := range props {
			name := fmt.Sprint("api", i)
			switch sameNames {
			case 1:
				name = fmt.Sprint("api", i/2)
			case 2:
				name = ""
			}
			w.AddAPI(name, func(ctx context.Context) workload.Stat {
				counts[i].Add(1)
				id := next.Add(1)
				if slow && id%500 == 7 {
					time.Sleep(time.Duration(dur) * time.Millisecond)
				}
				finished.Add(1)
				return workload.Stat{Start: id, Duration: id * 3, IsError: id%3 == 0}
			}, p)
		}
		d := fmt.Sprintf("%dms", dur)
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		if viaCtx {
			d = "1h"
			time.AfterFunc(time.Duration(dur)*time.Millisecond, cancel)
		}
		dir, rm := h.TempDir()
		defer rm()
		out := filepath.Join(dir, "stats.csv")
		os.WriteFile(out, []byte(strings.Repeat("old contents\n", 500)), 0644)
		e, err := workload.NewEngine(out, tput, d, w)
		if err != nil {
			c.Failf("NewEngine rejected proportions %v: %v", props, err)
		}
		start := time.Now()
		e.RunOpenLoop(ctx)
		if el := time.Since(start); !viaCtx && el < time.Duration(dur)*time.Millisecond {
			c.Failf("the run ended after %v", el)
		}
		n := next.Load()
		c.NonTrivial(len(props) >= 3 && n > 100)
		if finished.Load() != n {
			c.Failf("%d of %d requests were still running when the run ended", n-finished.Load(), n)
		}
		time.Sleep(2 * time.Millisecond)
		if next.Load() != n {
			c.Failf("requests were issued after the run ended")
		}
		if int64(len(e.Stats)) != n {
			c.Failf("%d requests were issued but %d statistics recorded", n, len(e.Stats))
		}
		seen := map[int64]bool{}
		for _, s := range e.Stats {
			if seen[s.Start] || s.Start < 1 || s.Start > n || s.Duration != s.Start*3 || s.IsError != (s.Start%3 == 0) {
				c.Failf("statistics record %+v is duplicated or altered", s)
			}
			seen[s.Start] = true
		}
		for i, p := range props {
			got, exp := float64(counts[i].Load()), float64(n)*float64(p)/100
			sigma := math.Sqrt(float64(n) * float64(p) / 100 * (1 - float64(p)/100))
			if p == 0 && got > 0 || math.Abs(got-exp) > 7*sigma+6 {
				c.Failf("api%d with proportion %d was issued %v times of %d", i, p, got, n)
			}
		}
		old := os.Stdout
		os.Stdout, _ = os.Open(os.DevNull)
		err = e.PrintStats()
		os.Stdout = old
		if err != nil {
			c.Failf("PrintStats: %v", err)
		}
		b, _ := os.ReadFile(out)
		recs, err := csv.NewReader(strings.NewReader(string(b))).ReadAll()
		if err != nil || len(recs) != len(e.Stats)+1 {
			c.Failf("the statistics file has %d rows for %d requests (%v)", len(recs)-1, len(e.Stats), err)
		}
		for i, s := range e.Stats {
			r := recs[i+1]
			if r[0] != strconv.FormatInt(s.Start, 10) || r[1] != strconv.FormatInt(s.Duration, 10) || r[2] != strconv.FormatBool(s.IsError) {
				c.Failf("statistics row %v, expected %+v", r, s)
			}
		}
	})
}

func TestC38_Validity(t *testing.T) {
	log.SetOutput(io.Discard)
	h.Check(t, h.Opts{Quick: 20000, Thorough: 500000, Rule: "random API mixes and durations: an engine is made exactly when the proportions sum to 100 and the duration parses; non-trivial = two or more APIs"}, func(t *rapid.T, c *h.Case) {
		props := genProps(t)
		if rapid.Bool().Draw(t, "perturb") {
			if rapid.Bool().Draw(t, "add") {
				props = append(props, rapid.IntRange(0, 100).Draw(t, "extra"))
			} else {
				i := rapid.IntRange(0, len(props)-1).Draw(t, "drop")
				props = append(props[:i:i], props[i+1:]...)
			}
		}
		dur := rapid.SampledFrom([]string{"1s", "10ms", "1m", "", "ten", "5", "1h30m"}).Draw(t, "duration")
		_, derr := time.ParseDuration(dur)
		sum := 0
		w := workload.NewWorkload()
		for i, p := range props {
			sum += p
			w.AddAPI(fmt.Sprint(i), func(ctx context.Context) workload.Stat { return workload.Stat{} }, p)
		}
		c.Logf("%v %q", props, dur)
		c.NonTrivial(len(props) > 1)
		e, err := workload.NewEngine("f", 10, dur, w)
		if want := sum == 100 && derr == nil; want != (err == nil) || want != (e != nil) {
			c.Failf("proportions summing to %d with duration %q: NewEngine returned %v", sum, dur, err)
		}
		if w.IsValid() != (sum == 100) {
			c.Failf("IsValid()=%v for proportions summing to %d", w.IsValid(), sum)
		}
	})
}
