package lab

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"verif/harness/h"

	"pgregory.net/rapid"
)

// breaker is a circuit breaker's configuration and the calls that it has seen.
type breaker struct {
	min      int
	rate     float64
	interval string
	retry    int  // attempts that a retrier around the breaker makes
	inner    int  // attempts that a retrier behind the breaker makes
	resets   bool // the counts start anew while the services pause
	ok, fail int
	open     bool
}

func (b *breaker) done(failed bool) {
	if !failed {
		b.ok++
		return
	}
	b.fail++
	if n := b.ok + b.fail; n >= b.min && float64(b.fail)/float64(n) >= b.rate {
		b.open = true
	}
}

func TestC25_Breakers(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5, Thorough: 70, Hang: 10 * time.Minute, Rule: "a case is a generated application of services with different circuit breakers, most sharing an interface, some with retries around or behind them, called with scripted failures, one after another and in groups of concurrent calls; non-trivial if some breaker opened after a success and some calls were refused"}, func(t *rapid.T, c *h.Case) {
		p := newPlanApp(t, c)
		p.service("pause", p.iface())
		bs := map[string]*breaker{}
		var names []string
		for k := intn(t, "nsvc", 3, 8); k > 0; k-- {
			n := fmt.Sprintf("s%d", k)
			b := &breaker{min: intn(t, "min", 1, 10), rate: pick(t, "rate", 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 1), interval: pick(t, "interval", "1h", "90m", "2h30m"), retry: 1, inner: 1}
			if flip(t, "resets", 1, 4) {
				b.resets, b.interval, b.min = true, "200ms", intn(t, "min2", 3, 8)
				c.Label("interval passes")
			}
			var mods []string
			around := func(label string) int {
				if !flip(t, label, 1, 4) {
					return 1
				}
				r := intn(t, label+"n", 2, 3)
				mods = append(mods, mod1("retries.AddRetries", n, r))
				c.Label(label)
				return r
			}
			if !b.resets {
				b.retry = around("retries around")
			}
			mods = append(mods, fmt.Sprintf(P+"circuitbreaker».AddCircuitBreaker(spec, %q, %d, %v, %q)", n, b.min, b.rate, b.interval))
			if !b.resets && b.retry == 1 {
				b.inner = around("retries behind")
			}
			s := p.service(n, p.iface(), mods...)
			bs[n] = b
			names = append(names, n)
			if flip(t, "http", 1, 4) {
				p.expose(s)
			}
		}
		// the calls: some alone, some groups of the same kind
		var seq [][]cmd
		used := map[string]int{}
		for k := intn(t, "ngroups", 12, 90); k > 0; k-- {
			n := pick(t, "svc", names...)
			b := bs[n]
			if flip(t, "pause", 1, 25) {
				seq = append(seq, []cmd{p.call("pause", p.method(), "sleep=450")})
				used = map[string]int{}
			}
			what := pick(t, "what", "ok", "ok", "fail", "fail", "fail", "late", "latefail", "lateok")
			size := 1
			if b.retry == 1 && b.inner == 1 && (what == "ok" || what == "fail") && flip(t, "par", 1, 5) {
				size = intn(t, "size", 2, 8)
			}
			if b.resets {
				// never as many calls as the breaker asks for, between two pauses
				if size = min(size, b.min-1-used[n]); size <= 0 {
					continue
				}
				used[n] += size
			}
			var xs []cmd
			for ; size > 0; size-- {
				steps := what
				switch {
				case what == "fail" && (b.retry > 1 || b.inner > 1):
					steps = strings.Repeat("fail;", intn(t, "fails", 1, 3)) + pick(t, "end", "ok", "fail")
				case b.retry > 1 || b.inner > 1:
					steps = "ok"
				case p.remote[n] && strings.HasPrefix(what, "late"):
					steps = "ok" // HTTP clients do not stop waiting when their context ends
				case what == "late":
					steps = "ctx=100000"
				case what == "latefail":
					steps = "sleepfail=60"
				case what == "lateok":
					steps = "sleep=60"
				}
				x := p.call(n, p.method(), steps)
				if strings.Contains(steps, "=") {
					x.Limit = 30
				}
				xs = append(xs, x)
			}
			seq = append(seq, xs)
		}
		for _, xs := range seq {
			p.add(xs...)
		}
		opened, refused := false, 0
		p.run(func(o *planOutcome) (timing []string) {
			opened, refused = false, 0
			for _, b := range bs {
				b.ok, b.fail, b.open = 0, 0, false
			}
			for _, xs := range seq {
				if xs[0].Svc == "pause" {
					continue
				}
				b := bs[xs[0].Svc]
				if b.resets {
					b.ok, b.fail = 0, 0 // too few calls to count
				}
				if len(xs) == 1 {
					x := xs[0]
					steps := strings.Split(p.plan(x)[strings.Index(p.plan(x), "|")+1:], ";")
					step := func(k int) string { return steps[min(k, len(steps)-1)] }
					is := o.invs[o.key(x)]
					want, at, last, blocked := 0, -1, "", false
					for a := 0; a < b.retry && at < 0; a++ {
						if blocked = b.open; blocked {
							continue
						}
						for k := 0; k < b.inner && at < 0; k++ {
							last = step(want)
							want++
							if last == "ok" || last == "sleep=60" {
								at = want - 1
							}
						}
						was := b.open
						b.done(at < 0)
						if b.open && !was && b.ok > 0 {
							opened = true
						}
					}
					what := fmt.Sprintf("%s behind a breaker (%d calls, rate %v, interval %s) that has seen %d successes and %d failures, open: %v", o.what(x), b.min, b.rate, b.interval, b.ok, b.fail, b.open)
					if len(is) > 1 && want <= 1 && b.retry == 1 && b.inner == 1 {
						c.Failf("%s: the service was called %d times", what, len(is))
					}
					if len(is) != want {
						if x.Limit > 0 && len(is) == 0 { // a busy machine may use up the caller's time before
							timing = append(timing, what+": the service was not called")
							return
						}
						c.Failf("%s: the service was called %d times, expected %d", what, len(is), want)
					}
					switch {
					case at >= 0:
						o.expectOK(x, at)
					case blocked:
						refused++
						if r := o.results[x.ID]; r.Err == "" || strings.Contains(r.Err, "planned") {
							c.Failf("%s: returned %q %q, expected the breaker's refusal", what, r.Rets, r.Err)
						}
						if r := o.results[x.ID]; time.Duration(r.End-r.Start) > 2*time.Second {
							timing = append(timing, fmt.Sprintf("%s: the refusal took %v", what, time.Duration(r.End-r.Start)))
						}
					case last == "fail" || last == "sleepfail=60":
						o.expectErr(x, fmt.Sprintf("planned failure %d", want-1))
					default:
						o.expectErr(x, "")
					}
					continue
				}
				bad := strings.HasSuffix(p.plan(xs[0]), "fail")
				through := 0
				sort.Slice(xs, func(i, j int) bool { return xs[i].ID < xs[j].ID })
				was := b.open
				for _, x := range xs {
					switch n := len(o.invs[o.key(x)]); {
					case n == 0:
						refused++
						o.expectErr(x, "")
					case n > 1 || was:
						c.Failf("%s: the service was called %d times; the breaker was open: %v", o.what(x), n, was)
					default:
						through++
						b.done(bad)
						if bad {
							o.expectErr(x, "planned failure 0")
						} else {
							o.expectOK(x, 0)
						}
					}
				}
				if through < len(xs) && !b.open {
					c.Failf("%d of %d concurrent calls of %s were refused; the breaker (%d calls, rate %v) had seen %d successes and %d failures", len(xs)-through, len(xs), xs[0].Svc, b.min, b.rate, b.ok, b.fail)
				}
				if b.open && !was && b.ok > 0 {
					opened = true
				}
			}
			return
		})
		c.NonTrivial(opened && refused > 0)
	})
}
