package rt

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/registry"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type poolClient struct {
	id    int
	inUse atomic.Int32
}

func TestC19_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 2500, Thorough: 60000, Hang: 60 * time.Second, Rule: "2-16 users Pop/Push a pool of 1-6 clients whose constructor fails at random calls and takes random time; clients must never be shared or exceed the maximum, failures must reach only one user, and every user must finish; non-trivial = more users than clients, or a construction failed"}, func(t *rapid.T, c *h.Case) {
		capn := rapid.IntRange(1, 6).Draw(t, "capacity")
		ng := rapid.IntRange(2, 16).Draw(t, "users")
		per := rapid.IntRange(1, 8).Draw(t, "calls")
		// the i-th construction fails / is slow
		fails := rapid.SliceOfN(rapid.Bool(), 0, 12).Draw(t, "fails")
		slow := rapid.IntRange(0, 200).Draw(t, "buildUs")
		hold := rapid.IntRange(0, 60).Draw(t, "holdUs")
		c.Logf("capacity %d, %d users x %d calls, construction failures %v, construction takes %dus, hold %dus", capn, ng, per, fails, slow, hold)
		var builds, ok, failed atomic.Int64
		var maxOK atomic.Int64
		boom := errors.New("boom")
		pool := clientpool.NewClientPool(capn, func() (*poolClient, error) {
			n := builds.Add(1) - 1
			if slow > 0 {
				time.Sleep(time.Duration(slow) * time.Microsecond)
			}
			if int(n) < len(fails) && fails[n] {
				failed.Add(1)
				return nil, fmt.Errorf("construction %d: %w", n, boom)
			}
			maxOK.Store(max(maxOK.Load(), ok.Add(1)))
			return &poolClient{id: int(n)}, nil
		})
		if pool.Capacity() != capn {
			c.Failf("Capacity() = %d", pool.Capacity())
		}
		var wg sync.WaitGroup
		var got, errs atomic.Int64
		bad := make(chan string, 1000)
		var out atomic.Int64
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					cl, err := pool.Pop(bg)
					if err != nil {
						if !errors.Is(err, boom) {
							bad <- fmt.Sprintf("Pop failed with %v", err)
						}
						errs.Add(1)
						continue
					}
					if cl == nil {
						bad <- "Pop returned neither a client nor an error"
						return
					}
					if n := out.Add(1); n > int64(capn) {
						bad <- fmt.Sprintf("%d clients handed out at once, capacity %d", n, capn)
					}
					if cl.inUse.Add(1) != 1 {
						bad <- fmt.Sprintf("client %d handed to two users at once", cl.id)
					}
					got.Add(1)
					if hold > 0 && (g+i)%2 == 0 {
						time.Sleep(time.Duration(hold) * time.Microsecond)
					} else {
						runtime.Gosched()
					}
					cl.inUse.Add(-1)
					out.Add(-1)
					pool.Push(cl)
				}
			}()
		}
		wg.Wait()
		select {
		case s := <-bad:
			c.Failf("%s", s)
		default:
		}
		c.NonTrivial(ng > capn || failed.Load() > 0)
		if failed.Load() > 0 {
			c.Label("construction failed")
		}
		if ok.Load() > int64(capn) {
			c.Failf("%d clients were created, capacity %d", ok.Load(), capn)
		}
		if errs.Load() != failed.Load() {
			c.Failf("%d constructions failed but %d users got an error", failed.Load(), errs.Load())
		}
		if got.Load()+errs.Load() != int64(ng*per) {
			c.Failf("%d + %d of %d calls accounted for", got.Load(), errs.Load(), ng*per)
		}
		if int64(pool.Size()) != ok.Load() || int64(pool.Available()) != ok.Load() {
			c.Failf("at rest: %d clients were created but Size()=%d Available()=%d", ok.Load(), pool.Size(), pool.Available())
		}
		// the pool is still fully usable
		var cls []*poolClient
		for len(cls) < capn {
			cl, err := pool.Pop(bg)
			if err != nil {
				continue // the remaining scripted failures
			}
			cls = append(cls, cl)
		}
		ctx, cancel := context.WithCancel(bg)
		cancel()
		if cl, err := pool.Pop(ctx); err == nil {
			c.Failf("all %d clients are in use but Pop returned client %d", capn, cl.id)
		}
	})
}

func TestC19_Sequential(t *testing.T) {
	h.Check(t, h.Opts{Quick: 8000, Thorough: 200000, Hang: 60 * time.Second, Rule: "a sequential history of Pop (live or cancelled context) and Push in any order over 1-4 clients with scripted construction failures, against a model: idle clients are reused before new ones are created; non-trivial = the pool was exhausted or a construction failed"}, func(t *rapid.T, c *h.Case) {
		capn := rapid.IntRange(1, 4).Draw(t, "capacity")
		n, failNext := 0, false
		boom := errors.New("boom")
		pool := clientpool.NewClientPool(capn, func() (int, error) {
			if failNext {
				return -1, boom
			}
			n++
			return n, nil
		})
		held := []int{}
		idle := map[int]bool{}
		for i := rapid.IntRange(1, 30).Draw(t, "steps"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(t, "push") == 0 && len(held) > 0 {
				k := rapid.IntRange(0, len(held)-1).Draw(t, "which")
				c.Logf("push %d", held[k])
				pool.Push(held[k])
				idle[held[k]] = true
				held = append(held[:k:k], held[k+1:]...)
			} else {
				failNext = rapid.IntRange(0, 3).Draw(t, "fail") == 0
				ctx, dead := bg, false
				if len(held) >= capn {
					ctx, dead = cancelled(), true
					c.NonTrivial(true)
				}
				before := n
				cl, err := pool.Pop(ctx)
				c.Logf("pop fail=%v dead=%v -> %v %v", failNext, dead, cl, err)
				switch {
				case dead:
					if err == nil {
						c.Failf("Pop succeeded with all %d clients in use", capn)
					}
				case len(idle) > 0:
					if err != nil || !idle[cl] || n != before {
						c.Failf("Pop returned %v, %v although clients %v are idle", cl, err, idle)
					}
					delete(idle, cl)
					held = append(held, cl)
				case failNext:
					c.NonTrivial(true)
					if !errors.Is(err, boom) {
						c.Failf("Pop returned %v, %v although the construction failed", cl, err)
					}
				default:
					if err != nil || cl != before+1 {
						c.Failf("Pop returned %v, %v, expected new client %d", cl, err, before+1)
					}
					held = append(held, cl)
				}
			}
			if pool.Size() != len(held)+len(idle) || pool.Available() != len(idle) || pool.Capacity() != capn {
				c.Failf("Size=%d Available=%d Capacity=%d with %d clients in use and %d idle of at most %d", pool.Size(), pool.Available(), pool.Capacity(), len(held), len(idle), capn)
			}
		}
	})
}

// A user waits for a pool whose only client is being constructed; the construction fails.
func TestC19_FailureWakesWaiters(t *testing.T) {
	h.Check(t, h.Opts{Quick: 300, Thorough: 5000, Hang: 60 * time.Second, Rule: "users arrive while the pool's constructors are blocked, then the constructors fail or succeed in a random pattern; each user must get a client or its own construction's error; non-trivial = a construction fails while another user waits"}, func(t *rapid.T, c *h.Case) {
		capn := rapid.IntRange(1, 3).Draw(t, "capacity")
		waiters := rapid.IntRange(1, 5).Draw(t, "waiters")
		pattern := rapid.SliceOfN(rapid.Bool(), capn, capn+waiters).Draw(t, "fail")
		c.Logf("capacity %d, %d further users, construction failures %v", capn, waiters, pattern)
		gate := make(chan struct{})
		var calls atomic.Int64
		boom := errors.New("boom")
		pool := clientpool.NewClientPool(capn, func() (int, error) {
			n := int(calls.Add(1) - 1)
			<-gate
			if n < len(pattern) && pattern[n] {
				c.NonTrivial(true)
				return 0, boom
			}
			return n + 1, nil
		})
		var wg sync.WaitGroup
		var bad atomic.Value
		user := func() {
			defer wg.Done()
			cl, err := pool.Pop(bg)
			if err == nil {
				if cl == 0 {
					bad.Store("Pop returned a failed construction's client")
				}
				runtime.Gosched()
				pool.Push(cl)
			} else if !errors.Is(err, boom) {
				bad.Store(fmt.Sprint("Pop failed: ", err))
			}
		}
		for i := 0; i < capn+waiters; i++ {
			wg.Add(1)
			go user()
		}
		time.Sleep(300 * time.Microsecond)
		close(gate)
		wg.Wait()
		if b := bad.Load(); b != nil {
			c.Failf("%v", b)
		}
	})
}

func TestC37_Sequential(t *testing.T) {
	h.Check(t, h.Opts{Quick: 20000, Thorough: 500000, Rule: "a history of Register, SetDefault and Get over 3 names with succeeding and failing constructors, against a model; non-trivial = two or more registrations, a changed default, or a failing constructor"}, func(t *rapid.T, c *h.Case) {
		r := registry.NewServiceRegistry[string]("test")
		reg := map[string][]string{} // name -> results of its constructors ("" = fails); which of several counts is not specified
		def, got := "", false
		var first string
		var firstErr error
		builds := 0
		for i := rapid.IntRange(1, 10).Draw(t, "steps"); i > 0; i-- {
			name := rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "name")
			switch rapid.IntRange(0, 3).Draw(t, "op") {
			case 0, 1:
				res := rapid.SampledFrom([]string{"", "x" + name, "y" + name}).Draw(t, "result")
				c.Logf("register %s -> %q", name, res)
				if len(reg) == 0 && def == "" {
					def = name
				}
				reg[name] = append(reg[name], res)
				c.NonTrivial(len(reg) > 1 || res == "")
				r.Register(name, func(ctx context.Context) (string, error) {
					builds++
					if res == "" {
						return "", fmt.Errorf("constructor of %s failed", name)
					}
					return res, nil
				})
			case 2:
				c.Logf("setdefault %s", name)
				c.NonTrivial(true)
				def = name
				r.SetDefault(name)
			case 3:
				v, err := r.Get(bg)
				c.Logf("get -> %q %v", v, err)
				if got {
					if v != first || (err == nil) != (firstErr == nil) {
						c.Failf("a later Get returned %q %v, the first %q %v", v, err, first, firstErr)
					}
				} else {
					got, first, firstErr = true, v, err
					ok := false
					for _, want := range reg[def] {
						ok = ok || (want == "" && err != nil) || (want != "" && err == nil && v == want)
					}
					if len(reg[def]) == 0 {
						ok = err != nil
					}
					if !ok {
						c.Failf("Get returned %q %v, expected one of %q from %q (empty: an error)", v, err, reg[def], def)
					}
				}
				if builds > 1 {
					c.Failf("constructors ran %d times", builds)
				}
			}
		}
	})
}

func TestC37_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 1500, Thorough: 30000, Hang: 60 * time.Second, Rule: "2-12 goroutines call Get at once on a registry whose constructor takes up to 100us and may fail; all must get the one built client or the same error; non-trivial = always"}, func(t *rapid.T, c *h.Case) {
		n := rapid.IntRange(2, 12).Draw(t, "users")
		us := rapid.IntRange(0, 100).Draw(t, "us")
		fail := rapid.Bool().Draw(t, "fail")
		c.Logf("%d users, construction %dus fail=%v", n, us, fail)
		c.NonTrivial(true)
		r := registry.NewServiceRegistry[*int]("test")
		var builds atomic.Int64
		r.Register("a", func(ctx context.Context) (*int, error) {
			builds.Add(1)
			time.Sleep(time.Duration(us) * time.Microsecond)
			if fail {
				return nil, errors.New("boom")
			}
			return new(int), nil
		})
		res := make([]*int, n)
		errs := make([]error, n)
		var start, wg sync.WaitGroup
		start.Add(1)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				res[i], errs[i] = r.Get(bg)
			}()
		}
		start.Done()
		wg.Wait()
		if builds.Load() != 1 {
			c.Failf("built %d times", builds.Load())
		}
		for i := range res {
			if fail && errs[i] == nil {
				c.Failf("user %d got (%v, nil) although the construction failed", i, res[i])
			}
			if !fail && (errs[i] != nil || res[i] == nil || res[i] != res[0]) {
				c.Failf("user %d got (%v, %v), user 0 %v", i, res[i], errs[i], res[0])
			}
		}
	})
}
