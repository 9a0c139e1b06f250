package rt

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"pgregory.net/rapid"
	"verif/harness/h"
)

var bg = context.Background()

var valTypes = []reflect.Type{reflect.TypeFor[int64](), reflect.TypeFor[string](), reflect.TypeFor[S1](), reflect.TypeFor[[]string](), reflect.TypeFor[[]S1](), reflect.TypeFor[map[string]int](), reflect.TypeFor[*S1](), reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[int]()}

func genKey(t *rapid.T) string {
	return rapid.SampledFrom([]string{"a", "b", "c", "", "a.b", "日"}).Draw(t, "key")
}
func genStored(t *rapid.T) any {
	ty := rapid.SampledFrom(valTypes).Draw(t, "type")
	v := genVal(t, ty, 3)
	return v.Interface()
}

// a destination of the stored value's own type or of type any, holding a recognisable earlier value
func genDst(t *rapid.T, stored any) reflect.Value {
	ty := reflect.TypeFor[any]()
	if stored != nil && rapid.IntRange(0, 3).Draw(t, "typed") > 0 {
		ty = reflect.TypeOf(stored)
	}
	d := reflect.New(ty)
	d.Elem().Set(genVal(t, ty, 2))
	return d
}

func TestC30_Sequential(t *testing.T) {
	h.Check(t, h.Opts{Quick: 20000, Thorough: 1000000, Rule: "a history of Put/Get/Mset/Mget/Delete/Incr over 6 keys and 10 value types, compared with a map after every step; non-trivial = at least one overwrite or delete of a present key followed by a read"}, func(t *rapid.T, c *h.Case) {
		cache, err := simplecache.NewSimpleCache(bg)
		if err != nil {
			c.Failf("NewSimpleCache: %v", err)
		}
		model := map[string]any{}
		overw := 0
		checkKey := func(k string) {
			want, has := model[k]
			d := genDst(t, want)
			before := reflect.New(d.Elem().Type()).Elem()
			before.Set(d.Elem())
			found, err := cache.Get(bg, k, d.Interface())
			if err != nil {
				c.Failf("get %q into %v: %v", k, d.Type(), err)
			}
			if found != has {
				c.Failf("get %q: exists=%v, expected %v", k, found, has)
			}
			if has && !eqv(anyOf(d.Elem()), anyOf(reflect.ValueOf(want))) {
				c.Failf("get %q: %#v, expected %#v", k, d.Elem().Interface(), want)
			}
			if !has && !eqv(d.Elem(), before) {
				c.Failf("get of absent %q changed the destination to %#v", k, d.Elem())
			}
		}
		steps := rapid.IntRange(1, 25).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			switch op := rapid.IntRange(0, 6).Draw(t, "op"); op {
			case 0, 1:
				k, v := genKey(t), genStored(t)
				c.Logf("put %q %#v", k, v)
				if _, ok := model[k]; ok {
					overw++
				}
				if err := cache.Put(bg, k, v); err != nil {
					c.Failf("put: %v", err)
				}
				model[k] = v
			case 2:
				k := genKey(t)
				c.Logf("get %q", k)
				checkKey(k)
				c.NonTrivial(overw > 0)
			case 3:
				ks := rapid.SliceOfN(rapid.Custom(genKey), 0, 5).Draw(t, "keys")
				vs := make([]any, len(ks))
				for i := range vs {
					vs[i] = genStored(t)
				}
				if rapid.IntRange(0, 7).Draw(t, "mismatch") == 0 {
					vs = append(vs, "extra")
					c.Logf("mset mismatched %q %#v", ks, vs)
					if err := cache.Mset(bg, ks, vs); err == nil {
						c.Failf("mset with %d keys and %d values succeeded", len(ks), len(vs))
					}
					break
				}
				c.Logf("mset %q %#v", ks, vs)
				if err := cache.Mset(bg, ks, vs); err != nil {
					c.Failf("mset: %v", err)
				}
				for i, k := range ks {
					if _, ok := model[k]; ok {
						overw++
					}
					model[k] = vs[i]
				}
			case 4:
				ks := rapid.SliceOfN(rapid.Custom(genKey), 0, 5).Draw(t, "keys")
				ds := make([]reflect.Value, len(ks))
				da := make([]any, len(ks))
				for i, k := range ks {
					ds[i] = genDst(t, model[k])
					da[i] = ds[i].Interface()
				}
				if rapid.IntRange(0, 7).Draw(t, "mismatch") == 0 && len(ks) > 0 {
					if err := cache.Mget(bg, ks, da[:len(da)-1]); err == nil {
						c.Failf("mget with %d keys and %d values succeeded", len(ks), len(da)-1)
					}
					break
				}
				c.Logf("mget %q", ks)
				if err := cache.Mget(bg, ks, da); err != nil {
					c.Failf("mget: %v", err)
				}
				for i, k := range ks {
					if want, has := model[k]; has && !eqv(anyOf(ds[i].Elem()), anyOf(reflect.ValueOf(want))) {
						c.Failf("mget %q[%d]: %#v, expected %#v", ks, i, ds[i].Elem().Interface(), want)
					}
				}
				c.NonTrivial(overw > 0)
			case 5:
				k := genKey(t)
				c.Logf("delete %q", k)
				if _, ok := model[k]; ok {
					overw++
				}
				if err := cache.Delete(bg, k); err != nil {
					c.Failf("delete: %v", err)
				}
				delete(model, k)
			case 6:
				k := genKey(t)
				c.Logf("incr %q", k)
				cur, has := model[k]
				if !has {
					cur = int64(0)
				}
				got, err := cache.Incr(bg, k)
				switch n := cur.(type) {
				case int64:
					if err != nil {
						c.Failf("incr: %v", err)
					}
					if got != n+1 {
						c.Failf("incr of %d returned %d", n, got)
					}
					model[k] = n + 1
				case int: // a counter of another integer type: incremented or refused
					if err == nil {
						if got != int64(n)+1 {
							c.Failf("incr of %d returned %d", n, got)
						}
						var v any
						cache.Get(bg, k, &v)
						if rv := reflect.ValueOf(v); !rv.CanInt() || rv.Int() != got {
							c.Failf("after incr %q is %#v", k, v)
						}
						model[k] = v
					}
				default:
					if err == nil {
						c.Failf("incr of %#v succeeded with %d", cur, got)
					}
				}
			}
		}
		keys := []string{"a", "b", "c", "", "a.b", "日"}
		for _, k := range keys {
			checkKey(k)
		}
	})
}

type cop struct {
	kind string // put get del incr
	key  string
	val  int64
}
type cres struct {
	ok  bool
	val int64
}
type cstate struct {
	has bool
	val int64
}

var cacheModel = porcupine.Model{
	Partition: func(hist []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var ks []string
		for _, o := range hist {
			k := o.Input.(cop).key
			if _, ok := m[k]; !ok {
				ks = append(ks, k)
			}
			m[k] = append(m[k], o)
		}
		sort.Strings(ks)
		var out [][]porcupine.Operation
		for _, k := range ks {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() any { return cstate{} },
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.(cstate), in.(cop), out.(cres)
		switch i.kind {
		case "put":
			return true, cstate{true, i.val}
		case "get":
			return o.ok == s.has && (!o.ok || o.val == s.val), s
		case "del":
			return true, cstate{}
		case "incr":
			n := int64(0)
			if s.has {
				n = s.val
			}
			return o.val == n+1, cstate{true, n + 1}
		}
		return false, s
	},
	Equal: func(a, b any) bool { return a == b },
}

func TestC30_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 3000, Thorough: 60000, Hang: 60 * time.Second, Rule: "2-8 goroutines run random Put/Get/Mset/Delete/Incr programs on 1-3 shared keys; the recorded history must be linearizable per key (porcupine); non-trivial = two goroutines write the same key"}, func(t *rapid.T, c *h.Case) {
		cache, _ := simplecache.NewSimpleCache(bg)
		nk := rapid.IntRange(1, 3).Draw(t, "nkeys")
		ng := rapid.IntRange(2, 8).Draw(t, "goroutines")
		progs := make([][]cop, ng)
		writers := map[string]map[int]bool{}
		next := int64(1000)
		for g := range progs {
			n := rapid.IntRange(3, 10).Draw(t, "nops")
			for i := 0; i < n; i++ {
				next += 1000
				o := cop{kind: rapid.SampledFrom([]string{"put", "get", "get", "del", "incr", "incr", "incr", "mset"}).Draw(t, "kind"), key: fmt.Sprint("k", rapid.IntRange(0, nk-1).Draw(t, "k")), val: next}
				progs[g] = append(progs[g], o)
				if o.kind != "get" {
					if writers[o.key] == nil {
						writers[o.key] = map[int]bool{}
					}
					writers[o.key][g] = true
				}
			}
			c.Logf("g%d: %v", g, progs[g])
		}
		for _, w := range writers {
			c.NonTrivial(len(w) > 1)
		}
		var clock atomic.Int64
		hists := make([][]porcupine.Operation, ng)
		errs := make([]error, ng)
		var start, wg sync.WaitGroup
		start.Add(1)
		for g := range progs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				for i, o := range progs[g] {
					if i%3 == g%3 {
						runtime.Gosched()
					}
					var r cres
					var err error
					in := []cop{o}
					call := clock.Add(1)
					switch o.kind {
					case "put":
						err = cache.Put(bg, o.key, o.val)
					case "mset":
						in = nil
						var ks []string
						var vs []any
						for k := 0; k < nk; k++ {
							ks = append(ks, fmt.Sprint("k", k))
							vs = append(vs, o.val+int64(k))
							in = append(in, cop{"put", ks[k], o.val + int64(k)})
						}
						err = cache.Mset(bg, ks, vs)
					case "get":
						r.ok, err = cache.Get(bg, o.key, &r.val)
					case "del":
						err = cache.Delete(bg, o.key)
					case "incr":
						r.val, err = cache.Incr(bg, o.key)
					}
					ret := clock.Add(1)
					if err != nil {
						errs[g] = fmt.Errorf("%v: %w", o, err)
						return
					}
					for _, x := range in {
						hists[g] = append(hists[g], porcupine.Operation{ClientId: g, Input: x, Call: call, Output: r, Return: ret})
					}
				}
			}()
		}
		start.Done()
		wg.Wait()
		var all []porcupine.Operation
		for g := range hists {
			if errs[g] != nil {
				c.Failf("operation failed: %v", errs[g])
			}
			all = append(all, hists[g]...)
		}
		if res := porcupine.CheckOperationsTimeout(cacheModel, all, 20*time.Second); res == porcupine.Illegal {
			c.Failf("history is not linearizable: %v", all)
		}
	})
}

func TestC30_Counters(t *testing.T) {
	h.Check(t, h.Opts{Quick: 400, Thorough: 8000, Hang: 60 * time.Second, Rule: "2-16 goroutines increment 1-3 shared counters 200-2000 times in total while others put and delete other keys; every increment must return a different value and none may be lost; non-trivial = always (at least two goroutines share a counter)"}, func(t *rapid.T, c *h.Case) {
		cache, _ := simplecache.NewSimpleCache(bg)
		nk := rapid.IntRange(1, 3).Draw(t, "counters")
		ng := rapid.IntRange(2, 16).Draw(t, "goroutines")
		per := rapid.IntRange(50, 400).Draw(t, "per")
		noise := rapid.IntRange(0, 3).Draw(t, "noise")
		c.Logf("%d counters, %d goroutines x %d increments, %d noise writers", nk, ng, per, noise)
		c.NonTrivial(true)
		var wg, nwg sync.WaitGroup
		stop := make(chan struct{})
		for g := 0; g < noise; g++ {
			nwg.Add(1)
			go func() {
				defer nwg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					k := fmt.Sprintf("noise-%d-%d", g, i%7)
					cache.Put(bg, k, "x")
					var s string
					if ok, err := cache.Get(bg, k, &s); !ok || err != nil || s != "x" {
						t.Errorf("own write of %s not read back: %v %v %q", k, ok, err, s)
						return
					}
					cache.Delete(bg, k)
				}
			}()
		}
		got := make([][]map[int64]bool, ng)
		dup := atomic.Bool{}
		for g := 0; g < ng; g++ {
			got[g] = make([]map[int64]bool, nk)
			for k := range got[g] {
				got[g][k] = map[int64]bool{}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					k := (g + i) % nk
					v, err := cache.Incr(bg, fmt.Sprint("c", k))
					if err != nil || got[g][k][v] {
						dup.Store(true)
					}
					got[g][k][v] = true
				}
			}()
		}
		wg.Wait()
		close(stop)
		nwg.Wait()
		for k := 0; k < nk; k++ {
			all := map[int64]bool{}
			n := int64(0)
			for g := 0; g < ng; g++ {
				for i := 0; i < per; i++ {
					if (g+i)%nk == k {
						n++
					}
				}
				for v := range got[g][k] {
					if all[v] {
						c.Failf("counter %d: value %d returned twice", k, v)
					}
					all[v] = true
				}
			}
			var v int64
			cache.Get(bg, fmt.Sprint("c", k), &v)
			if v != n || int64(len(all)) != n {
				c.Failf("counter %d is %d after %d increments (%d distinct results)", k, v, n, len(all))
			}
		}
		if dup.Load() {
			c.Failf("an increment failed or returned a repeated value")
		}
	})
}

func cancelled() context.Context {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	return ctx
}

func TestC31_Sequential(t *testing.T) {
	h.Check(t, h.Opts{Quick: 15000, Thorough: 500000, Hang: 60 * time.Second, Rule: "a sequential history of pushes and pops (some with an already cancelled context) of values of 10 types, compared with a list; non-trivial = the queue was both full and empty, or holds 3+ items of different types"}, func(t *rapid.T, c *h.Case) {
		q, err := simplequeue.NewSimpleQueue(bg)
		if err != nil {
			c.Failf("NewSimpleQueue: %v", err)
		}
		var model []any
		full, empty := false, false
		steps := rapid.IntRange(1, 40).Draw(t, "steps")
		bias := rapid.IntRange(1, 5).Draw(t, "bias")
		for i := 0; i < steps; i++ {
			push := rapid.IntRange(0, 5).Draw(t, "push") < bias
			cancel := rapid.IntRange(0, 3).Draw(t, "cancel") == 0
			ctx := bg
			if cancel {
				ctx = cancelled()
			}
			if push {
				v := genStored(t)
				if len(model) >= 10 { // documented capacity: would block
					full = true
					ctx, cancel = cancelled(), true
				}
				c.Logf("push(cancelled=%v) %#v", cancel, v)
				ok, err := q.Push(ctx, v)
				if err != nil {
					c.Failf("push: %v", err)
				}
				if !ok && !cancel {
					c.Failf("push with room and a live context reported failure")
				}
				if ok && len(model) >= 10 {
					c.Failf("push beyond the documented capacity succeeded")
				}
				if ok {
					model = append(model, v)
				}
			} else {
				var want any
				if len(model) > 0 {
					want = model[0]
				} else {
					empty = true
					ctx, cancel = cancelled(), true
				}
				d := genDst(t, want)
				c.Logf("pop(cancelled=%v)", cancel)
				ok, err := q.Pop(ctx, d.Interface())
				if err != nil {
					c.Failf("pop: %v", err)
				}
				if !ok && !cancel {
					c.Failf("pop of a non-empty queue with a live context reported failure")
				}
				if ok && len(model) == 0 {
					c.Failf("pop of an empty queue returned %#v", d.Elem().Interface())
				}
				if ok {
					if !eqv(anyOf(d.Elem()), anyOf(reflect.ValueOf(want))) {
						c.Failf("popped %#v, expected %#v", d.Elem().Interface(), want)
					}
					model = model[1:]
				}
			}
			c.NonTrivial((full && empty) || len(model) >= 3)
		}
		for _, want := range model {
			d := genDst(t, want)
			if ok, err := q.Pop(bg, d.Interface()); !ok || err != nil || !eqv(anyOf(d.Elem()), anyOf(reflect.ValueOf(want))) {
				c.Failf("draining: got %v %v %#v, expected %#v", ok, err, d.Elem().Interface(), want)
			}
		}
		var v any
		if ok, _ := q.Pop(cancelled(), &v); ok {
			c.Failf("extra item %#v after draining", v)
		}
	})
}

type item struct{ P, N int }

func TestC31_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 3000, Thorough: 60000, Hang: 60 * time.Second, Rule: "1-6 producers and 1-6 consumers share a queue, some operations with contexts cancelled after a random short delay, then the queue is drained; every successful push must be popped exactly once, refused pushes never, and items of one producer must reach any one consumer in order; non-trivial = more items than the queue's capacity or an operation was cancelled"}, func(t *rapid.T, c *h.Case) {
		q, _ := simplequeue.NewSimpleQueue(bg)
		np, nc := rapid.IntRange(1, 6).Draw(t, "producers"), rapid.IntRange(1, 6).Draw(t, "consumers")
		per := rapid.IntRange(1, 30).Draw(t, "items")
		cancelEvery := rapid.IntRange(0, 5).Draw(t, "cancelEvery")
		delay := time.Duration(rapid.IntRange(0, 300).Draw(t, "delayUs")) * time.Microsecond
		c.Logf("%d producers x %d items, %d consumers, every %d-th operation cancelled after %v", np, per, nc, cancelEvery, delay)
		mk := func(i int) (context.Context, context.CancelFunc) {
			if cancelEvery > 0 && i%cancelEvery == 0 {
				return context.WithTimeout(bg, delay)
			}
			return context.WithCancel(bg)
		}
		pushed := make([]map[int]bool, np)
		var pwg, cwg sync.WaitGroup
		var refused atomic.Int64
		for p := 0; p < np; p++ {
			pushed[p] = map[int]bool{}
			pwg.Add(1)
			go func() {
				defer pwg.Done()
				for i := 0; i < per; i++ {
					ctx, cancel := mk(i + p)
					ok, err := q.Push(ctx, item{p, i})
					if err != nil {
						t.Errorf("push: %v", err)
					}
					if !ok && ctx.Err() == nil {
						t.Errorf("push refused although its context is live")
					}
					if ok {
						pushed[p][i] = true
					} else {
						refused.Add(1)
					}
					cancel()
				}
			}()
		}
		stop, stopc := context.WithCancel(bg)
		popped := make([][]item, nc+1)
		for k := 0; k < nc; k++ {
			cwg.Add(1)
			go func() {
				defer cwg.Done()
				for i := 1; ; i++ {
					ctx, cancel := mk(i + k)
					ctx2, cancel2 := context.WithCancel(ctx)
					un := context.AfterFunc(stop, cancel2)
					var it item
					ok, err := q.Pop(ctx2, &it)
					if err != nil {
						t.Errorf("pop: %v", err)
					}
					if !ok && ctx2.Err() == nil {
						t.Errorf("pop gave up although its context is live")
					}
					un()
					cancel2()
					cancel()
					if ok {
						popped[k] = append(popped[k], it)
					} else if stop.Err() != nil {
						return
					}
				}
			}()
		}
		pwg.Wait()
		stopc()
		cwg.Wait()
		for {
			var it item
			ok, err := q.Pop(cancelled(), &it)
			if err != nil {
				c.Failf("pop: %v", err)
			}
			if !ok {
				break
			}
			popped[nc] = append(popped[nc], it)
		}
		c.NonTrivial(np*per > 10 || refused.Load() > 0)
		seen := map[item]bool{}
		for k, l := range popped {
			last := map[int]int{}
			for _, it := range l {
				if seen[it] {
					c.Failf("item %v popped twice", it)
				}
				seen[it] = true
				if it.P >= np || !pushed[it.P][it.N] {
					c.Failf("item %v popped but its push was refused", it)
				}
				if pv, ok := last[it.P]; ok && pv >= it.N {
					c.Failf("consumer %d got item %d of producer %d after item %d", k, it.N, it.P, pv)
				}
				last[it.P] = it.N
			}
		}
		for p := range pushed {
			for i := range pushed[p] {
				if !seen[item{p, i}] {
					c.Failf("item %v was pushed but never popped", item{p, i})
				}
			}
		}
	})
}

func TestC31_Blocking(t *testing.T) {
	h.Check(t, h.Opts{Quick: 600, Thorough: 8000, Hang: 60 * time.Second, Rule: "k waiting pops (some later cancelled) and then pushes, or a full queue with waiting pushes and then pops: exactly the live waiters complete, cancelled ones return false; non-trivial = at least two waiters"}, func(t *rapid.T, c *h.Case) {
		q, _ := simplequeue.NewSimpleQueue(bg)
		n := rapid.IntRange(1, 6).Draw(t, "waiters")
		dead := rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, "cancelled")
		fullSide := rapid.Bool().Draw(t, "pushers")
		c.Logf("pushers=%v waiters cancelled=%v", fullSide, dead)
		c.NonTrivial(n > 1)
		if fullSide {
			for i := 0; i < 10; i++ {
				q.Push(bg, -1-i)
			}
		}
		type res struct {
			i  int
			ok bool
			v  int
		}
		out := make(chan res, n)
		cancels := make([]context.CancelFunc, n)
		live := 0
		for i := 0; i < n; i++ {
			ctx, cancel := context.WithCancel(bg)
			cancels[i] = cancel
			if !dead[i] {
				live++
			}
			go func() {
				v := i
				var ok bool
				var err error
				if fullSide {
					ok, err = q.Push(ctx, i)
				} else {
					ok, err = q.Pop(ctx, &v)
				}
				if err != nil {
					t.Errorf("%v", err)
				}
				out <- res{i, ok, v}
			}()
		}
		time.Sleep(time.Millisecond)
		for i := range dead {
			if dead[i] {
				cancels[i]()
			}
		}
		for i := 0; i < n-live; i++ {
			r := <-out
			if r.ok {
				c.Failf("waiter %d completed successfully although nothing changed", r.i)
			}
			if !dead[r.i] {
				c.Failf("waiter %d gave up although its context is live", r.i)
			}
		}
		for i := 0; i < live; i++ {
			if fullSide {
				var v int
				q.Pop(bg, &v)
				if v != -1-i {
					c.Failf("popped %d, expected %d", v, -1-i)
				}
			} else {
				q.Push(bg, 100+i)
			}
		}
		got := map[int]bool{}
		for i := 0; i < live; i++ {
			r := <-out
			if !r.ok {
				c.Failf("waiter %d with a live context gave up", r.i)
			}
			if got[r.v] {
				c.Failf("item %d delivered twice", r.v)
			}
			got[r.v] = true
		}
		for _, f := range cancels {
			f()
		}
	})
}
