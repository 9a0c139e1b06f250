package rtnet

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/rabbitmq"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type order struct {
	ID    int64
	Lines []item
	Next  *order `json:"next,omitempty"`
}

var itemTypes = []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[int64](), reflect.TypeFor[uint64](), reflect.TypeFor[int](), reflect.TypeFor[order](), reflect.TypeFor[*order](), reflect.TypeFor[[]string](), reflect.TypeFor[map[string]int64](), reflect.TypeFor[[]int64](), reflect.TypeFor[float64](), reflect.TypeFor[[]byte](), reflect.TypeFor[[]order](), reflect.TypeFor[map[int64]order]()}

// genItem makes a value of the type that no other item of the case equals.
func genItem(t *rapid.T, ty reflect.Type, id int64) any {
	big := rapid.Bool().Draw(t, "big")
	n := id
	if big {
		n = 1<<53 + 1 + 2*id
	}
	text := fmt.Sprint(id, rapid.SampledFrom(someStrings).Draw(t, "s"))
	if rapid.IntRange(0, 30).Draw(t, "long") == 0 {
		text += strings.Repeat("x", 300000)
	}
	o := order{ID: n}
	if big {
		o.Lines = genValue(t, reflect.TypeFor[[]item](), 2).Interface().([]item)
		o.Next = &order{ID: n}
	}
	switch ty {
	case reflect.TypeFor[string]():
		return text
	case reflect.TypeFor[int64]():
		return n
	case reflect.TypeFor[uint64]():
		return uint64(n) + 1<<63
	case reflect.TypeFor[int]():
		return int(-n)
	case reflect.TypeFor[order]():
		return o
	case reflect.TypeFor[*order]():
		return &o
	case reflect.TypeFor[[]string]():
		return []string{text, ""}
	case reflect.TypeFor[map[string]int64]():
		return map[string]int64{text: n, "x": 1}
	case reflect.TypeFor[[]int64]():
		return []int64{n, -n}
	case reflect.TypeFor[float64]():
		return float64(id) + 0.1
	case reflect.TypeFor[[]byte]():
		return []byte(text)
	case reflect.TypeFor[[]order]():
		return []order{o, {}}
	default:
		return map[int64]order{n: o}
	}
}

func brief(v any) string {
	s := js(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func newQueue(c *h.Case, b *Broker, name string) backend.Queue {
	q, err := rabbitmq.NewRabbitMQ(bg, b.Addr(), name)
	if err != nil {
		c.Failf("NewRabbitMQ: %v", err)
	}
	return q
}

func startBroker() *Broker {
	b, err := NewBroker()
	if err != nil {
		h.EnvError("cannot listen on the loopback interface: %v", err)
	}
	return b
}

func TestC42_Model(t *testing.T) {
	h.Check(t, h.Opts{Quick: 900, Thorough: 30000, Rule: "a history of pushes by 1-3 clients and pops by one, on each of two queues with an item type of their own; every item is popped once, in its pusher's order, and pops on an empty queue end with their context; non-trivial = an item pushed by another client than the popping one is popped, after a pop on an empty queue or with items of the other queue waiting"}, func(t *rapid.T, c *h.Case) {
		b := startBroker()
		defer b.Stop()
		type queue struct {
			name    string
			ty      reflect.Type
			clients []backend.Queue // the first one pops
			pushed  [][]any         // by client, not yet popped
			n       int
			empty   bool
		}
		var qs []*queue
		for i, name := range []string{rapid.SampledFrom([]string{"q", "queue name", "日本.q"}).Draw(t, "name"), "q2"}[:rapid.IntRange(1, 2).Draw(t, "queues")] {
			q := &queue{name: name, ty: rapid.SampledFrom(itemTypes).Draw(t, "type")}
			for j := rapid.IntRange(1, 3).Draw(t, "clients"); j > 0; j-- {
				q.clients = append(q.clients, newQueue(c, b, name))
			}
			q.pushed = make([][]any, len(q.clients))
			c.Logf("queue %d %q of %v with %d clients", i, name, q.ty, len(q.clients))
			qs = append(qs, q)
		}
		id := int64(0)
		pop := func(q *queue) {
			d := reflect.New(q.ty)
			if q.n == 0 {
				ctx, cancel := context.WithTimeout(bg, time.Duration(rapid.IntRange(0, 3).Draw(t, "ms"))*time.Millisecond)
				defer cancel()
				ok, err := q.clients[0].Pop(ctx, d.Interface())
				if ok || err != nil || !d.Elem().IsZero() {
					c.Failf("pop on the empty queue %q: %v, %v, item %s", q.name, ok, err, brief(d.Elem().Interface()))
				}
				q.empty = true
				return
			}
			ctx, cancel := context.WithTimeout(bg, 20*time.Second)
			defer cancel()
			var ok bool
			var err error
			if p := h.Try(func() { ok, err = q.clients[0].Pop(ctx, d.Interface()) }); p != nil {
				c.Failf("pop panicked: %v", p)
			}
			if !ok || err != nil {
				c.Failf("pop on %q, which has %d items: %v, %v", q.name, q.n, ok, err)
			}
			got := d.Elem().Interface()
			for i, p := range q.pushed {
				if len(p) > 0 && reflect.DeepEqual(p[0], got) {
					q.pushed[i] = p[1:]
					q.n--
					c.NonTrivial(i > 0 && (q.empty || len(qs) > 1 && qs[0].n > 0 && qs[1].n > 0))
					return
				}
			}
			var heads []string
			for _, p := range q.pushed {
				if len(p) > 0 {
					heads = append(heads, brief(p[0]))
				}
			}
			c.Failf("pop on %q returned %s; expected one of %q", q.name, brief(got), heads)
		}
		for i := rapid.IntRange(1, 25).Draw(t, "steps"); i > 0; i-- {
			qi := rapid.IntRange(0, len(qs)-1).Draw(t, "queue")
			q := qs[qi]
			if rapid.IntRange(0, 4).Draw(t, "op") < 3 {
				id++
				ci := rapid.IntRange(0, len(q.clients)-1).Draw(t, "client")
				v := genItem(t, q.ty, id)
				c.Logf("queue %d client %d: push %s", qi, ci, brief(v))
				ok, err := q.clients[ci].Push(bg, v)
				if !ok || err != nil {
					c.Failf("push: %v, %v", ok, err)
				}
				q.pushed[ci] = append(q.pushed[ci], v)
				q.n++
			} else {
				c.Logf("queue %d: pop", qi)
				pop(q)
			}
		}
		for _, q := range qs {
			for q.n > 0 {
				pop(q)
			}
			pop(q) // nothing is delivered twice
		}
	})
}

func TestC42_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 200, Thorough: 6000, Rule: "several pushing and several popping clients at work at the same time, pops with contexts that end early; every item pushed is popped once and items of one pusher reach one popping client in order; non-trivial = at least two clients pop and two push"}, func(t *rapid.T, c *h.Case) {
		b := startBroker()
		defer b.Stop()
		pushers, poppers, each := rapid.IntRange(1, 4).Draw(t, "pushers"), rapid.IntRange(1, 4).Draw(t, "poppers"), rapid.IntRange(1, 30).Draw(t, "each")
		users := rapid.IntRange(1, 2).Draw(t, "users per client")
		wait := time.Duration(rapid.IntRange(1, 20).Draw(t, "wait")) * time.Millisecond / 4
		c.Logf("%d pushers of %d items, %d poppers of %d users, contexts of %v", pushers, each, poppers, users, wait)
		var in, out []backend.Queue
		for i := 0; i < pushers; i++ {
			in = append(in, newQueue(c, b, "q"))
		}
		for i := 0; i < poppers; i++ {
			out = append(out, newQueue(c, b, "q"))
		}
		var mu sync.Mutex
		var bad []string
		got := map[string]int{}
		seqs := make([][]order, poppers)
		total := 0
		fail := func(format string, args ...any) {
			mu.Lock()
			bad = append(bad, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for i, q := range in {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < each; j++ {
					o := order{ID: 1<<53 + 1 + 2*int64(i*1000+j), Next: &order{ID: int64(i)}}
					if ok, err := q.Push(bg, o); !ok || err != nil {
						fail("push: %v, %v", ok, err)
					}
				}
			}()
		}
		stop := time.Now().Add(20 * time.Second)
		for i, q := range out {
			for u := 0; u < users; u++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for time.Now().Before(stop) {
						mu.Lock()
						done := total >= pushers*each
						mu.Unlock()
						if done {
							return
						}
						ctx, cancel := context.WithTimeout(bg, wait)
						var o order
						ok, err := q.Pop(ctx, &o)
						cancel()
						if err != nil {
							fail("pop: %v", err)
							return
						}
						if !ok {
							if o.ID != 0 {
								fail("pop failed but stored %s", js(o))
							}
							continue
						}
						mu.Lock()
						got[js(o)]++
						total++
						seqs[i] = append(seqs[i], o)
						mu.Unlock()
					}
				}()
			}
		}
		wg.Wait()
		var again order
		for _, q := range out {
			ctx, cancel := context.WithTimeout(bg, wait)
			if ok, err := q.Pop(ctx, &again); ok || err != nil {
				fail("pop after everything was popped: %v, %v, %s", ok, err, js(again))
			}
			cancel()
		}
		if len(bad) > 0 {
			c.Failf("%s", strings.Join(bad, "\n"))
		}
		for i := 0; i < pushers; i++ {
			for j := 0; j < each; j++ {
				o := order{ID: 1<<53 + 1 + 2*int64(i*1000+j), Next: &order{ID: int64(i)}}
				if got[js(o)] != 1 {
					c.Failf("item %d of pusher %d was popped %d times (%d items popped)", j, i, got[js(o)], total)
				}
			}
		}
		if users == 1 {
			for i, s := range seqs {
				last := map[int64]int64{}
				for _, o := range s {
					if o.ID <= last[o.Next.ID] {
						c.Failf("client %d popped %d of pusher %d after %d", i, o.ID, o.Next.ID, last[o.Next.ID])
					}
					last[o.Next.ID] = o.ID
				}
			}
		}
		c.NonTrivial(pushers > 1 && poppers > 1)
	})
}

func TestC42_Errors(t *testing.T) {
	h.Check(t, h.Opts{Quick: 2000, Thorough: 30000, Rule: "items that cannot be encoded, destinations that do not fit, no server, and a connection that breaks; the caller gets an error; non-trivial = the connection breaks"}, func(t *rapid.T, c *h.Case) {
		b := startBroker()
		defer b.Stop()
		q := newQueue(c, b, "q")
		what := rapid.SampledFrom([]string{"unencodable", "misfit", "no server", "broken push", "broken pop", "broken while popping"}).Draw(t, "what")
		c.Logf("%s", what)
		c.NonTrivial(strings.HasPrefix(what, "broken"))
		ctx, cancel := context.WithTimeout(bg, 10*time.Second)
		defer cancel()
		switch what {
		case "unencodable":
			bad := rapid.SampledFrom([]any{make(chan int), func() {}, map[bool]int{true: 1}}).Draw(t, "bad")
			if ok, err := q.Push(bg, bad); ok || err == nil {
				c.Failf("push of a %T: %v, %v", bad, ok, err)
			}
			if ok, err := q.Push(bg, "next"); !ok || err != nil {
				c.Failf("push: %v, %v", ok, err)
			}
			var s string
			if ok, err := q.Pop(ctx, &s); !ok || err != nil || s != "next" {
				c.Failf("pop: %q, %v, %v", s, ok, err)
			}
		case "misfit":
			if ok, err := q.Push(bg, rapid.SampledFrom([]any{"text", []string{"a"}, order{ID: 1}}).Draw(t, "item")); !ok || err != nil {
				c.Failf("push: %v, %v", ok, err)
			}
			var n int
			if _, err := q.Pop(ctx, &n); err == nil {
				c.Failf("pop of something else into an int succeeded")
			}
		case "no server":
			addr := b.Addr()
			b.Stop()
			if q, err := rabbitmq.NewRabbitMQ(bg, addr, "q"); err == nil {
				c.Failf("a client without a server: %v", q)
			}
		case "broken push":
			b.Drop()
			stop := time.Now().Add(10 * time.Second)
			for {
				ok, err := q.Push(bg, 1)
				if err != nil {
					break
				}
				if time.Now().After(stop) {
					c.Failf("pushes still succeed (%v) long after the connection broke", ok)
				}
				time.Sleep(time.Millisecond)
			}
		case "broken pop", "broken while popping":
			if what == "broken pop" {
				b.Drop()
			} else {
				go func() {
					time.Sleep(2 * time.Millisecond)
					b.Drop()
				}()
			}
			var n int
			ok, err := q.Pop(ctx, &n)
			if err == nil {
				c.Failf("pop over a broken connection: %v without error after %v, item %d", ok, ctx.Err(), n)
			}
		}
	})
}
