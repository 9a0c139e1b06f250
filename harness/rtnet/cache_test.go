package rtnet

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/redis"
	"pgregory.net/rapid"
	"verif/harness/h"
)

var bg = context.Background()

type item struct {
	ID    int64
	Name  string `json:"name"`
	Score float64
	Tags  []string
	Sub   *item
	Attrs map[string]int64 `json:",omitempty"`
	Blob  []byte
	When  time.Time
}

type small struct {
	A uint64
	B bool
}

var storedTypes = []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[int64](), reflect.TypeFor[uint64](), reflect.TypeFor[string](), reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[item](), reflect.TypeFor[*item](), reflect.TypeFor[[]item](), reflect.TypeFor[[]string](), reflect.TypeFor[map[string]small](), reflect.TypeFor[map[int64]string](), reflect.TypeFor[[]byte](), reflect.TypeFor[time.Time](), reflect.TypeFor[[2]int32]()}

var someStrings = []string{"", "a", "hello world", "日本", "\"quoted\"", "a\r\nb", "<&>", "5", "null", "\x00", "é\u2028"}

func genValue(t *rapid.T, ty reflect.Type, depth int) reflect.Value {
	v := reflect.New(ty).Elem()
	if ty == reflect.TypeFor[time.Time]() {
		v.Set(reflect.ValueOf(time.Unix(rapid.Int64Range(-1e9, 4e9).Draw(t, "sec"), rapid.Int64Range(0, 999999999).Draw(t, "ns")).UTC()))
		return v
	}
	switch ty.Kind() {
	case reflect.Int, reflect.Int64:
		v.SetInt(rapid.SampledFrom([]int64{0, 1, -1, 9, 99, 1 << 31, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64 - 3, math.MinInt64, rapid.Int64Range(-1000, 1000).Draw(t, "n")}).Draw(t, "i"))
	case reflect.Int32:
		v.SetInt(int64(rapid.Int32().Draw(t, "i32")))
	case reflect.Uint64:
		v.SetUint(rapid.SampledFrom([]uint64{0, 1, 9, 1<<53 + 1, math.MaxUint64, math.MaxInt64 - 1}).Draw(t, "u"))
	case reflect.Uint8:
		v.SetUint(uint64(rapid.Uint8().Draw(t, "u8")))
	case reflect.Float64:
		v.SetFloat(rapid.SampledFrom([]float64{0, 1, -1.5, 0.1, 1e21, 1e-7, math.MaxFloat64, 1.0 / 3}).Draw(t, "f"))
	case reflect.String:
		v.SetString(rapid.SampledFrom(someStrings).Draw(t, "s"))
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.Struct:
		for i := 0; i < ty.NumField(); i++ {
			v.Field(i).Set(genValue(t, ty.Field(i).Type, depth-1))
		}
	case reflect.Pointer:
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "nonnil") > 0 {
			v.Set(reflect.New(ty.Elem()))
			v.Elem().Set(genValue(t, ty.Elem(), depth-1))
		}
	case reflect.Slice:
		if rapid.IntRange(0, 4).Draw(t, "nonnil") > 0 {
			n := rapid.IntRange(0, 3).Draw(t, "len")
			v.Set(reflect.MakeSlice(ty, n, n))
			for i := 0; i < n; i++ {
				v.Index(i).Set(genValue(t, ty.Elem(), depth-1))
			}
		}
	case reflect.Array:
		for i := 0; i < ty.Len(); i++ {
			v.Index(i).Set(genValue(t, ty.Elem(), depth-1))
		}
	case reflect.Map:
		// an empty map with omitempty would come back nil
		if rapid.Bool().Draw(t, "nonnil") {
			v.Set(reflect.MakeMap(ty))
			for i := 0; i < rapid.IntRange(1, 3).Draw(t, "len"); i++ {
				v.SetMapIndex(genValue(t, ty.Key(), depth-1), genValue(t, ty.Elem(), depth-1))
			}
		}
	}
	return v
}

type kind struct {
	name    string
	servers []*kvServer
	clients []backend.Cache // two clients of the first server, one of the second
	keys    []string
}

var kindsOnce sync.Once
var kinds []*kind

func cacheKinds() []*kind {
	kindsOnce.Do(func() {
		must := func(err error) {
			if err != nil {
				h.EnvError("cannot listen on the loopback interface: %v", err)
			}
		}
		r, m := &kind{name: "redis", keys: []string{"a", "b", "c", "k.1", "日本", "with space", ""}}, &kind{name: "memcached", keys: []string{"a", "b", "c", "k.1", "日本", "a:b/c", strings.Repeat("k", 250)}}
		for i := 0; i < 2; i++ {
			s, err := NewRedis()
			must(err)
			r.servers = append(r.servers, &s.kvServer)
			ms, err := NewMemcachedServer()
			must(err)
			m.servers = append(m.servers, &ms.kvServer)
		}
		for _, i := range []int{0, 0, 1} {
			c, err := redis.NewRedisCacheClient(bg, r.servers[i].Addr())
			must(err)
			r.clients = append(r.clients, c)
			mc, err := memcached.NewMemcachedClient(bg, m.servers[i].Addr())
			must(err)
			m.clients = append(m.clients, mc)
		}
		kinds = []*kind{r, m}
	})
	return kinds
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

// isCounter reports whether a stored value is an integer that the server's counters hold; open if
// the servers are free to count it or not.
func isCounter(kind string, v any) (n int64, ok, open bool) {
	s := js(v)
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		_, err := strconv.ParseUint(s, 10, 64)
		return 0, false, err == nil
	}
	return n, n < math.MaxInt64 && (kind == "redis" || n >= 0), n == math.MaxInt64
}

func TestC40_Model(t *testing.T) {
	h.Check(t, h.Opts{Quick: 8000, Thorough: 200000, Rule: "a history of Put/Get/Mset/Mget/Delete/Incr through three clients of two servers (Redis or Memcached), with time passing and refused commands, compared with a map per server; non-trivial = a key written through one client is read or counted through another, or a list of keys with an absent one is read"}, func(t *rapid.T, c *h.Case) {
		k := cacheKinds()[rapid.IntRange(0, 1).Draw(t, "kind")]
		c.Logf("%s", k.name)
		c.Label(k.name)
		for _, s := range k.servers {
			s.Reset()
		}
		models := []map[string]any{{}, {}}
		writer := map[string]int{}
		genKey := func() string { return rapid.SampledFrom(k.keys).Draw(t, "key") }
		gen := func() any {
			return genValue(t, rapid.SampledFrom(storedTypes).Draw(t, "type"), 3).Interface()
		}
		// a new variable of the value's type (or of type any)
		dst := func(v any) reflect.Value {
			ty := reflect.TypeOf(v)
			if v == nil {
				ty = reflect.TypeFor[string]()
			}
			return reflect.New(ty)
		}
		check := func(what string, d reflect.Value, want any) {
			if js(d.Elem().Interface()) != js(want) || !reflect.DeepEqual(d.Elem().Interface(), want) {
				c.Failf("%s: got %s %#v, expected %s %#v", what, js(d.Elem().Interface()), d.Elem().Interface(), js(want), want)
			}
		}
		try := func(what string, f func() error) (err error) {
			if p := h.Try(func() { err = f() }); p != nil {
				c.Failf("%s panicked: %v", what, p)
			}
			return
		}
		steps := rapid.IntRange(1, 20).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			ci := rapid.IntRange(0, 2).Draw(t, "client")
			si := ci / 2
			cl, model := k.clients[ci], models[si]
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); op {
			case 0, 1:
				key, v := genKey(), gen()
				c.Logf("%d: put %q %s", ci, key, js(v))
				if err := try("put", func() error { return cl.Put(bg, key, v) }); err != nil {
					c.Failf("put: %v", err)
				}
				model[key] = v
				writer[fmt.Sprint(si, key)] = ci
			case 2, 3:
				key := genKey()
				c.Logf("%d: get %q", ci, key)
				want, has := model[key]
				d := dst(want)
				var found bool
				if err := try("get", func() (err error) { found, err = cl.Get(bg, key, d.Interface()); return }); err != nil {
					c.Failf("get %q: %v", key, err)
				}
				if found != has {
					c.Failf("get %q: found=%v, expected %v", key, found, has)
				}
				if has {
					check("get", d, want)
					c.NonTrivial(writer[fmt.Sprint(si, key)] != ci)
				} else if !d.Elem().IsZero() {
					c.Failf("get of the absent %q set the destination to %#v", key, d.Elem())
				}
			case 4:
				var keys []string
				var vals []any
				for j := rapid.IntRange(0, 5).Draw(t, "n"); j > 0; j-- {
					keys, vals = append(keys, genKey()), append(vals, gen())
				}
				c.Logf("%d: mset %q %s", ci, keys, js(vals))
				if err := try("mset", func() error { return cl.Mset(bg, keys, vals) }); err != nil {
					c.Failf("mset: %v", err)
				}
				for j := range keys {
					model[keys[j]] = vals[j]
					writer[fmt.Sprint(si, keys[j])] = ci
				}
			case 5:
				var keys []string
				var ds []reflect.Value
				var args []any
				for j := rapid.IntRange(0, 5).Draw(t, "n"); j > 0; j-- {
					key := genKey()
					d := dst(model[key])
					keys, ds, args = append(keys, key), append(ds, d), append(args, d.Interface())
				}
				c.Logf("%d: mget %q", ci, keys)
				if err := try("mget", func() error { return cl.Mget(bg, keys, args) }); err != nil {
					c.Failf("mget: %v", err)
				}
				for j, key := range keys {
					if want, has := model[key]; has {
						check(fmt.Sprintf("mget[%d]", j), ds[j], want)
					} else {
						c.NonTrivial(true)
						c.Label("mget with an absent key")
						if !ds[j].Elem().IsZero() {
							c.Failf("mget[%d] of an absent key set the destination to %#v", j, ds[j].Elem())
						}
					}
				}
			case 6:
				key := genKey()
				c.Logf("%d: delete %q", ci, key)
				if err := try("delete", func() error { return cl.Delete(bg, key) }); err != nil {
					c.Failf("delete: %v", err)
				}
				delete(model, key)
			case 7:
				key := genKey()
				cur, has := model[key]
				if !has {
					cur = int64(0)
				}
				n, ok, open := isCounter(k.name, cur)
				c.Logf("%d: incr %q", ci, key)
				var got int64
				err := try("incr", func() (err error) { got, err = cl.Incr(bg, key); return })
				if !ok {
					if err == nil && !open {
						c.Failf("incr of %s returned %d", js(cur), got)
					}
					if open {
						if err := cl.Delete(bg, key); err != nil {
							c.Failf("delete: %v", err)
						}
						delete(model, key)
					}
					break
				}
				if err != nil || got != n+1 {
					c.Failf("incr of %d: %d, %v", n, got, err)
				}
				switch cur.(type) {
				case int:
					model[key] = int(n + 1)
				case uint64:
					model[key] = uint64(n + 1)
				case float64:
					model[key] = float64(n + 1)
				default:
					model[key] = n + 1
				}
				c.NonTrivial(has && writer[fmt.Sprint(si, key)] != ci)
				writer[fmt.Sprint(si, key)] = ci
			case 8:
				if rapid.Bool().Draw(t, "mismatch") {
					keys, vals := []string{"a", "b"}, []any{1, 2, 3}
					if rapid.Bool().Draw(t, "fewer") {
						vals = vals[:rapid.IntRange(0, 1).Draw(t, "values")]
					}
					c.Logf("%d: mset %q %v, mget", ci, keys, vals)
					if err := try("mset", func() error { return cl.Mset(bg, keys, vals) }); err == nil {
						c.Failf("mset with %d keys and %d values succeeded", len(keys), len(vals))
					}
					args := make([]any, len(vals))
					for j := range args {
						args[j] = new(any)
					}
					if err := try("mget", func() error { return cl.Mget(bg, keys, args) }); err == nil {
						c.Failf("mget with %d keys and %d values succeeded", len(keys), len(vals))
					}
					break
				}
				key := genKey()
				bad := rapid.SampledFrom([]any{make(chan int), func() {}, math.NaN(), map[bool]int{true: 1}}).Draw(t, "bad")
				c.Logf("%d: put %q %T", ci, key, bad)
				if err := try("put", func() error { return cl.Put(bg, key, bad) }); err == nil {
					c.Failf("put of a %T succeeded", bad)
				}
			case 9:
				d := rapid.SampledFrom([]time.Duration{time.Second, time.Hour, 31 * 24 * time.Hour, 2 * 365 * 24 * time.Hour}).Draw(t, "time")
				c.Logf("%v pass", d)
				for _, s := range k.servers {
					s.Pass(d)
				}
			}
		}
		// everything that was written is there, through any client
		for ci, cl := range k.clients {
			for _, key := range k.keys {
				want, has := models[ci/2][key]
				d := dst(want)
				found, err := cl.Get(bg, key, d.Interface())
				if err != nil || found != has {
					c.Failf("at the end, client %d: get %q: found=%v, %v; expected %v", ci, key, found, err, has)
				}
				if has {
					check("at the end: get", d, want)
				}
			}
		}
	})
}

func TestC40_Errors(t *testing.T) {
	h.Check(t, h.Opts{Quick: 2500, Thorough: 60000, Rule: "one operation of which the server refuses one command, or whose value does not fit the destination; the caller must get an error; non-trivial = the command was refused"}, func(t *rapid.T, c *h.Case) {
		k := cacheKinds()[rapid.IntRange(0, 1).Draw(t, "kind")]
		c.Label(k.name)
		s, cl := k.servers[0], k.clients[0]
		s.Reset()
		for _, key := range []string{"a", "b"} {
			if err := cl.Put(bg, key, 5); err != nil {
				c.Failf("put: %v", err)
			}
		}
		keys := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "c", "k.1"}), 1, 4, rapid.ID[string]).Draw(t, "keys")
		op := rapid.SampledFrom([]string{"put", "get", "mset", "mget", "delete", "incr", "misfit", "misfits"}).Draw(t, "op")
		after := 0
		if op == "mset" || op == "incr" {
			after = rapid.IntRange(0, len(keys)-1).Draw(t, "after")
		}
		c.Logf("%s: %s %q, refused after %d", k.name, op, keys, after)
		s.FailNext(after)
		var err error
		found := false
		ints := make([]int, len(keys))
		args := make([]any, len(keys))
		vals := make([]any, len(keys))
		for i := range ints {
			args[i], vals[i] = &ints[i], 7
		}
		if p := h.Try(func() {
			switch op {
			case "put":
				err = cl.Put(bg, keys[0], 7)
			case "get":
				found, err = cl.Get(bg, keys[0], args[0])
			case "mset":
				err = cl.Mset(bg, keys, vals)
			case "mget":
				err = cl.Mget(bg, keys, args)
			case "delete":
				err = cl.Delete(bg, keys[0])
			case "incr":
				_, err = cl.Incr(bg, keys[0])
			case "misfit":
				s.FailNext(1 << 20)
				var d []string
				if found, e := cl.Get(bg, "a", &d); found && e == nil {
					c.Failf("get of a number into a []string succeeded with %v", d)
				}
			case "misfits":
				s.FailNext(1 << 20)
				var d struct{ A int }
				var n int
				if e := cl.Mget(bg, []string{"b", "a"}, []any{&n, &d}); e == nil {
					c.Failf("mget of a number into a struct succeeded with %v", d)
				}
			}
		}); p != nil {
			c.Failf("%s panicked: %v", op, p)
		}
		refused := !s.Pending()
		c.NonTrivial(refused)
		if refused && err == nil {
			c.Failf("the server refused the command but %s reported no error (found=%v)", op, found)
		}
		if !refused && err != nil {
			c.Failf("%s: %v", op, err)
		}
		if refused && found {
			c.Failf("%s reported a value although it failed", op)
		}
		// and the client still works
		if err := cl.Put(bg, "a", "again"); err != nil {
			c.Failf("put after a refused command: %v", err)
		}
		var d string
		if found, err := cl.Get(bg, "a", &d); !found || err != nil || d != "again" {
			c.Failf("get after a refused command: %q %v %v", d, found, err)
		}
	})
}

func TestC40_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 600, Thorough: 20000, Rule: "2-8 concurrent users of several clients count up shared keys (some of them absent at first) and write and read their own; every number is returned once; non-trivial = at least two users share a counter"}, func(t *rapid.T, c *h.Case) {
		k := cacheKinds()[rapid.IntRange(0, 1).Draw(t, "kind")]
		c.Label(k.name)
		k.servers[0].Reset()
		users, per := rapid.IntRange(2, 8).Draw(t, "users"), rapid.IntRange(1, 20).Draw(t, "each")
		counters := map[string]int64{"a": 0, "b": rapid.Int64Range(1, 120).Draw(t, "start")}
		if err := k.clients[0].Put(bg, "b", counters["b"]); err != nil {
			c.Failf("put: %v", err)
		}
		c.Logf("%s: %d users, %d times each, %v", k.name, users, per, counters)
		var mu sync.Mutex
		got := map[string][]int64{}
		var bad []string
		fail := func(format string, args ...any) {
			mu.Lock()
			bad = append(bad, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for u := 0; u < users; u++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl, own := k.clients[u%2], fmt.Sprint("own", u)
				for i := 0; i < per; i++ {
					for key := range counters {
						n, err := cl.Incr(bg, key)
						if err != nil {
							fail("incr %s: %v", key, err)
							continue
						}
						mu.Lock()
						got[key] = append(got[key], n)
						mu.Unlock()
					}
					if err := cl.Mset(bg, []string{own, own + "x"}, []any{i, "v"}); err != nil {
						fail("mset: %v", err)
					}
					var n int
					var s string
					if err := cl.Mget(bg, []string{own + "x", own}, []any{&s, &n}); err != nil || n != i || s != "v" {
						fail("user %d wrote %d but reads %d, %q, %v", u, i, n, s, err)
					}
				}
			}()
		}
		wg.Wait()
		if len(bad) > 0 {
			c.Failf("%s", strings.Join(bad, "\n"))
		}
		for key, start := range counters {
			sort.Slice(got[key], func(i, j int) bool { return got[key][i] < got[key][j] })
			for i, n := range got[key] {
				if n != start+int64(i)+1 {
					c.Failf("counter %s from %d was given %v", key, start, got[key])
				}
			}
		}
		c.NonTrivial(true)
	})
}

func TestC40_ServerGone(t *testing.T) {
	h.Check(t, h.Opts{Quick: 20, Thorough: 200, Rule: "a server that stops, after some use; every operation reports an error; non-trivial = the client had used the server"}, func(t *rapid.T, c *h.Case) {
		name := rapid.SampledFrom([]string{"redis", "memcached"}).Draw(t, "kind")
		used := rapid.Bool().Draw(t, "used")
		op := rapid.SampledFrom([]string{"put", "get", "mset", "mget", "delete", "incr"}).Draw(t, "op")
		c.Logf("%s used=%v %s", name, used, op)
		var s *kvServer
		var cl backend.Cache
		var err error
		if name == "redis" {
			var r *Redis
			if r, err = NewRedis(); err == nil {
				s = &r.kvServer
				cl, err = redis.NewRedisCacheClient(bg, s.Addr())
			}
		} else {
			var m *Memcached
			if m, err = NewMemcachedServer(); err == nil {
				s = &m.kvServer
				cl, err = memcached.NewMemcachedClient(bg, s.Addr())
			}
		}
		if err != nil {
			h.EnvError("%v", err)
		}
		if used {
			if err := cl.Put(bg, "a", 1); err != nil {
				c.Failf("put: %v", err)
			}
		}
		s.Stop()
		c.NonTrivial(used)
		var found bool
		n := 0
		if p := h.Try(func() {
			switch op {
			case "put":
				err = cl.Put(bg, "a", 7)
			case "get":
				found, err = cl.Get(bg, "a", &n)
			case "mset":
				err = cl.Mset(bg, []string{"a", "b"}, []any{1, 2})
			case "mget":
				err = cl.Mget(bg, []string{"a"}, []any{&n})
			case "delete":
				err = cl.Delete(bg, "a")
			case "incr":
				_, err = cl.Incr(bg, "a")
			}
		}); p != nil {
			c.Failf("%s panicked: %v", op, p)
		}
		if err == nil || found {
			c.Failf("%s without a server: found=%v, error %v", op, found, err)
		}
	})
}
