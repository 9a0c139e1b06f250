From 796f32337006d79301253ac4824a78b88ec76bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 01/44] fix: simplecache reads and increments without holding
 its lock

Concurrent Get/Incr crashed with a concurrent map access and lost increments.
---
 runtime/plugins/simplecache/cache.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtime/plugins/simplecache/cache.go b/runtime/plugins/simplecache/cache.go
index 176caea..9ec3b22 100644
--- a/runtime/plugins/simplecache/cache.go
+++ b/runtime/plugins/simplecache/cache.go
@@ -31,6 +31,13 @@ func (cache *SimpleCache) Put(ctx context.Context, key string, value interface{}
 }
 
 func (cache *SimpleCache) Get(ctx context.Context, key string, val interface{}) (bool, error) {
+	cache.RLock()
+	defer cache.RUnlock()
+	return cache.get(key, val)
+}
+
+// Must be called while holding the lock
+func (cache *SimpleCache) get(key string, val interface{}) (bool, error) {
 	if v, exists := cache.values[key]; exists {
 		return true, backend.CopyResult(v, val)
 	}
@@ -73,11 +80,14 @@ func (cache *SimpleCache) Delete(ctx context.Context, key string) error {
 }
 
 func (cache *SimpleCache) Incr(ctx context.Context, key string) (int64, error) {
+	cache.Lock()
+	defer cache.Unlock()
 	cur := int64(0)
-	_, err := cache.Get(ctx, key, &cur)
+	_, err := cache.get(key, &cur)
 	if err != nil {
 		return cur, err
 	}
 	cur += 1
-	return cur, cache.Put(ctx, key, cur)
+	cache.values[key] = cur
+	return cur, nil
 }
-- 
2.43.0


From 61d7c9f6b8037ad5e91be2ea53320cf0fe609297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 02/44] fix: CopyResult and GetPointerValue panic on nil values

---
 runtime/core/backend/reflect.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/runtime/core/backend/reflect.go b/runtime/core/backend/reflect.go
index 314303c..561a967 100644
--- a/runtime/core/backend/reflect.go
+++ b/runtime/core/backend/reflect.go
@@ -11,6 +11,9 @@ func GetPointerValue(val any) (any, error) {
 	if val_ptr.Kind() != reflect.Pointer {
 		return nil, errors.Errorf("cannot indirect non-pointer type %v", val)
 	}
+	if val_ptr.IsNil() {
+		return nil, errors.Errorf("cannot indirect nil pointer of type %v", val_ptr.Type())
+	}
 	return reflect.Indirect(val_ptr).Interface(), nil
 }
 
@@ -27,6 +30,16 @@ func CopyResult(src any, dst any) error {
 	dst_val := reflect.Indirect(dst_ptr)
 	src_val := reflect.ValueOf(src)
 
+	if !src_val.IsValid() {
+		// src is nil, and reflection has no type for it
+		switch dst_val.Kind() {
+		case reflect.Interface, reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+			dst_val.SetZero()
+			return nil
+		}
+		return errors.Errorf("unable to copy nil to type %v", dst_val.Type())
+	}
+
 	if dst_val.Kind() == reflect.Slice && src_val.Kind() == reflect.Slice {
 		// Special handling for slices: we want to support copying []any to []mytype
 		new_dst := reflect.MakeSlice(dst_val.Type(), src_val.Len(), src_val.Len())
-- 
2.43.0


From f03ca566fc4ff0d5078138ab091831ed092c896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 03/44] fix: client pool callers wait forever when constructing
 a client fails

A caller waiting for a client was never woken when the construction that filled
the pool failed, although the pool was below capacity again.
---
 runtime/plugins/clientpool/clientpool.go | 54 +++++++++++++++---------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/runtime/plugins/clientpool/clientpool.go b/runtime/plugins/clientpool/clientpool.go
index d5c2320..4f576a4 100644
--- a/runtime/plugins/clientpool/clientpool.go
+++ b/runtime/plugins/clientpool/clientpool.go
@@ -15,6 +15,7 @@ import (
 // Pop and returned with Push.
 type ClientPool[T any] struct {
 	clients   chan T
+	failed    chan struct{} // wakes waiting callers after a client failed to build
 	build     func() (T, error)
 	capacity  int64
 	size      int64
@@ -30,6 +31,7 @@ type ClientPool[T any] struct {
 func NewClientPool[T any](capacity int, build func() (T, error)) *ClientPool[T] {
 	pool := &ClientPool[T]{
 		clients:   make(chan T, capacity),
+		failed:    make(chan struct{}, capacity),
 		build:     build,
 		capacity:  int64(capacity),
 		size:      0,
@@ -55,28 +57,40 @@ func (pool *ClientPool[T]) Pop(ctx context.Context) (client T, err error) {
 	default:
 	}
 
-	// If the pool isn't at capacity, we can instantiate a new client
-	for curSize := pool.size; curSize < pool.capacity; {
-		if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
-			client, err = pool.build()
-			if err != nil {
-				atomic.AddInt64(&pool.size, -1)
+	for {
+		// If the pool isn't at capacity, we can instantiate a new client
+		for curSize := atomic.LoadInt64(&pool.size); curSize < pool.capacity; {
+			if atomic.CompareAndSwapInt64(&pool.size, curSize, curSize+1) {
+				client, err = pool.build()
+				if err != nil {
+					atomic.AddInt64(&pool.size, -1)
+					// The pool is below capacity again; let a waiting caller instantiate a client
+					select {
+					case pool.failed <- struct{}{}:
+					default:
+					}
+				}
+				return
 			}
-			return
+			curSize = atomic.LoadInt64(&pool.size)
 		}
-		curSize = pool.size
-	}
 
-	// Pool is at capacity; wait to reuse an existing client
-	atomic.AddInt64(&pool.waiting, 1)
-	select {
-	case <-ctx.Done():
-		err = errors.New("timeout before client was available")
-	case client = <-pool.clients:
-		atomic.AddInt64(&pool.available, -1)
+		// Pool is at capacity; wait to reuse an existing client
+		atomic.AddInt64(&pool.waiting, 1)
+		retry := false
+		select {
+		case <-ctx.Done():
+			err = errors.New("timeout before client was available")
+		case client = <-pool.clients:
+			atomic.AddInt64(&pool.available, -1)
+		case <-pool.failed:
+			retry = true
+		}
+		atomic.AddInt64(&pool.waiting, -1)
+		if !retry {
+			return
+		}
 	}
-	atomic.AddInt64(&pool.waiting, -1)
-	return
 }
 
 // Returns a client to the pool.
@@ -92,10 +106,10 @@ func (pool *ClientPool[T]) Capacity() int {
 
 // Returns the current size of the client pool
 func (pool *ClientPool[T]) Size() int {
-	return int(pool.size)
+	return int(atomic.LoadInt64(&pool.size))
 }
 
 // Returns the current number of available clients in the client pool
 func (pool *ClientPool[T]) Available() int {
-	return int(pool.available)
+	return int(atomic.LoadInt64(&pool.available))
 }
-- 
2.43.0


From f36235fb326802241aa3ad836d9cd9b34ec54ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 04/44] fix: ServiceRegistry.Get returns nothing to concurrent
 callers, Register overrides SetDefault

---
 runtime/core/registry/registry.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtime/core/registry/registry.go b/runtime/core/registry/registry.go
index 8977373..3fd9dfc 100644
--- a/runtime/core/registry/registry.go
+++ b/runtime/core/registry/registry.go
@@ -9,6 +9,7 @@ package registry
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/pkg/errors"
 	"golang.org/x/exp/slog"
@@ -19,6 +20,7 @@ type ServiceRegistry[T any] struct {
 	name             string
 	defaultBuildFunc string
 	registered       map[string]func(context.Context) (T, error)
+	buildLock        sync.Mutex // Get can be called concurrently, but only builds once
 	isBuilt          bool
 	built            T
 	buildError       error
@@ -38,7 +40,7 @@ func (r *ServiceRegistry[T]) SetDefault(name string) {
 
 func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Context) (T, error)) {
 	slog.Info(fmt.Sprintf("ServiceRegistry \"%v\" added client \"%v\"", r.name, name))
-	if len(r.registered) == 0 {
+	if len(r.registered) == 0 && r.defaultBuildFunc == "" {
 		r.defaultBuildFunc = name
 	}
 	r.registered[name] = build
@@ -48,6 +50,9 @@ func (r *ServiceRegistry[T]) Register(name string, build func(ctx context.Contex
 // then the client will be built.  The client and any build error is cached,
 // and will be returned by any subsequent calls to Get
 func (r *ServiceRegistry[T]) Get(ctx context.Context) (T, error) {
+	r.buildLock.Lock()
+	defer r.buildLock.Unlock()
+
 	if r.isBuilt {
 		return r.built, r.buildError
 	}
-- 
2.43.0


From 04e62c10cc042bd67102830c17ff06f99bd27353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 05/44] fix: runtime namespaces built nodes twice under
 concurrency and did not await nested namespaces

Client pools build their namespaces while requests run, so Get is called from several
goroutines: nodes were built more than once, and the map of built nodes was written concurrently.
Await only covered runnables of the namespace itself and its direct children.
---
 runtime/plugins/golang/namespace.go | 73 +++++++++++++++++++----------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 3115a79..5c00433 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -81,7 +81,9 @@ type NamespaceBuilder struct {
 type Namespace struct {
 	name       string
 	buildFuncs map[string]BuildFunc
-	built      map[string]any
+
+	lock  sync.Mutex // guards built; nodes can be built concurrently, e.g. by client pools
+	built map[string]*builtNode
 
 	ctx    context.Context
 	cancel context.CancelFunc
@@ -90,6 +92,13 @@ type Namespace struct {
 	parent *Namespace
 }
 
+// A node that has been built, or is being built
+type builtNode struct {
+	done chan struct{} // closed once the build has finished
+	node any
+	err  error
+}
+
 type argNode struct {
 	name        string
 	description string
@@ -225,7 +234,7 @@ func (b *NamespaceBuilder) Build(ctx context.Context) (*Namespace, error) {
 	n.name = b.name
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
-	n.built = make(map[string]any)
+	n.built = make(map[string]*builtNode)
 	n.ctx, n.cancel = context.WithCancel(ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -273,7 +282,7 @@ func (b *NamespaceBuilder) BuildWithParent(parent *Namespace) (*Namespace, error
 	n.parent = parent
 	n.buildFuncs = make(map[string]BuildFunc)
 	maps.Copy(n.buildFuncs, b.buildFuncs)
-	n.built = make(map[string]any)
+	n.built = make(map[string]*builtNode)
 	n.ctx, n.cancel = context.WithCancel(parent.ctx)
 	n.wg = &sync.WaitGroup{}
 
@@ -355,9 +364,6 @@ func (b *NamespaceBuilder) checkRequired(parent *Namespace) error {
 
 // Reports whether the namespace has a definition for name
 func (n *Namespace) has(name string) bool {
-	if _, isBuilt := n.built[name]; isBuilt {
-		return true
-	}
 	if _, hasDef := n.buildFuncs[name]; hasDef {
 		return true
 	}
@@ -370,29 +376,44 @@ func (n *Namespace) has(name string) bool {
 // Gets a node from this namespace.  If the node hasn't been built yet,
 // it will be built.
 func (n *Namespace) Get(name string, receiver any) error {
-	if existing, exists := n.built[name]; exists {
-		return backend.CopyResult(existing, receiver)
-	}
 	if build, exists := n.buildFuncs[name]; exists {
-		built, err := build(n)
-		if err != nil {
-			slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
-			return err
-		} else {
-			switch v := built.(type) {
-			case string:
-				slog.Info(fmt.Sprintf("%v built %v (%v) = %v", n.name, name, reflect.TypeOf(built), v))
-			default:
-				slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
+		n.lock.Lock()
+		existing, exists := n.built[name]
+		if exists {
+			n.lock.Unlock()
+			// Somebody else might still be building the node
+			<-existing.done
+			if existing.err != nil {
+				return existing.err
 			}
+			return backend.CopyResult(existing.node, receiver)
+		}
+		building := &builtNode{done: make(chan struct{})}
+		n.built[name] = building
+		n.lock.Unlock()
+
+		building.node, building.err = build(n)
+		if building.err != nil {
+			n.lock.Lock()
+			delete(n.built, name)
+			n.lock.Unlock()
+			close(building.done)
+			slog.Error(fmt.Sprintf("%v error building %v", n.name, name))
+			return building.err
+		}
+		built := building.node
+		switch v := built.(type) {
+		case string:
+			slog.Info(fmt.Sprintf("%v built %v (%v) = %v", n.name, name, reflect.TypeOf(built), v))
+		default:
+			slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
 		}
-		n.built[name] = built
 
 		if runnable, isRunnable := built.(Runnable); isRunnable {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
-			n.wg.Add(1)
-			if n.parent != nil {
-				n.parent.wg.Add(1)
+			// The enclosing namespaces also wait for the runnable to finish
+			for ns := n; ns != nil; ns = ns.parent {
+				ns.wg.Add(1)
 			}
 			go func() {
 				err := runnable.Run(n.ctx)
@@ -402,12 +423,12 @@ func (n *Namespace) Get(name string, receiver any) error {
 				} else {
 					slog.Info(fmt.Sprintf("%v %v exited", n.name, name))
 				}
-				n.wg.Done()
-				if n.parent != nil {
-					n.parent.wg.Done()
+				for ns := n; ns != nil; ns = ns.parent {
+					ns.wg.Done()
 				}
 			}()
 		}
+		close(building.done)
 
 		return backend.CopyResult(built, receiver)
 	}
-- 
2.43.0


From f95a3d91338d21f05e573e917c8365b6bf924adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 06/44] fix: all in-memory relational databases of a process
 shared their tables

---
 runtime/plugins/sqlitereldb/reldb.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/sqlitereldb/reldb.go b/runtime/plugins/sqlitereldb/reldb.go
index 268728d..74bf139 100644
--- a/runtime/plugins/sqlitereldb/reldb.go
+++ b/runtime/plugins/sqlitereldb/reldb.go
@@ -9,6 +9,8 @@ package sqlitereldb
 import (
 	"context"
 	"database/sql"
+	"fmt"
+	"sync/atomic"
 
 	"github.com/jmoiron/sqlx"
 
@@ -20,9 +22,14 @@ type SqliteRelDB struct {
 	db *sqlx.DB
 }
 
+// Gives every [SqliteRelDB] instance its own in-memory database
+var instances atomic.Int64
+
 // Instantiates a new [SqliteRelDB] instance that stores query data in-memory
 func NewSqliteRelDB(ctx context.Context) (*SqliteRelDB, error) {
-	db, err := sqlx.Open("sqlite3", "file:foobar?mode=memory&cache=shared")
+	// The connections of an instance share one named in-memory database; different instances must not
+	dsn := fmt.Sprintf("file:blueprint_reldb_%d?mode=memory&cache=shared", instances.Add(1))
+	db, err := sqlx.Open("sqlite3", dsn)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dce0330f1d599545e7ac9e65877ba2a0ce5c5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 07/44] fix: GetSpanContext panics when the trace flags are
 missing

---
 runtime/core/backend/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/core/backend/trace.go b/runtime/core/backend/trace.go
index ca3c9b2..30ad85c 100644
--- a/runtime/core/backend/trace.go
+++ b/runtime/core/backend/trace.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 
+	"github.com/pkg/errors"
 	"go.opentelemetry.io/otel/trace"
 )
 
@@ -49,6 +50,9 @@ func GetSpanContext(encoded_string string) (trace.SpanContextConfig, error) {
 	if err != nil {
 		return trace.SpanContextConfig{}, err
 	}
+	if len(flag_bytes) != 1 {
+		return trace.SpanContextConfig{}, errors.Errorf("invalid trace flags %q", tCtx.TraceFlags)
+	}
 	tFlags := trace.TraceFlags(flag_bytes[0])
 	tState, err := trace.ParseTraceState(tCtx.TraceState)
 	if err != nil {
-- 
2.43.0


From bbe35cd478b7f5da9d50365c557a4d56fbb1c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 08/44] fix: simplenosqldb filters deviate from MongoDB
 semantics

$exists, $ne, $in, $all, $elemMatch and operators combined on an array field, null, array and document literals,
numbers of different types, negative indices, empty $or and Go values that are not BSON types.
---
 runtime/plugins/simplenosqldb/query/filter.go |  81 +++++-
 .../simplenosqldb/query/parsefilter.go        | 261 +++++++++---------
 2 files changed, 215 insertions(+), 127 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/filter.go b/runtime/plugins/simplenosqldb/query/filter.go
index 1541147..6761cb2 100644
--- a/runtime/plugins/simplenosqldb/query/filter.go
+++ b/runtime/plugins/simplenosqldb/query/filter.go
@@ -79,6 +79,10 @@ type (
 	elemMatch struct {
 		queries []Filter
 	}
+
+	elementQuery struct {
+		query Filter
+	}
 )
 
 const (
@@ -92,7 +96,7 @@ const (
 func Lookup(selector string, next Filter) Filter {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, isIndex := arrayIndex(splits[i]); isIndex {
 			next = Index(j, next)
 		} else {
 			next = Select(splits[i], next)
@@ -104,6 +108,12 @@ func Lookup(selector string, next Filter) Filter {
 	return next
 }
 
+// Reports whether a component of a selector is an array index, which is a non-negative number
+func arrayIndex(component string) (int, bool) {
+	i, err := strconv.ParseUint(component, 10, 31)
+	return int(i), err == nil
+}
+
 func Select(fieldName string, next Filter) Filter {
 	return &selectFilter{fieldName: fieldName, next: next}
 }
@@ -185,6 +195,11 @@ func ElemMatch(queries ...Filter) Filter {
 	return &elemMatch{queries: queries}
 }
 
+// Applies a query to an element of an array; elements that aren't documents don't match
+func ElementQuery(query Filter) Filter {
+	return &elementQuery{query: query}
+}
+
 func (f *selectFilter) Apply(item any) bool {
 	if d, isD := item.(bson.D); isD {
 		for _, e := range d {
@@ -217,7 +232,45 @@ func (f *broadcast) Apply(item any) bool {
 }
 
 func (f *equals) Apply(item any) bool {
-	return reflect.DeepEqual(item, f.value)
+	return valuesEqual(item, f.value)
+}
+
+// Compares two values; numbers are equal irrespective of their type
+func valuesEqual(a, b any) bool {
+	switch v := a.(type) {
+	case bson.D:
+		w, isD := b.(bson.D)
+		if !isD || len(v) != len(w) {
+			return false
+		}
+		for i := range v {
+			if v[i].Key != w[i].Key || !valuesEqual(v[i].Value, w[i].Value) {
+				return false
+			}
+		}
+		return true
+	case bson.A:
+		w, isA := b.(bson.A)
+		if !isA || len(v) != len(w) {
+			return false
+		}
+		for i := range v {
+			if !valuesEqual(v[i], w[i]) {
+				return false
+			}
+		}
+		return true
+	}
+	if i, isInt := intValue(a); isInt {
+		if j, isInt := intValue(b); isInt {
+			return i == j
+		}
+	}
+	if f, isFloat := floatValue(a); isFloat {
+		g, isFloat := floatValue(b)
+		return isFloat && f == g
+	}
+	return reflect.DeepEqual(a, b)
 }
 
 func (f *cmpInt) Apply(item any) bool {
@@ -235,6 +288,9 @@ func (f *cmpInt) Apply(item any) bool {
 			return v <= f.value
 		}
 	}
+	if _, isFloat := floatValue(item); isFloat {
+		return CmpFloat(float64(f.value), f.cmp).Apply(item)
+	}
 	return false
 }
 
@@ -327,6 +383,9 @@ func (f *elemMatch) Apply(item any) bool {
 
 outer:
 	for _, e := range a {
+		if !isDocument(e) {
+			continue
+		}
 		for _, query := range f.queries {
 			if !query.Apply(e) {
 				continue outer
@@ -337,6 +396,20 @@ outer:
 	return false
 }
 
+func (f *elementQuery) Apply(item any) bool {
+	return isDocument(item) && f.query.Apply(item)
+}
+
+// Queries only ever match documents or arrays, never scalar values
+func isDocument(item any) bool {
+	switch item.(type) {
+	case bson.D, bson.A:
+		return true
+	default:
+		return false
+	}
+}
+
 func (f *selectFilter) String() string {
 	return fmt.Sprintf(".%v %v", f.fieldName, f.next.String())
 }
@@ -426,6 +499,10 @@ func (f *elemMatch) String() string {
 	return fmt.Sprintf("elemMatch(%v)", strings.Join(queryStrings, ", "))
 }
 
+func (f *elementQuery) String() string {
+	return fmt.Sprintf("query(%v)", f.query)
+}
+
 func intValue(item any) (int64, bool) {
 	switch v := item.(type) {
 	case int:
diff --git a/runtime/plugins/simplenosqldb/query/parsefilter.go b/runtime/plugins/simplenosqldb/query/parsefilter.go
index 8052384..5dd793d 100644
--- a/runtime/plugins/simplenosqldb/query/parsefilter.go
+++ b/runtime/plugins/simplenosqldb/query/parsefilter.go
@@ -25,6 +25,9 @@ func init() {
 }
 
 func parseQueries(a bson.A) ([]Filter, error) {
+	if len(a) == 0 {
+		return nil, errors.Errorf("expected a nonempty bson.A of queries")
+	}
 	var filters []Filter
 	for _, v := range a {
 		d, isD := v.(bson.D)
@@ -60,75 +63,91 @@ or
 { <field1>: { <operator1>: <value1> }
 */
 func parseValues(d bson.D) (Filter, error) {
-	var filters []Filter
-	var fieldsSeen []string
-	for _, e := range d {
-		if strings.HasPrefix(e.Key, "$") {
-			return nil, errors.Errorf("values cannot contain operators; found %v in %v", e.Key, d)
-		}
-
-		if strings.Contains(e.Key, ".") {
-			return nil, errors.Errorf("cannot use selector expression %v within value condition %v", e.Key, d)
-		}
-
-		filter, err := parseValue(e.Value)
-		if err != nil {
-			return nil, err
-		}
-		filters = append(filters, Select(e.Key, filter))
-		fieldsSeen = append(fieldsSeen, e.Key)
-	}
 	// Struct matches must be exact matches
-	filters = append(filters, ExactFieldMatch(fieldsSeen...))
-	return And(filters...), nil
+	return parseValue(d)
 }
 
 func parseValue(value any) (Filter, error) {
+	if err := checkValue(value); err != nil {
+		return nil, err
+	}
+	v, err := toBsonValue(value)
+	if err != nil {
+		return nil, err
+	}
+	return Equals(v), nil
+}
+
+// Literal values can't contain operators or selector expressions
+func checkValue(value any) error {
 	switch v := value.(type) {
 	case bson.D:
-		return parseValues(v)
+		for _, e := range v {
+			if strings.HasPrefix(e.Key, "$") {
+				return errors.Errorf("values cannot contain operators; found %v in %v", e.Key, v)
+			}
+			if strings.Contains(e.Key, ".") {
+				return errors.Errorf("cannot use selector expression %v within value condition %v", e.Key, v)
+			}
+			if err := checkValue(e.Value); err != nil {
+				return err
+			}
+		}
 	case bson.A:
-		return parseArrayValues(v)
+		for _, e := range v {
+			if err := checkValue(e); err != nil {
+				return err
+			}
+		}
 	case bson.E:
-		return nil, errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.E found in %v", v)
+		return errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.E found in %v", v)
 	case bson.M:
-		return nil, errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.M found in %v", v)
-	default:
-		return Equals(v), nil
+		return errors.Errorf("values must be composed of bson.D, bson.A, or value literals; not bson.M found in %v", v)
 	}
+	return nil
 }
 
-func parseArrayValues(a bson.A) (Filter, error) {
-	/* All elements of the array must match exactly */
-	var arrayFilters []Filter
-	for i := range a {
-		switch v := a[i].(type) {
-		case bson.D:
-			{
-				filter, err := parseValues(v)
-				if err != nil {
-					return nil, err
-				}
-				arrayFilters = append(arrayFilters, Index(i, filter))
-			}
-		case bson.A:
-			{
-				filter, err := parseArrayValues(v)
-				if err != nil {
-					return nil, err
-				}
-				arrayFilters = append(arrayFilters, Index(i, filter))
-			}
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.A found in %v", v)
-		case bson.E:
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.E found in %v", v)
-		case bson.M:
-			return nil, errors.Errorf("array values must be composed of bson.D or value literals; not bson.M found in %v", v)
-		default:
-			arrayFilters = append(arrayFilters, Index(i, Equals(v)))
+// Converts a golang value to the representation that it has within a stored document
+func toBsonValue(value any) (any, error) {
+	if value == nil {
+		return nil, nil
+	}
+	t, bytes, err := bson.MarshalValue(value)
+	if err != nil {
+		return nil, err
+	}
+	var v any
+	err = bson.UnmarshalValue(t, bytes, &v)
+	return v, err
+}
+
+/*
+A field equals a value if the value of the field matches exactly, or if the field
+is an array and one of its elements matches exactly.  A missing field equals null.
+*/
+func parseFieldEquals(key string, value any) (Filter, error) {
+	filter, err := parseValue(value)
+	if err != nil {
+		return nil, err
+	}
+	equals := Lookup(key, Or(filter, Broadcast(filter)))
+	if value == nil {
+		return Or(equals, Not(Lookup(key, Exists()))), nil
+	}
+	return equals, nil
+}
+
+func parseFieldEqualsEach(key string, values any) ([]Filter, error) {
+	v := reflect.ValueOf(values)
+	var filters []Filter
+	for i := 0; i < v.Len(); i++ {
+		filter, err := parseFieldEquals(key, v.Index(i).Interface())
+		if err != nil {
+			return nil, err
 		}
+		filters = append(filters, filter)
 	}
-	return And(arrayFilters...), nil
+	return filters, nil
 }
 
 /*
@@ -160,36 +179,23 @@ func parseFilterCondition(e bson.E) (Filter, error) {
 			if !hasOperators {
 				// If no operators, then it's just a direct value match or an
 				// array OR value match
-				filter, err := parseValues(v)
-				return Lookup(e.Key, Broadcast(filter)), err
+				return parseFieldEquals(e.Key, v)
 			}
 
 			// Array operators can't mix with regular value operators
-			if filter, err := parseArrayOperators(v); err != nil || filter != nil {
-				return Lookup(e.Key, filter), err
-			}
-
-			// $exists: false is a special case
-			if filter, err := parseExistsOperators(e.Key, v); err != nil || filter != nil {
+			if filter, err := parseArrayOperators(e.Key, v); err != nil || filter != nil {
 				return filter, err
 			}
 
 			// We have regular value operators
-			filter, err := parseValueOperators(v)
-			return Lookup(e.Key, Broadcast(filter)), err
-		}
-	case bson.A:
-		{
-			// Exact match an array value
-			filter, err := parseArrayValues(v)
-			return Lookup(e.Key, filter), err
+			return parseValueOperators(e.Key, v)
 		}
 	case bson.E:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.E")
 	case bson.M:
 		return nil, errors.Errorf("condition values should be specified using bson.D not bson.M")
 	default:
-		return Lookup(e.Key, Broadcast(Equals(v))), nil
+		return parseFieldEquals(e.Key, v)
 	}
 }
 
@@ -246,10 +252,10 @@ $all, $elemMatch, $size
 If anything is found in the document that does not match these,
 this will return nil.
 */
-func parseArrayOperators(d bson.D) (Filter, error) {
+func parseArrayOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
-		filter, err := parseArrayOperator(e)
+		filter, err := parseArrayOperator(key, e)
 		if err != nil {
 			return nil, err
 		}
@@ -267,7 +273,7 @@ func parseArrayOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
-func parseArrayOperator(e bson.E) (Filter, error) {
+func parseArrayOperator(key string, e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$all":
 		{
@@ -275,15 +281,14 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 			if !isA {
 				return nil, errors.Errorf("$all must be an array of values but got %v", e)
 			}
-			var valuefilters []Filter
-			for _, value := range values {
-				valuefilter, err := parseValue(value)
-				if err != nil {
-					return nil, err
-				}
-				valuefilters = append(valuefilters, valuefilter)
+			filters, err := parseFieldEqualsEach(key, values)
+			if err != nil {
+				return nil, err
+			}
+			if len(filters) == 0 {
+				return Not(Exists()), nil
 			}
-			return All(valuefilters...), nil
+			return And(filters...), nil
 		}
 	case "$elemMatch":
 		{
@@ -292,40 +297,27 @@ func parseArrayOperator(e bson.E) (Filter, error) {
 				return nil, errors.Errorf("$elemMatch must be a bson.D but got %v", e)
 			}
 			filter, err := parseQuery(d)
-			return Broadcast(filter), err
-		}
-	case "$size":
-	}
-	return nil, nil
-}
-
-// $exists: false is a special case that can also ignore all other operators
-// This only returns a filter for $exists: false; not $exists: true
-func parseExistsOperators(key string, d bson.D) (Filter, error) {
-	for _, e := range d {
-		if e.Key == "$exists" {
-			if v, isBool := e.Value.(bool); isBool {
-				if !v {
-					return Not(Lookup(e.Key, Exists())), nil
-				} else {
-					return nil, nil
-				}
-			} else {
-				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
+			if err != nil {
+				return nil, err
 			}
+			return Lookup(key, ElemMatch(filter)), nil
 		}
+	case "$size":
 	}
 	return nil, nil
 }
 
 /*
 Parses a value that has some operators in it
+
+Each operator is a separate condition on the field; if the field is an array,
+different elements of the array can satisfy different operators.
 */
-func parseValueOperators(d bson.D) (Filter, error) {
+func parseValueOperators(key string, d bson.D) (Filter, error) {
 	filters := []Filter{}
 	for _, e := range d {
 
-		filter, err := parseValueOperator(e)
+		filter, err := parseFieldOperator(key, e)
 		if err != nil {
 			return nil, err
 		}
@@ -334,19 +326,17 @@ func parseValueOperators(d bson.D) (Filter, error) {
 	return And(filters...), nil
 }
 
-func parseValueOperator(e bson.E) (Filter, error) {
-
-	if filter, err := parseNumericOperator(e); err != nil || filter != nil {
-		return filter, err
-	}
-
+func parseFieldOperator(key string, e bson.E) (Filter, error) {
 	switch e.Key {
 	case "$eq":
-		return parseValue(e.Value)
+		return parseFieldEquals(key, e.Value)
 	case "$ne":
 		{
-			f, err := parseValue(e.Value)
-			return Not(f), err
+			filter, err := parseFieldEquals(key, e.Value)
+			if err != nil {
+				return nil, err
+			}
+			return Not(filter), nil
 		}
 	case "$in":
 		{
@@ -354,19 +344,44 @@ func parseValueOperator(e bson.E) (Filter, error) {
 			if v.Kind() != reflect.Slice {
 				return nil, errors.Errorf("$in requires a bson.A value or a slice, but got %v", e)
 			}
-			var filters []Filter
-			for i := 0; i < v.Len(); i++ {
-				filter, err := parseValue(v.Index(i).Interface())
-				if err != nil {
-					return nil, err
-				}
-				filters = append(filters, filter)
+			filters, err := parseFieldEqualsEach(key, e.Value)
+			if err != nil {
+				return nil, err
 			}
 			if len(filters) == 0 {
 				return Not(Exists()), nil
 			}
 			return Or(filters...), nil
 		}
+	case "$exists":
+		{
+			v, isBool := e.Value.(bool)
+			if !isBool {
+				return nil, errors.Errorf("$exists requires a bool value but got %v", e)
+			}
+			if v {
+				return Lookup(key, Exists()), nil
+			}
+			return Not(Lookup(key, Exists())), nil
+		}
+	default:
+		{
+			filter, err := parseValueOperator(e)
+			if err != nil {
+				return nil, err
+			}
+			return Lookup(key, Broadcast(filter)), nil
+		}
+	}
+}
+
+func parseValueOperator(e bson.E) (Filter, error) {
+
+	if filter, err := parseNumericOperator(e); err != nil || filter != nil {
+		return filter, err
+	}
+
+	switch e.Key {
 	case "$nin":
 		{
 			return nil, errors.Errorf("$nin not implemented; use $nor and $in instead")
@@ -396,8 +411,6 @@ func parseValueOperator(e bson.E) (Filter, error) {
 func parseNumericOperator(e bson.E) (Filter, error) {
 	if v, isInt := intValue(e.Value); isInt {
 		switch e.Key {
-		case "$eq":
-			return CmpInt(v, Eq), nil
 		case "$gt":
 			return CmpInt(v, Gt), nil
 		case "$gte":
@@ -409,8 +422,6 @@ func parseNumericOperator(e bson.E) (Filter, error) {
 		}
 	} else if v, isFloat := floatValue(e.Value); isFloat {
 		switch e.Key {
-		case "$eq":
-			return CmpFloat(v, Eq), nil
 		case "$gt":
 			return CmpFloat(v, Gt), nil
 		case "$gte":
-- 
2.43.0


From 12513a08b2deb7c96687d341c7f0a33cc7dc382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 09/44] fix: simplenosqldb updates truncate arrays, reject null
 and create fields they should not

Setting an array element dropped the elements after it, $pull and $unset touched or rejected missing fields,
$inc wrapped around, $addToSet compared numbers by type.
---
 .../simplenosqldb/query/parseupdate.go        |  5 +-
 runtime/plugins/simplenosqldb/query/update.go | 83 ++++++++++++++-----
 2 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/query/parseupdate.go b/runtime/plugins/simplenosqldb/query/parseupdate.go
index 7541c3a..b9e59b2 100644
--- a/runtime/plugins/simplenosqldb/query/parseupdate.go
+++ b/runtime/plugins/simplenosqldb/query/parseupdate.go
@@ -195,8 +195,9 @@ func parsePull(args any) ([]Update, error) {
 		switch v := e.Value.(type) {
 		case bson.D:
 			filter, err = parseQuery(v)
+			filter = ElementQuery(filter)
 		default:
-			filter = Equals(v)
+			filter, err = parseValue(v)
 		}
 		if err != nil {
 			return nil, err
@@ -206,7 +207,7 @@ func parsePull(args any) ([]Update, error) {
 		if err != nil {
 			return nil, err
 		}
-		updates = append(updates, UpdatePath(e.Key, update))
+		updates = append(updates, UpdateExistingPath(e.Key, update))
 	}
 	return updates, nil
 }
diff --git a/runtime/plugins/simplenosqldb/query/update.go b/runtime/plugins/simplenosqldb/query/update.go
index 74aa2cd..a432719 100644
--- a/runtime/plugins/simplenosqldb/query/update.go
+++ b/runtime/plugins/simplenosqldb/query/update.go
@@ -2,8 +2,8 @@ package query
 
 import (
 	"fmt"
+	"math"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
@@ -70,18 +70,25 @@ type (
 	}
 )
 
+func marshalValue(value any) (bsontype.Type, []byte, error) {
+	if value == nil {
+		return bsontype.Null, nil, nil
+	}
+	return bson.MarshalValue(value)
+}
+
 func SetValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &set{t: t, value: v}, err
 }
 
 func PushValue(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &push{t: t, value: v}, err
 }
 
 func AddToSet(value any) (Update, error) {
-	t, v, err := bson.MarshalValue(value)
+	t, v, err := marshalValue(value)
 	return &addtoset{t: t, value: v}, err
 }
 
@@ -109,13 +116,23 @@ func UpdateIndex(index int, update Update, createIfAbsent bool) Update {
 	return &updateindex{index: index, update: update, createIfAbsent: createIfAbsent}
 }
 
+// Applies the update to the selected field, creating it if it does not exist
 func UpdatePath(selector string, update Update) Update {
+	return updatePath(selector, update, true)
+}
+
+// Applies the update to the selected field if it exists
+func UpdateExistingPath(selector string, update Update) Update {
+	return updatePath(selector, update, false)
+}
+
+func updatePath(selector string, update Update, createIfAbsent bool) Update {
 	splits := strings.Split(selector, ".")
 	for i := len(splits) - 1; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
-			update = UpdateIndex(j, update, true)
+		if j, isIndex := arrayIndex(splits[i]); isIndex {
+			update = UpdateIndex(j, update, createIfAbsent)
 		} else {
-			update = UpdateField(splits[i], update, true)
+			update = UpdateField(splits[i], update, createIfAbsent)
 			if i != 0 {
 				update = BroadcastUpdate(update) // broadcast in case the field is an array type
 			}
@@ -128,14 +145,14 @@ func UnsetPath(selector string) Update {
 	splits := strings.Split(selector, ".")
 
 	var update Update
-	if i, err := strconv.Atoi(splits[len(splits)-1]); err == nil {
+	if i, isIndex := arrayIndex(splits[len(splits)-1]); isIndex {
 		update = UnsetElement(i)
 	} else {
 		update = UnsetField(splits[len(splits)-1])
 	}
 
 	for i := len(splits) - 2; i >= 0; i-- {
-		if j, err := strconv.Atoi(splits[i]); err == nil {
+		if j, isIndex := arrayIndex(splits[i]); isIndex {
 			update = UpdateIndex(j, update, false)
 		} else {
 			update = UpdateField(splits[i], update, false)
@@ -181,7 +198,11 @@ func (s *set) Apply(itemRef any) error {
 		return errors.Errorf("set unable to apply update to non-interface type %v", reflect.TypeOf(dst_val))
 	}
 
-	dst_val.Set(reflect.ValueOf(v))
+	if v == nil {
+		dst_val.SetZero()
+	} else {
+		dst_val.Set(reflect.ValueOf(v))
+	}
 
 	return nil
 }
@@ -234,7 +255,7 @@ func (p *addtoset) Apply(itemRef any) error {
 
 	// Check if it exists
 	for i := range a {
-		if reflect.DeepEqual(v, a[i]) {
+		if valuesEqual(v, a[i]) {
 			return nil
 		}
 	}
@@ -284,7 +305,7 @@ func (u *unsetfield) Apply(itemRef any) error {
 
 	v, isD := itemVal.(bson.D)
 	if !isD {
-		return errors.Errorf("unsetfield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
+		return nil // nothing to unset
 	}
 
 	// See if the key exists within the document; if so remove it
@@ -305,7 +326,7 @@ func (u *unsetelement) Apply(itemRef any) error {
 
 	v, isA := itemVal.(bson.A)
 	if !isA {
-		return errors.Errorf("unsetelement expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
+		return nil // nothing to unset
 	}
 
 	// Ensure the slice length
@@ -315,6 +336,14 @@ func (u *unsetelement) Apply(itemRef any) error {
 	return nil
 }
 
+func addInt64(a, b int64) (int64, error) {
+	sum := a + b
+	if (a > 0 && b > 0 && sum < 0) || (a < 0 && b < 0 && sum >= 0) {
+		return 0, errors.Errorf("overflow incrementing %v by %v", a, b)
+	}
+	return sum, nil
+}
+
 func (i *incint) Apply(itemRef any) error {
 	itemVal, err := backend.GetPointerValue(itemRef)
 	if err != nil {
@@ -331,9 +360,20 @@ func (i *incint) Apply(itemRef any) error {
 	case float32:
 		return backend.CopyResult(v+float32(i.amount), itemRef)
 	case int64:
-		return backend.CopyResult(v+i.amount, itemRef)
+		sum, err := addInt64(v, i.amount)
+		if err != nil {
+			return err
+		}
+		return backend.CopyResult(sum, itemRef)
 	case int32:
-		return backend.CopyResult(v+int32(i.amount), itemRef)
+		sum, err := addInt64(int64(v), i.amount)
+		if err != nil {
+			return err
+		}
+		if sum < math.MinInt32 || sum > math.MaxInt32 {
+			return backend.CopyResult(sum, itemRef)
+		}
+		return backend.CopyResult(int32(sum), itemRef)
 	case int16:
 		return backend.CopyResult(v+int16(i.amount), itemRef)
 	case int8:
@@ -357,6 +397,9 @@ func (s *updatefield) Apply(itemRef any) error {
 
 	v, isD := itemVal.(bson.D)
 	if !isD {
+		if !s.createIfAbsent {
+			return nil
+		}
 		return errors.Errorf("updatefield expected a bson.D but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
@@ -394,6 +437,9 @@ func (s *updateindex) Apply(itemRef any) error {
 
 	v, isA := itemVal.(bson.A)
 	if !isA {
+		if !s.createIfAbsent {
+			return nil
+		}
 		return errors.Errorf("updateindex expected a bson.A but instead found a %v %v", reflect.TypeOf(itemVal), itemVal)
 	}
 
@@ -401,12 +447,9 @@ func (s *updateindex) Apply(itemRef any) error {
 	if !s.createIfAbsent && len(v) <= s.index {
 		return nil
 	}
-	if cap(v) <= s.index {
-		newv := make(bson.A, 0, s.index+1)
-		newv = append(newv, v...)
-		v = newv
+	for len(v) <= s.index {
+		v = append(v, nil)
 	}
-	v = v[:s.index+1]
 
 	// Update at the specified index and copy back to ptr
 	err = s.update.Apply(&v[s.index])
-- 
2.43.0


From 4bf20df7374f8196d49a139df477118227f4a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 10/44] fix: simplenosqldb collections share memory with
 callers, lose concurrent writes and half-apply failed updates

---
 runtime/plugins/simplenosqldb/nosqldb.go | 140 +++++++++++++++++------
 1 file changed, 107 insertions(+), 33 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 86cfb1c..79d9303 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb/query"
@@ -26,10 +27,15 @@ type (
 	// Only a small set of common basic filter and update operators are supported, but typically this is sufficient
 	// for most applications and enables writing service-level unit tests.
 	SimpleNoSQLDB struct {
+		mutex       sync.Mutex
 		collections map[string]map[string]*SimpleCollection
 	}
 
 	SimpleCollection struct {
+		mutex sync.RWMutex
+
+		// Documents are never modified once they are stored, only replaced with modified copies,
+		// since cursors refer to them.
 		items []bson.D
 	}
 
@@ -46,6 +52,9 @@ func NewSimpleNoSQLDB(ctx context.Context) (*SimpleNoSQLDB, error) {
 }
 
 func (impl *SimpleNoSQLDB) GetCollection(ctx context.Context, db_name string, collection_name string) (backend.NoSQLCollection, error) {
+	impl.mutex.Lock()
+	defer impl.mutex.Unlock()
+
 	db, dbExists := impl.collections[db_name]
 	if !dbExists {
 		db = make(map[string]*SimpleCollection)
@@ -97,27 +106,25 @@ func (c *SimpleCursor) All(ctx context.Context, obj interface{}) error {
 }
 
 func (db *SimpleCollection) InsertOne(ctx context.Context, document interface{}) error {
-	d, isD := document.(bson.D)
-	if !isD {
-		var err error
-		d, err = toBson(document)
-		if err != nil {
-			return err
-		}
+	d, err := toBson(document)
+	if err != nil {
+		return err
 	}
-	hasId := false
+	d = ensureID(d)
+
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	db.items = append(db.items, d)
+	return nil
+}
+
+func ensureID(d bson.D) bson.D {
 	for _, e := range d {
 		if e.Key == "_id" {
-			hasId = true
-			break
+			return d
 		}
 	}
-	if !hasId {
-		d = append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
-	}
-
-	db.items = append(db.items, d)
-	return nil
+	return append(bson.D{{"_id", primitive.NewObjectID()}}, d...)
 }
 
 func (db *SimpleCollection) InsertMany(ctx context.Context, documents []interface{}) error {
@@ -138,6 +145,9 @@ func (db *SimpleCollection) FindOne(ctx context.Context, filter bson.D, projecti
 	if verbose {
 		fmt.Printf("---- FindOne\n%v\n", query)
 	}
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
+
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -168,6 +178,9 @@ func (db *SimpleCollection) FindMany(ctx context.Context, filter bson.D, project
 	if verbose {
 		fmt.Printf("---- FindMany\n%v\n", query)
 	}
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
+
 	cursor := &SimpleCursor{}
 	for _, item := range db.items {
 		if query.Apply(item) {
@@ -189,6 +202,9 @@ func (db *SimpleCollection) DeleteOne(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+
 	for i, item := range db.items {
 		if query.Apply(item) {
 			db.items = append(db.items[:i], db.items[i+1:]...)
@@ -203,6 +219,9 @@ func (db *SimpleCollection) DeleteMany(ctx context.Context, filter bson.D) error
 	if err != nil {
 		return err
 	}
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+
 	copyrangebegin := 0
 	newitems := make([]bson.D, 0, len(db.items))
 	for i, item := range db.items {
@@ -235,12 +254,15 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 		fmt.Printf("---- UpdateOne\n%v\n%v\n", filter, update)
 	}
 
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("MATCH: %v\n", db.items[i])
 			}
-			return 1, updateOp.Apply(&db.items[i])
+			return 1, db.update(i, updateOp)
 		} else {
 			if verbose {
 				fmt.Printf("      %v\n", db.items[i])
@@ -250,6 +272,19 @@ func (db *SimpleCollection) UpdateOne(ctx context.Context, filter bson.D, update
 	return 0, nil
 }
 
+// Updates the item at index i; leaves the item as it was if the update fails
+func (db *SimpleCollection) update(i int, updateOp query.Update) error {
+	item, err := toBson(db.items[i])
+	if err != nil {
+		return err
+	}
+	if err := updateOp.Apply(&item); err != nil {
+		return err
+	}
+	db.items[i] = item
+	return nil
+}
+
 func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, update bson.D) (int, error) {
 	filterOp, err := query.ParseFilter(filter)
 	if err != nil {
@@ -265,13 +300,16 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 		fmt.Printf(" UPDATE: %v\n", updateOp)
 	}
 
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+
 	updated := 0
 	for i := range db.items {
 		if filterOp.Apply(db.items[i]) {
 			if verbose {
 				fmt.Printf("UPDATING: %v\n", db.items[i])
 			}
-			err := updateOp.Apply(&db.items[i])
+			err := db.update(i, updateOp)
 			if err != nil {
 				return updated, err
 			}
@@ -289,11 +327,19 @@ func (db *SimpleCollection) UpdateMany(ctx context.Context, filter bson.D, updat
 }
 
 func (db *SimpleCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	updatedCount, err := db.ReplaceOne(ctx, filter, document)
+	d, err := toBson(document)
+	if err != nil {
+		return false, err
+	}
+
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	updatedCount, err := db.replace(filter, d)
 	if updatedCount == 1 || err != nil {
-		return true, err
+		return updatedCount == 1, err
 	}
-	return false, db.InsertOne(ctx, document)
+	db.items = append(db.items, ensureID(d))
+	return false, nil
 }
 
 func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID, document interface{}) (bool, error) {
@@ -306,37 +352,62 @@ func (db *SimpleCollection) UpsertID(ctx context.Context, id primitive.ObjectID,
 }
 
 func (db *SimpleCollection) ReplaceOne(ctx context.Context, filter bson.D, replacement interface{}) (int, error) {
-	query, err := query.ParseFilter(filter)
+	d, err := toBson(replacement)
 	if err != nil {
 		return 0, err
 	}
-	for i, item := range db.items {
-		if query.Apply(item) {
-			db.items[i], err = toBson(replacement)
-			return 1, err
+
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	return db.replace(filter, d)
+}
+
+func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
+	var ds []bson.D
+	for _, replacement := range replacements {
+		d, err := toBson(replacement)
+		if err != nil {
+			return 0, err
 		}
+		ds = append(ds, d)
 	}
-	return 0, nil
+
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	return db.replace(filter, ds...)
 }
 
-func (db *SimpleCollection) ReplaceMany(ctx context.Context, filter bson.D, replacements ...interface{}) (int, error) {
+// Replaces documents that match filter, in order, until there are no replacements left
+func (db *SimpleCollection) replace(filter bson.D, replacements ...bson.D) (int, error) {
 	query, err := query.ParseFilter(filter)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	updateCount := 0
 	for i := 0; updateCount < len(replacements) && i < len(db.items); i++ {
 		if query.Apply(db.items[i]) {
-			db.items[i], err = toBson(replacements[updateCount])
-			if err != nil {
-				return updateCount, err
-			}
+			db.items[i] = replacementFor(db.items[i], replacements[updateCount])
 			updateCount++
 		}
 	}
 	return updateCount, nil
 }
 
+// A replacement that doesn't have an _id keeps the _id of the document that it replaces
+func replacementFor(item bson.D, replacement bson.D) bson.D {
+	for _, e := range replacement {
+		if e.Key == "_id" {
+			return replacement
+		}
+	}
+	for _, e := range item {
+		if e.Key == "_id" {
+			return append(bson.D{e}, replacement...)
+		}
+	}
+	return replacement
+}
+
 func toBson(document any) (bson.D, error) {
 	bytes, err := bson.Marshal(document)
 	if err != nil {
@@ -356,6 +427,9 @@ func fromBson(d bson.D, dst any) error {
 }
 
 func (db *SimpleCollection) String() string {
+	db.mutex.RLock()
+	defer db.mutex.RUnlock()
+
 	var strs []string
 	for i := range db.items {
 		strs = append(strs, fmt.Sprintf("%v", db.items[i]))
-- 
2.43.0


From de9c33494a770e23afd42e1195e229bf4de88e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 11/44] fix: failing to build the server side of a pointer is
 silently ignored

---
 blueprint/pkg/coreplugins/pointer/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/pkg/coreplugins/pointer/pointer.go b/blueprint/pkg/coreplugins/pointer/pointer.go
index f5e0ec3..14a7725 100644
--- a/blueprint/pkg/coreplugins/pointer/pointer.go
+++ b/blueprint/pkg/coreplugins/pointer/pointer.go
@@ -243,7 +243,7 @@ func (ptr *PointerDef) InstantiateDst(namespace wiring.Namespace) error {
 
 	// Getting the first dst modifier should cause all of the dst side of the pointer to be instantiated
 	var dst ir.IRNode
-	if namespace.Instantiate(ptr.dstModifiers[0], &dst) != nil {
+	if err := namespace.Instantiate(ptr.dstModifiers[0], &dst); err != nil {
 		return err
 	}
 
-- 
2.43.0


From f3e130a798c1b388c95ea2057cf8b6f36215895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 12/44] fix: workload generator rejects its own process node

---
 plugins/workload/wiring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/workload/wiring.go b/plugins/workload/wiring.go
index 6cf80a8..cb6afc5 100644
--- a/plugins/workload/wiring.go
+++ b/plugins/workload/wiring.go
@@ -158,8 +158,8 @@ func (w *wlgen) AddNode(name string, node ir.IRNode) error {
 	proc, isProcNode := node.(*goproc.Process)
 	if !isProcNode {
 		return blueprint.Errorf("Unexpected node %v = %v", name, node)
-	} else if proc.InstanceName != w.WorkloadName {
-		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.WorkloadName)
+	} else if proc.InstanceName != w.ProcName {
+		return blueprint.Errorf("Unexpected process %v != %v", proc.InstanceName, w.ProcName)
 	} else if w.ProcNode != nil {
 		return blueprint.Errorf("Unexpected duplicate workload proc %v", node)
 	} else {
-- 
2.43.0


From 83bf4491e9b4d65d3d3ea10178694a19cfa9ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 13/44] fix: namespaces ignore errors of their handlers, lose
 edges and recurse forever on cyclic definitions

---
 blueprint/pkg/wiring/application.go |  2 ++
 blueprint/pkg/wiring/namespace.go   | 55 +++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/blueprint/pkg/wiring/application.go b/blueprint/pkg/wiring/application.go
index 758738e..092d007 100644
--- a/blueprint/pkg/wiring/application.go
+++ b/blueprint/pkg/wiring/application.go
@@ -28,6 +28,8 @@ func BuildApplicationIR(spec WiringSpec, name string, nodesToInstantiate ...stri
 		Seen:            make(map[string]ir.IRNode),
 		Added:           make(map[string]any),
 		ChildNamespaces: make(map[string]Namespace),
+		instantiated:    make(map[string]bool),
+		building:        make(map[string]bool),
 	}
 
 	// If no nodes were specified, then instead we will instantiate all defined nodes
diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index d238be9..2749b0d 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -106,6 +106,9 @@ type namespaceimpl struct {
 	Deferred        []func() error       // Deferred functions to execute
 	ChildNamespaces map[string]Namespace // Child namespaces
 
+	instantiated map[string]bool // Nodes in Seen that have only been gotten with [Instantiate] so far
+	building     map[string]bool // Names of nodes currently being built
+
 	stack []*WiringDef // Used when building; the stack of wiring defs currently being built
 }
 
@@ -154,7 +157,11 @@ func (namespace *namespaceimpl) lookupDef(name string) (*WiringDef, error) {
 func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	// If it already exists, return it
 	if node, ok := namespace.Seen[name]; ok {
-		return copyResult(node, dst)
+		if !addEdge || !namespace.instantiated[name] {
+			return copyResult(node, dst)
+		}
+		// The node exists, but so far only because of [Instantiate]; it still needs an edge
+		delete(namespace.instantiated, name)
 	}
 
 	// Look up the definition
@@ -173,11 +180,10 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	if def.Name != name {
 		namespace.Info("Resolved %s to %s", name, def.Name)
 		var node ir.IRNode
-		err := namespace.get(def.Name, addEdge, &node)
-		namespace.Seen[name] = node
-		if err != nil {
+		if err := namespace.get(def.Name, addEdge, &node); err != nil {
 			return err
 		}
+		namespace.seen(name, node, addEdge)
 		return copyResult(node, dst)
 	}
 
@@ -196,14 +202,16 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
-		if _, already_added := namespace.Added[node.Name()]; !already_added {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && addEdge && !def.Options.ProxyNode {
+		if _, already_added := namespace.Added[node.Name()]; !already_added && addEdge {
+			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && !def.Options.ProxyNode {
 				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
-				namespace.Handler.AddEdge(name, node)
+				if err := namespace.Handler.AddEdge(name, node); err != nil {
+					return err
+				}
 			}
 			namespace.Added[node.Name()] = true
 		}
-		namespace.Seen[name] = node
+		namespace.seen(name, node, addEdge)
 		return copyResult(node, dst)
 	}
 
@@ -214,7 +222,12 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	}
 
 	// Build the node
+	if namespace.building[name] {
+		return namespace.Error("%s depends on itself", name)
+	}
+	namespace.building[name] = true
 	node, err := def.Build(namespace)
+	delete(namespace.building, name)
 	if err != nil {
 		namespace.Error("Unable to build %v: %s", name, err.Error())
 		return err
@@ -222,7 +235,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 
 	if _, already_added := namespace.Added[node.Name()]; !already_added {
 		if !def.Options.ProxyNode {
-			namespace.Handler.AddNode(name, node)
+			if err := namespace.Handler.AddNode(name, node); err != nil {
+				return err
+			}
 		}
 		namespace.Added[node.Name()] = true
 	}
@@ -231,27 +246,37 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 	return copyResult(node, dst)
 }
 
+// Remembers a node that was gotten from this namespace.  If addEdge is false, then the namespace
+// does not have an edge to the node yet
+func (namespace *namespaceimpl) seen(name string, node ir.IRNode, addEdge bool) {
+	namespace.Seen[name] = node
+	if !addEdge {
+		namespace.instantiated[name] = true
+	}
+}
+
 // Implements [Namespace]
 func (namespace *namespaceimpl) Put(name string, node ir.IRNode) error {
 	namespace.Seen[name] = node
 
 	if namespace.Handler.Accepts(node) {
-		namespace.Handler.AddNode(name, node)
+		if err := namespace.Handler.AddNode(name, node); err != nil {
+			return err
+		}
 		namespace.Info("%s of type %s added to namespace", name, reflect.TypeOf(node).Elem().Name())
 		return nil
 	}
 
-	if namespace.ParentNamespace != nil {
+	if namespace.ParentNamespace == nil {
 		return namespace.Error("%s of type %s does not belong in this namespace, but cannot push to parent namespace because no parent namespace exists", name, reflect.TypeOf(node).Elem().Name())
 	}
 
-	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace)
+	namespace.Info("%s of type %s does not belong in this namespace; pushing to parent namespace %s", name, reflect.TypeOf(node).Elem().Name(), namespace.ParentNamespace.Name())
 	err := namespace.ParentNamespace.Put(name, node)
 	if err != nil {
 		return err
 	}
-	namespace.Handler.AddEdge(name, node)
-	return err
+	return namespace.Handler.AddEdge(name, node)
 }
 
 // Implements [Namespace]
@@ -304,6 +329,8 @@ func (namespace *namespaceimpl) DeriveNamespace(name string, handler NamespaceHa
 		Seen:            make(map[string]ir.IRNode),
 		Added:           make(map[string]any),
 		ChildNamespaces: make(map[string]Namespace),
+		instantiated:    make(map[string]bool),
+		building:        make(map[string]bool),
 	}
 	namespace.ChildNamespaces[name] = child
 	namespace.Info("Created child namespace %v", name)
-- 
2.43.0


From cb494ac9b99f677dac8390f09d4c8dc319d48664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 14/44] fix: wiring spec errors are never reported, names with
 only properties or cyclic aliases crash or hang the compiler

---
 blueprint/pkg/wiring/namespace.go |  4 ++--
 blueprint/pkg/wiring/wiring.go    | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 2749b0d..2288d82 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -148,7 +148,7 @@ func (namespace *namespaceimpl) Get(name string, dst any) error {
 
 func (namespace *namespaceimpl) lookupDef(name string) (*WiringDef, error) {
 	def := namespace.Wiring.GetDef(name)
-	if def == nil {
+	if def == nil || !def.isDefined() {
 		return nil, blueprint.Errorf("%s does not exist in the wiring spec of namespace %s", name, namespace.NamespaceName)
 	}
 	return def, nil
@@ -378,5 +378,5 @@ func (namespace *namespaceimpl) Error(message string, args ...any) error {
 	} else {
 		slog.Error(fmt.Sprintf("%s %s: %s", namespace.NamespaceType, namespace.Name(), formattedMessage))
 	}
-	return blueprint.Errorf(formattedMessage)
+	return blueprint.Errorf("%s", formattedMessage)
 }
diff --git a/blueprint/pkg/wiring/wiring.go b/blueprint/pkg/wiring/wiring.go
index b654a4d..198dfa2 100644
--- a/blueprint/pkg/wiring/wiring.go
+++ b/blueprint/pkg/wiring/wiring.go
@@ -104,6 +104,11 @@ func NewWiringSpec(name string) WiringSpec {
 	return &spec
 }
 
+// Setting a property of a name that hasn't been defined (yet) creates a def that only has properties
+func (def *WiringDef) isDefined() bool {
+	return def.Build != nil
+}
+
 func (def *WiringDef) AddProperty(key string, value any) {
 	def.Properties[key] = append(def.Properties[key], value)
 }
@@ -132,7 +137,9 @@ func (def *WiringDef) String() string {
 	var b strings.Builder
 	b.WriteString(def.Name)
 	b.WriteString(" = ")
-	b.WriteString(reflect.TypeOf(def.NodeType).Elem().Name())
+	if def.isDefined() {
+		b.WriteString(reflect.TypeOf(def.NodeType).Elem().Name())
+	}
 	b.WriteString("(")
 	var propStrings []string
 	for propKey, values := range def.Properties {
@@ -150,7 +157,8 @@ func (def *WiringDef) String() string {
 }
 
 func (spec *wiringSpecImpl) resolveAlias(alias string) string {
-	for {
+	// Aliases that form a cycle don't point to any def; there are at most len(aliases) hops otherwise
+	for hops := 0; hops <= len(spec.aliases); hops++ {
 		name, is_alias := spec.aliases[alias]
 		if is_alias {
 			alias = name
@@ -158,6 +166,7 @@ func (spec *wiringSpecImpl) resolveAlias(alias string) string {
 			return alias
 		}
 	}
+	return alias
 }
 
 func (spec *wiringSpecImpl) getDef(name string, createIfAbsent bool) *WiringDef {
@@ -198,8 +207,10 @@ func (spec *wiringSpecImpl) GetDef(name string) *WiringDef {
 
 func (spec *wiringSpecImpl) Defs() []string {
 	defs := make([]string, 0, len(spec.defs))
-	for name := range spec.defs {
-		defs = append(defs, name)
+	for name, def := range spec.defs {
+		if def.isDefined() {
+			defs = append(defs, name)
+		}
 	}
 	return defs
 }
@@ -288,5 +299,8 @@ func (spec *wiringSpecImpl) Err() error {
 }
 
 func (spec *wiringSpecImpl) BuildIR(nodesToInstantiate ...string) (*ir.ApplicationNode, error) {
+	if err := spec.Err(); err != nil {
+		return nil, err
+	}
 	return BuildApplicationIR(spec, spec.name, nodesToInstantiate...)
 }
-- 
2.43.0


From 7867b32922d719f1926073c36b0bf54aada1daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 15/44] fix: spaces in names end up in environment variable and
 function names

---
 blueprint/pkg/blueprint/stringutil/name.go | 2 +-
 runtime/plugins/golang/namespace.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/blueprint/stringutil/name.go b/blueprint/pkg/blueprint/stringutil/name.go
index 0671dc2..c488ba9 100644
--- a/blueprint/pkg/blueprint/stringutil/name.go
+++ b/blueprint/pkg/blueprint/stringutil/name.go
@@ -13,7 +13,7 @@ func Capitalize(s string) string {
 	return string(append([]rune{unicode.ToUpper(r[0])}, r[1:]...))
 }
 
-var r = regexp.MustCompile(`[^a-zA-Z0-9 ]+`)
+var r = regexp.MustCompile(`[^a-zA-Z0-9]+`)
 
 // Returns name with only alphanumeric characters and all other
 // symbols converted to underscores.
diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index 5c00433..d619424 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -155,7 +155,7 @@ func EnvVar(name string) string {
 	return strings.ToUpper(cleanName(name))
 }
 
-var r = regexp.MustCompile(`[^a-zA-Z0-9 ]+`)
+var r = regexp.MustCompile(`[^a-zA-Z0-9]+`)
 
 // Returns name with only alphanumeric characters and all other
 // symbols converted to underscores.
-- 
2.43.0


From c06b65c42d3c0c29b66c01347458ecda15823cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 16/44] fix: port assignment wraps around to port 0 and never
 ends when ports run out

---
 blueprint/pkg/coreplugins/address/portassignment.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blueprint/pkg/coreplugins/address/portassignment.go b/blueprint/pkg/coreplugins/address/portassignment.go
index 5b02750..650951b 100644
--- a/blueprint/pkg/coreplugins/address/portassignment.go
+++ b/blueprint/pkg/coreplugins/address/portassignment.go
@@ -1,6 +1,8 @@
 package address
 
 import (
+	"math"
+
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
 )
@@ -75,7 +77,14 @@ func AssignPorts(binds []*BindConfig) (preassigned []*BindConfig, assigned []*Bi
 				ports[addr.Port] = addr
 				break
 			}
+			if len(ports) == math.MaxUint16 {
+				err = blueprint.Errorf("no port left to assign to %v", addr.Name())
+				return
+			}
 			candidatePort++
+			if candidatePort == 0 {
+				candidatePort = 1 // Port 0 is not a valid port
+			}
 		}
 	}
 
-- 
2.43.0


From 423e73effdea66fbe68470c7c623df3dcfd382b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 17/44] fix: regenerating a file leaves the end of the previous
 one behind

---
 plugins/dockercompose/dockergen/template.go | 2 +-
 plugins/golang/gogen/template.go            | 2 +-
 plugins/grpc/grpccodegen/marshallgen.go     | 2 +-
 plugins/grpc/grpccodegen/protogen.go        | 2 +-
 plugins/kubernetes/kubetemplate/template.go | 2 +-
 plugins/linuxcontainer/linuxgen/template.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 679884a..33626a8 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/golang/gogen/template.go b/plugins/golang/gogen/template.go
index 842e23c..7148443 100644
--- a/plugins/golang/gogen/template.go
+++ b/plugins/golang/gogen/template.go
@@ -44,7 +44,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 //
 // [gogen/template.go]: https://github.com/Blueprint-uServices/blueprint/tree/main/plugins/golang/gogen/template.go
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 118e037..5e7261c 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -97,7 +97,7 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index b359fa0..f56aa02 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -181,7 +181,7 @@ func (b *gRPCProtoBuilder) WriteProtoFile(outputFilePath string) error {
 		return err
 	}
 
-	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(outputFilePath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index d3fcd2e..c45352e 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -14,7 +14,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 650080d..5ce874c 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -19,7 +19,7 @@ func ExecuteTemplate(name string, body string, args any) (string, error) {
 }
 
 func ExecuteTemplateToFile(name string, body string, args any, filename string) error {
-	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR, 0755)
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2963686df88c1f3db87723c19afbcdb72ba24145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 18/44] fix: docker-compose files with volumes, commands or
 custom configuration are not valid YAML, expose is lost without ports

---
 .../dockercompose/dockergen/dockercompose.go  | 38 ++++++++++---------
 plugins/dockercompose/dockergen/template.go   |  7 ++++
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/plugins/dockercompose/dockergen/dockercompose.go b/plugins/dockercompose/dockergen/dockercompose.go
index 420c5a0..07538af 100644
--- a/plugins/dockercompose/dockergen/dockercompose.go
+++ b/plugins/dockercompose/dockergen/dockercompose.go
@@ -195,37 +195,39 @@ services:
       dockerfile: ./Dockerfile
     {{- end}}
     hostname: {{.InstanceName}}
-    {{- if .Ports}}
+    {{- if .Expose}}
     expose:
     {{- range $internal, $_ := .Expose}}
      - "{{$internal}}"
     {{- end}}
+    {{- end}}
+    {{- if .Ports}}
     ports:
     {{- range $external, $internal := .Ports}}
-     - "{{$external}}:{{$internal}}"
+     - {{Quote (printf "%v:%v" $external $internal)}}
     {{- end}}
     {{- end}}
     {{- if .Config}}
     environment:
     {{- range $name, $value := .Config}}
-     - {{$name}}={{$value}}
+     - {{Quote (printf "%v=%v" $name $value)}}
+    {{- end}}
+    {{- end}}
+    {{- if .Volumes}}
+    volumes:
+    {{- range $name, $value := .Volumes}}
+     - {{Quote (printf "%v:%v" $name $value)}}
+    {{- end}}
+    {{- end}}
+    {{- if .CustomCommand}}
+    command:
+    {{- range $_, $val := .CustomCommand}}
+     - {{Quote $val}}
+    {{- end}}
     {{- end}}
+    {{- range $key, $val := .CustomConf}}
+    {{$key}}: {{$val}}
     {{- end}}
-	{{- if .Volumes}}
-	volumes:
-	{{- range $name, $value := .Volumes}}
-	 - {{$name}}:{{$value}}
-	{{- end}}
-	{{- end}}
-	{{- if .CustomCommand}}
-	command:
-	{{- range $_, $val := .CustomCommand}}
-	 - {{$val}}
-	{{- end}}
-	{{- end}}
-	{{- range $key, $val := .CustomConf}}
-	{{$key}}: {{$val}}
-	{{- end}}
     restart: always
 {{end}}
 `
diff --git a/plugins/dockercompose/dockergen/template.go b/plugins/dockercompose/dockergen/template.go
index 33626a8..4d1cf4a 100644
--- a/plugins/dockercompose/dockergen/template.go
+++ b/plugins/dockercompose/dockergen/template.go
@@ -3,6 +3,7 @@ package dockergen
 import (
 	"bytes"
 	"os"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -44,6 +45,7 @@ func newTemplateExecutor(args any) *templateExecutor {
 
 	e.Funcs["EnvVarName"] = e.EnvVarName
 	e.Funcs["Title"] = e.TitleCase
+	e.Funcs["Quote"] = e.Quote
 
 	return e
 }
@@ -62,6 +64,11 @@ func (e *templateExecutor) EnvVarName(name string) (string, error) {
 	return linux.EnvVar(name), nil
 }
 
+// Returns arg as a double-quoted YAML string
+func (e *templateExecutor) Quote(arg string) (string, error) {
+	return strconv.Quote(arg), nil
+}
+
 func (e *templateExecutor) TitleCase(arg string) (string, error) {
 	return strings.Title(arg), nil
 }
-- 
2.43.0


From 5ef9f3c69aa5ef23247ecf6597fed69baaf66d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 19/44] fix: kubernetes manifests html-escape and mis-quote
 values and drop config map entries of containers without other variables

---
 plugins/kubernetes/kubepod/deploygen/deployfile.go | 4 ++--
 plugins/kubernetes/kubetemplate/template.go        | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/plugins/kubernetes/kubepod/deploygen/deployfile.go b/plugins/kubernetes/kubepod/deploygen/deployfile.go
index 776ec08..b597335 100644
--- a/plugins/kubernetes/kubepod/deploygen/deployfile.go
+++ b/plugins/kubernetes/kubepod/deploygen/deployfile.go
@@ -169,11 +169,11 @@ spec:
         - name: {{KubernetesName .InstanceName}}
           image: {{.Image}}
           imagePullPolicy: Always
-          {{- if .Config}}
+          {{- if or .Config .ConfigMap}}
           env:
           {{- range $name, $value := .Config}}
             - name: {{$name}}
-              value: "{{$value}}"
+              value: {{Quote $value}}
           {{- end}}
           {{- range $name, $_ := .ConfigMap}}
             - name: {{$name}}
diff --git a/plugins/kubernetes/kubetemplate/template.go b/plugins/kubernetes/kubetemplate/template.go
index c45352e..19e085a 100644
--- a/plugins/kubernetes/kubetemplate/template.go
+++ b/plugins/kubernetes/kubetemplate/template.go
@@ -2,9 +2,10 @@ package kubetemplate
 
 import (
 	"bytes"
-	"html/template"
 	"os"
+	"strconv"
 	"strings"
+	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/plugins/linux"
 )
@@ -40,6 +41,7 @@ func newTemplateExecutor(args any) *templateExecutor {
 	e.Funcs["EnvVarName"] = e.EnvVarName
 	e.Funcs["Title"] = e.TitleCase
 	e.Funcs["KubernetesName"] = e.KubernetesName
+	e.Funcs["Quote"] = e.Quote
 
 	return e
 }
@@ -58,6 +60,11 @@ func (e *templateExecutor) EnvVarName(name string) (string, error) {
 	return linux.EnvVar(name), nil
 }
 
+// Returns arg as a double-quoted YAML string
+func (e *templateExecutor) Quote(arg string) (string, error) {
+	return strconv.Quote(arg), nil
+}
+
 func (e *templateExecutor) TitleCase(arg string) (string, error) {
 	return strings.Title(arg), nil
 }
-- 
2.43.0


From 5a3c70809937de570e55505e1f70ddb5d24ae216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 20/44] fix: generated scripts run processes twice, from the
 wrong directory and after failed dependencies

---
 plugins/goproc/linuxgen/goproc_runfunc.go   |  4 ++--
 plugins/linuxcontainer/linuxgen/build.sh.go | 15 +++++++++++----
 plugins/linuxcontainer/linuxgen/run.sh.go   |  5 ++++-
 plugins/linuxcontainer/linuxgen/runfunc.go  |  5 +++--
 plugins/linuxcontainer/linuxgen/template.go |  4 +---
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/plugins/goproc/linuxgen/goproc_runfunc.go b/plugins/goproc/linuxgen/goproc_runfunc.go
index 507c569..e860bfb 100644
--- a/plugins/goproc/linuxgen/goproc_runfunc.go
+++ b/plugins/goproc/linuxgen/goproc_runfunc.go
@@ -38,7 +38,7 @@ var binaryRunFuncTemplate = `
 run_{{RunFuncName .Name}} {
 	cd {{.Name}}
     ./{{.Name}}
-	{{- range $i, $arg := .Args}} --{{$arg.Name}}=${{EnvVarName $arg.Name}}{{end}} &
+	{{- range $i, $arg := .Args}} "--{{$arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
@@ -48,7 +48,7 @@ run_{{RunFuncName .Name}} {
 	export CGO_ENABLED=1
 	cd {{.Name}}/{{.Name}}
 	go run .
-	{{- range $i, $arg := .Args}} --{{$arg.Name}}=${{EnvVarName $arg.Name}}{{end}} &
+	{{- range $i, $arg := .Args}} "--{{$arg.Name}}=${{EnvVarName $arg.Name}}"{{end}} &
 	{{EnvVarName .Name}}=$!
 	return $?
 }`
diff --git a/plugins/linuxcontainer/linuxgen/build.sh.go b/plugins/linuxcontainer/linuxgen/build.sh.go
index fdacccc..16c36b5 100644
--- a/plugins/linuxcontainer/linuxgen/build.sh.go
+++ b/plugins/linuxcontainer/linuxgen/build.sh.go
@@ -52,10 +52,17 @@ func (d *BuildScript) Add(filePath string) error {
 	if err != nil {
 		return blueprint.Errorf("invalid build script path %v", filePath)
 	}
-	pathInWorkspace, err := filepath.Rel(d.WorkspaceDir, filepath.Clean(filePath))
+	workspaceDir, err := filepath.Abs(d.WorkspaceDir)
+	if err != nil {
+		return blueprint.Errorf("invalid workspace path %v", d.WorkspaceDir)
+	}
+	pathInWorkspace, err := filepath.Rel(workspaceDir, filePath)
 	if err != nil {
 		return blueprint.Errorf("workspace build.sh only supports build scripts located within the workspace; got %v which does not reside in %v; error: %v", filePath, d.WorkspaceDir, err.Error())
 	}
+	if !filepath.IsLocal(pathInWorkspace) {
+		return blueprint.Errorf("workspace build.sh only supports build scripts located within the workspace; got %v which does not reside in %v", filePath, d.WorkspaceDir)
+	}
 
 	dirInWorkspace, fileName := filepath.Split(pathInWorkspace)
 
@@ -76,9 +83,9 @@ var buildScriptTemplate = `#!/bin/bash
 
 {{range $name, $script := .Scripts}}
 echo "Executing {{.PathInWorkspace}}"
-cd {{.DirInWorkspace}}
-chmod +x {{.FileName}}
-./{{.FileName}}
+cd "{{.DirInWorkspace}}"
+chmod +x "{{.FileName}}"
+"./{{.FileName}}"
 cd -
 {{end}}
 `
diff --git a/plugins/linuxcontainer/linuxgen/run.sh.go b/plugins/linuxcontainer/linuxgen/run.sh.go
index 0f656ba..1910d30 100644
--- a/plugins/linuxcontainer/linuxgen/run.sh.go
+++ b/plugins/linuxcontainer/linuxgen/run.sh.go
@@ -130,7 +130,10 @@ run_all() {
 	fi
 
 	{{range $name, $f := .RunFuncs -}}
-	{{RunFuncName $name}}
+	# Might already have been started as a dependency of another process
+	if [ -z "${ {{- EnvVarName $name}}+x}" ]; then
+		{{RunFuncName $name}}
+	fi
 	{{end}}
 	wait
 }
diff --git a/plugins/linuxcontainer/linuxgen/runfunc.go b/plugins/linuxcontainer/linuxgen/runfunc.go
index 3180c60..52b491c 100644
--- a/plugins/linuxcontainer/linuxgen/runfunc.go
+++ b/plugins/linuxcontainer/linuxgen/runfunc.go
@@ -50,13 +50,14 @@ type runFuncTemplateArgs struct {
 }
 
 var runFuncTemplate = `{{RunFuncName .Name}}() {
-	cd $WORKSPACE_DIR
-	
 	{{ range $i, $dep := .Dependencies -}}
 	{{Get $dep.Name}}
 
 	{{end -}}
 
+	# Starting the dependencies might have changed the working directory
+	cd "$WORKSPACE_DIR"
+
 	run_{{RunFuncName .Name}}() {
 		{{.RunFuncBody}}
 	}
diff --git a/plugins/linuxcontainer/linuxgen/template.go b/plugins/linuxcontainer/linuxgen/template.go
index 5ce874c..0dcbb17 100644
--- a/plugins/linuxcontainer/linuxgen/template.go
+++ b/plugins/linuxcontainer/linuxgen/template.go
@@ -62,9 +62,7 @@ func (e *templateExecutor) exec(name string, body string, args any) (string, err
 
 func (e *templateExecutor) Get(name string) (string, error) {
 	tmpl := `if [ -z "${ {{- EnvVarName .}}+x}" ]; then
-		if ! {{RunFuncName .}}; then
-			return $?
-		fi
+		{{RunFuncName .}} || return $?
 	fi`
 	return e.exec("Get", tmpl, name)
 }
-- 
2.43.0


From d3c7e93c1c49d00bfec1b8c8a6f4f1c985ea24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 21/44] fix: environment ports wrap around to 0

---
 plugins/environment/wiring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/environment/wiring.go b/plugins/environment/wiring.go
index f298cdb..83749a7 100644
--- a/plugins/environment/wiring.go
+++ b/plugins/environment/wiring.go
@@ -121,6 +121,9 @@ func matchDialsToBinds(nodes []ir.IRNode) map[string]*addrconfig {
 // Generates a .env file to outputDir
 func generateEnvFiles(outputDir string, nodes []ir.IRNode, port uint16) error {
 	addrs := matchDialsToBinds(nodes)
+	if int(port)+len(addrs) > 1<<16 {
+		return fmt.Errorf("cannot assign ports to %v addresses starting from port %v", len(addrs), port)
+	}
 
 	if err := generateEnv(filepath.Join(outputDir, ".local.env"), addrs, port, true); err != nil {
 		return err
-- 
2.43.0


From 539a02f84884b76bab9be25904707e3aa0a2df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 22/44] fix: an edge to a node is lost when the node was first
 reached through a proxy

---
 blueprint/pkg/wiring/namespace.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/blueprint/pkg/wiring/namespace.go b/blueprint/pkg/wiring/namespace.go
index 2288d82..720ded8 100644
--- a/blueprint/pkg/wiring/namespace.go
+++ b/blueprint/pkg/wiring/namespace.go
@@ -202,8 +202,8 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		if err != nil {
 			return err
 		}
-		if _, already_added := namespace.Added[node.Name()]; !already_added && addEdge {
-			if _, is_metadata := node.(ir.IRMetadata); !is_metadata && !def.Options.ProxyNode {
+		if _, already_added := namespace.Added[node.Name()]; !already_added && addEdge && !def.Options.ProxyNode {
+			if _, is_metadata := node.(ir.IRMetadata); !is_metadata {
 				// Don't bother adding edges for metadata or proxy nodes, or instantiate (vs get) nodes
 				if err := namespace.Handler.AddEdge(name, node); err != nil {
 					return err
@@ -233,11 +233,9 @@ func (namespace *namespaceimpl) get(name string, addEdge bool, dst any) error {
 		return err
 	}
 
-	if _, already_added := namespace.Added[node.Name()]; !already_added {
-		if !def.Options.ProxyNode {
-			if err := namespace.Handler.AddNode(name, node); err != nil {
-				return err
-			}
+	if _, already_added := namespace.Added[node.Name()]; !already_added && !def.Options.ProxyNode {
+		if err := namespace.Handler.AddNode(name, node); err != nil {
+			return err
 		}
 		namespace.Added[node.Name()] = true
 	}
-- 
2.43.0


From 85374f5f6850b576e5f7ebce354cdaa8ba9e9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 23/44] fix: the Go parser misreads or rejects valid workflow
 code

Files excluded by build constraints or belonging to nested modules were parsed; grouped fields and
variables, methods of non-struct types, generic receivers, functions and types, arrays, shadowed
predeclared names, parenthesised types and imports whose name differs from the path were lost or
misread; embedded interfaces aborted the parse; errors while loading were swallowed.
---
 plugins/golang/gocode/typename.go    |  65 +++--
 plugins/golang/goparser/moduleset.go |  15 +-
 plugins/golang/goparser/parser.go    | 379 +++++++++++++++++++++------
 3 files changed, 355 insertions(+), 104 deletions(-)

diff --git a/plugins/golang/gocode/typename.go b/plugins/golang/gocode/typename.go
index bd352c6..9a16e73 100644
--- a/plugins/golang/gocode/typename.go
+++ b/plugins/golang/gocode/typename.go
@@ -3,6 +3,7 @@ package gocode
 import (
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -41,7 +42,7 @@ func initBasics() {
 		"bool",
 		"string",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64",
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
 		"byte",
 		"rune",
 		"float32", "float64",
@@ -79,9 +80,12 @@ func NameOf[T any]() string {
 
 // converts a reflect.type into the janky typename stuff we have here
 func typeof(t reflect.Type) TypeName {
+	if t.Name() != "" && t.PkgPath() != "" {
+		return &UserType{Package: t.PkgPath(), Name: t.Name()}
+	}
 	switch t.Kind() {
 	case reflect.Array:
-		return &Slice{SliceOf: typeof(t.Elem())}
+		return &Array{Length: strconv.Itoa(t.Len()), ArrayOf: typeof(t.Elem())}
 	case reflect.Chan:
 		{
 			switch t.ChanDir() {
@@ -97,11 +101,10 @@ func typeof(t reflect.Type) TypeName {
 		return &FuncType{}
 	case reflect.Interface:
 		if t.Name() == "" {
+			if t.NumMethod() == 0 {
+				return &AnyType{}
+			}
 			return &InterfaceType{}
-		} else if t.PkgPath() == "" {
-			return &BasicType{Name: t.Name()}
-		} else {
-			return &UserType{Package: t.PkgPath(), Name: t.Name()}
 		}
 	case reflect.Map:
 		return &Map{KeyType: typeof(t.Key()), ValueType: typeof(t.Elem())}
@@ -112,18 +115,10 @@ func typeof(t reflect.Type) TypeName {
 	case reflect.Struct:
 		if t.Name() == "" {
 			return &StructType{}
-		} else if t.PkgPath() == "" {
-			return &BasicType{Name: t.Name()}
-		} else {
-			return &UserType{Package: t.PkgPath(), Name: t.Name()}
 		}
 	}
 
-	if t.PkgPath() == "" {
-		return &BasicType{Name: t.Name()}
-	} else {
-		return &UserType{Package: t.PkgPath(), Name: t.Name()}
-	}
+	return &BasicType{Name: t.Name()}
 }
 
 // Structs representing the different kinds of TypeName that you can have in Go
@@ -150,13 +145,22 @@ type (
 	}
 
 	/*
-		A slice or fixed-size array, e.g. []byte
+		A slice, e.g. []byte
 	*/
 	Slice struct {
 		TypeName
 		SliceOf TypeName // Slice of TypeName
 	}
 
+	/*
+		A fixed-size array, e.g. [16]byte
+	*/
+	Array struct {
+		TypeName
+		Length  string   // Length of the array
+		ArrayOf TypeName // Array of TypeName
+	}
+
 	/*
 		Ellipsis type used in function arguments, e.g. ...string
 	*/
@@ -275,6 +279,10 @@ func (t *Slice) String() string {
 	return fmt.Sprintf("[]%s", t.SliceOf)
 }
 
+func (t *Array) String() string {
+	return fmt.Sprintf("[%s]%s", t.Length, t.ArrayOf)
+}
+
 func (t *Ellipsis) String() string {
 	return fmt.Sprintf("...%s", t.EllipsisOf)
 }
@@ -326,6 +334,7 @@ func (t *GenericTypeParam) String() string {
 func (t *BasicType) IsTypeName()        {}
 func (t *UserType) IsTypeName()         {}
 func (t *Slice) IsTypeName()            {}
+func (t *Array) IsTypeName()            {}
 func (t *Ellipsis) IsTypeName()         {}
 func (t *Pointer) IsTypeName()          {}
 func (t *Map) IsTypeName()              {}
@@ -347,7 +356,18 @@ func (t *BasicType) Equals(other TypeName) bool {
 	if !isSameType {
 		return false
 	}
-	return t.Name == t2.Name
+	return canonicalName(t.Name) == canonicalName(t2.Name)
+}
+
+// byte and rune are aliases
+func canonicalName(basicType string) string {
+	switch basicType {
+	case "byte":
+		return "uint8"
+	case "rune":
+		return "int32"
+	}
+	return basicType
 }
 
 func (t *UserType) Equals(other TypeName) bool {
@@ -372,6 +392,17 @@ func (t *Slice) Equals(other TypeName) bool {
 	return t.SliceOf.Equals(t2.SliceOf)
 }
 
+func (t *Array) Equals(other TypeName) bool {
+	if t == nil || other == nil {
+		return false
+	}
+	t2, isSameType := other.(*Array)
+	if !isSameType {
+		return false
+	}
+	return t.Length == t2.Length && t.ArrayOf.Equals(t2.ArrayOf)
+}
+
 func (t *Ellipsis) Equals(other TypeName) bool {
 	if t == nil || other == nil {
 		return false
diff --git a/plugins/golang/goparser/moduleset.go b/plugins/golang/goparser/moduleset.go
index da21a4b..9b70977 100644
--- a/plugins/golang/goparser/moduleset.go
+++ b/plugins/golang/goparser/moduleset.go
@@ -52,7 +52,7 @@ func (set *ParsedModuleSet) AddModule(srcDir string) (*ParsedModule, error) {
 	if err := set.AddModules(srcDir); err != nil {
 		return nil, err
 	}
-	return set.ModuleDirs[srcDir], nil
+	return set.ModuleDirs[filepath.Clean(srcDir)], nil
 }
 
 // Avoids parsing the same srcDir multiple times.
@@ -87,9 +87,8 @@ func (set *ParsedModuleSet) AddModules(srcDirs ...string) error {
 			}
 		}
 
-		if mod, exists := parsedModules[srcDir]; exists {
-			newModules = append(newModules, mod)
-			continue
+		if mod == nil {
+			mod = parsedModules[srcDir]
 		}
 
 		// Parse it
@@ -101,7 +100,13 @@ func (set *ParsedModuleSet) AddModules(srcDirs ...string) error {
 		}
 
 		// Does the same module exist in multiple different directories?
-		if existingMod, exists := set.Modules[mod.Name]; exists {
+		existingMod, exists := set.Modules[mod.Name]
+		for _, newMod := range newModules {
+			if newMod.Name == mod.Name && newMod.SrcDir != srcDir {
+				existingMod, exists = newMod, true
+			}
+		}
+		if exists {
 			return blueprint.Errorf("redeclaration of module %v found in %v and %v", mod.Name, existingMod.SrcDir, srcDir)
 		}
 
diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index a8efb91..c20e6c0 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -6,12 +6,18 @@ package goparser
 import (
 	"fmt"
 	"go/ast"
+	"go/build"
+	"go/constant"
 	"go/parser"
 	"go/token"
+	"go/types"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"reflect"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"golang.org/x/exp/slog"
 
@@ -20,6 +26,7 @@ import (
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"golang.org/x/exp/slices"
 	"golang.org/x/mod/modfile"
+	"golang.org/x/tools/go/packages"
 )
 
 type (
@@ -68,6 +75,9 @@ type (
 		AnonymousImports []*ParsedImport          // Import declarations that were imported with .
 		NamedImports     map[string]*ParsedImport // Import declarations - map from shortname to fully qualified package import name
 		Ast              *ast.File                // The AST of the file
+
+		unnamedImports    []*ParsedImport // Import declarations without an explicit name
+		importNamesLoaded bool            // Whether the actual names of unnamedImports have been looked up
 	}
 
 	ParsedStruct struct {
@@ -175,8 +185,23 @@ func (mod *ParsedModule) Load() error {
 		if !info.IsDir() {
 			return nil
 		}
+		if path != mod.SrcDir && !belongsToModule(path, info) {
+			return filepath.SkipDir
+		}
 
-		pkgs, err := parser.ParseDir(&fset, path, nil, parser.ParseComments)
+		// Only consider the files that the go tool would compile
+		var matchErr error
+		compiled := func(file fs.FileInfo) bool {
+			match, err := build.Default.MatchFile(path, file.Name())
+			if err != nil {
+				matchErr = err
+			}
+			return match
+		}
+		pkgs, err := parser.ParseDir(&fset, path, compiled, parser.ParseComments)
+		if err == nil {
+			err = matchErr
+		}
 		if err != nil {
 			return blueprint.Errorf("unable to parse package %v due to %s", path, err.Error())
 		}
@@ -213,7 +238,9 @@ func (mod *ParsedModule) Load() error {
 			}
 			mod.Packages[p.Name] = p
 
-			p.Load()
+			if err := p.Load(); err != nil {
+				return blueprint.Errorf("unable to load package %v due to %s", p.Name, err.Error())
+			}
 		}
 		return nil
 	})
@@ -221,9 +248,26 @@ func (mod *ParsedModule) Load() error {
 		return err
 	}
 
+	// Now that the names of the module's packages are known, the names of imports can be resolved
+	for _, pkg := range mod.Packages {
+		for _, f := range pkg.Files {
+			f.resolveImportNames()
+		}
+	}
 	return nil
 }
 
+// Like the go tool, ignores nested modules, vendored code, test data, and directories
+// whose names start with . or _
+func belongsToModule(path string, dir os.FileInfo) bool {
+	name := dir.Name()
+	if name == "vendor" || name == "testdata" || strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") {
+		return false
+	}
+	_, err := os.Stat(filepath.Join(path, "go.mod"))
+	return err != nil
+}
+
 func (pkg *ParsedPackage) Load() error {
 	moduleDir := pkg.Module.SrcDir
 
@@ -255,6 +299,9 @@ func (pkg *ParsedPackage) Load() error {
 
 	// Load all of the declared structs and interfaces
 	for _, f := range pkg.Files {
+		if f.isTest() {
+			continue
+		}
 		err := f.LoadStructsAndInterfaces()
 		if err != nil {
 			return err
@@ -265,12 +312,12 @@ func (pkg *ParsedPackage) Load() error {
 	// after loading structs and interfaces since function
 	// definitions can be in different files to receiver types
 	for _, f := range pkg.Files {
-		err := f.LoadFuncs()
-		if err != nil {
-			return err
+		if !f.isTest() {
+			if err := f.LoadFuncs(); err != nil {
+				return err
+			}
 		}
-		err = f.LoadVars()
-		if err != nil {
+		if err := f.LoadVars(); err != nil {
 			return err
 		}
 	}
@@ -278,6 +325,11 @@ func (pkg *ParsedPackage) Load() error {
 	return nil
 }
 
+// The types and functions of test files are only visible to the package's own tests
+func (f *ParsedFile) isTest() bool {
+	return strings.HasSuffix(f.Name, "_test.go")
+}
+
 func (pkg *ParsedPackage) Parse() error {
 	for _, iface := range pkg.Interfaces {
 		for _, method := range iface.Methods {
@@ -320,11 +372,54 @@ func (f *ParsedField) Parse() error {
 	return nil
 }
 
+// Returns the names of the generic type parameters of the function or of its receiver
+func (f *ParsedFunc) typeParams() []string {
+	var names []string
+	if f.Ast.TypeParams != nil {
+		for _, field := range f.Ast.TypeParams.List {
+			for _, name := range field.Names {
+				names = append(names, name.Name)
+			}
+		}
+	}
+	if f.Receiver != nil && len(f.Receiver.List) > 0 {
+		_, receiverParams := parseReceiver(f.Receiver.List[0].Type)
+		names = append(names, receiverParams...)
+	}
+	return names
+}
+
+// Returns the name of a receiver type and the names of its generic type parameters
+func parseReceiver(expr ast.Expr) (name string, typeParams []string) {
+	switch e := expr.(type) {
+	case *ast.ParenExpr:
+		return parseReceiver(e.X)
+	case *ast.StarExpr:
+		return parseReceiver(e.X)
+	case *ast.IndexExpr:
+		name, _ = parseReceiver(e.X)
+		if param, isIdent := e.Index.(*ast.Ident); isIdent {
+			typeParams = append(typeParams, param.Name)
+		}
+	case *ast.IndexListExpr:
+		name, _ = parseReceiver(e.X)
+		for _, index := range e.Indices {
+			if param, isIdent := index.(*ast.Ident); isIdent {
+				typeParams = append(typeParams, param.Name)
+			}
+		}
+	case *ast.Ident:
+		name = e.Name
+	}
+	return name, typeParams
+}
+
 func (f *ParsedFunc) Parse() error {
+	typeParams := f.typeParams()
 	if f.Ast.Params != nil {
 		for _, p := range f.Ast.Params.List {
 			// Determine the argument's type
-			argType := f.File.ResolveType(p.Type)
+			argType := f.File.ResolveType(p.Type, typeParams...)
 			if argType == nil {
 				return blueprint.Errorf("%v unable to resolve type of argument %v", f.Name, p.Type)
 			}
@@ -343,7 +438,7 @@ func (f *ParsedFunc) Parse() error {
 	if f.Ast.Results != nil {
 		for _, r := range f.Ast.Results.List {
 			// Determine the retval's type
-			retType := f.File.ResolveType(r.Type)
+			retType := f.File.ResolveType(r.Type, typeParams...)
 			if retType == nil {
 				return blueprint.Errorf("%v unable to resolve type of retval %v", f.Name, r.Type)
 			}
@@ -371,12 +466,9 @@ An ident can be:
   - a generic type from a struct or func's type params
 */
 func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.TypeName {
-	if gocode.IsBasicType(name) {
-		return &gocode.BasicType{Name: name}
-	}
-
-	if name == "any" {
-		return &gocode.AnyType{}
+	// Innermost scope first: declarations can shadow predeclared types
+	if slices.Contains(typeParams, name) {
+		return &gocode.GenericTypeParam{ParamName: name}
 	}
 
 	local, isLocalType := f.Package.DeclaredTypes[name]
@@ -384,8 +476,12 @@ func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.Type
 		return &local
 	}
 
-	if slices.Contains(typeParams, name) {
-		return &gocode.GenericTypeParam{ParamName: name}
+	if gocode.IsBasicType(name) {
+		return &gocode.BasicType{Name: name}
+	}
+
+	if name == "any" {
+		return &gocode.AnyType{}
 	}
 
 	if len(f.AnonymousImports) == 1 {
@@ -400,6 +496,10 @@ func (f *ParsedFile) ResolveIdent(name string, typeParams ...string) gocode.Type
 
 func (f *ParsedFile) ResolveSelector(packageShortName string, name string) gocode.TypeName {
 	pkg, isImported := f.NamedImports[packageShortName]
+	if !isImported && !f.importNamesLoaded {
+		f.loadImportNames()
+		pkg, isImported = f.NamedImports[packageShortName]
+	}
 	if !isImported {
 		fmt.Printf("Unable to resolve type %v.%v in file %v\n", packageShortName, name, f.Name)
 		return nil
@@ -411,14 +511,32 @@ func (f *ParsedFile) ResolveSelector(packageShortName string, name string) gocod
 // If the expr is in the context of a generic struct or func,
 // typeParams provides the additional named type params
 func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.TypeName {
+	resolve := func(elem ast.Expr) (gocode.TypeName, bool) {
+		t := f.ResolveType(elem, typeParams...)
+		return t, t != nil
+	}
 	switch e := expr.(type) {
 	case *ast.Ident:
 		return f.ResolveIdent(e.Name, typeParams...)
+	case *ast.ParenExpr:
+		return f.ResolveType(e.X, typeParams...)
 	case *ast.ArrayType:
-		return &gocode.Slice{SliceOf: f.ResolveType(e.Elt, typeParams...)}
+		if elem, ok := resolve(e.Elt); ok {
+			if e.Len != nil {
+				return &gocode.Array{Length: f.arrayLength(e.Len), ArrayOf: elem}
+			}
+			return &gocode.Slice{SliceOf: elem}
+		}
 	case *ast.MapType:
-		return &gocode.Map{KeyType: f.ResolveType(e.Key, typeParams...), ValueType: f.ResolveType(e.Value, typeParams...)}
+		key, keyOk := resolve(e.Key)
+		value, valueOk := resolve(e.Value)
+		if keyOk && valueOk {
+			return &gocode.Map{KeyType: key, ValueType: value}
+		}
 	case *ast.InterfaceType:
+		if len(e.Methods.List) == 0 {
+			return &gocode.AnyType{}
+		}
 		return &gocode.InterfaceType{}
 	case *ast.SelectorExpr:
 		{
@@ -430,32 +548,74 @@ func (f *ParsedFile) ResolveType(expr ast.Expr, typeParams ...string) gocode.Typ
 			return f.ResolveSelector(x.Name, e.Sel.Name)
 		}
 	case *ast.StarExpr:
-		return &gocode.Pointer{PointerTo: f.ResolveType(e.X, typeParams...)}
+		if elem, ok := resolve(e.X); ok {
+			return &gocode.Pointer{PointerTo: elem}
+		}
 	case *ast.Ellipsis:
-		return &gocode.Ellipsis{EllipsisOf: f.ResolveType(e.Elt, typeParams...)}
+		if elem, ok := resolve(e.Elt); ok {
+			return &gocode.Ellipsis{EllipsisOf: elem}
+		}
 	case *ast.ChanType:
-		switch e.Dir {
-		case ast.SEND:
-			return &gocode.SendChan{SendType: f.ResolveType(e.Value, typeParams...)}
-		case ast.RECV:
-			return &gocode.ReceiveChan{ReceiveType: f.ResolveType(e.Value, typeParams...)}
-		default:
-			return &gocode.Chan{ChanOf: f.ResolveType(e.Value, typeParams...)}
+		if elem, ok := resolve(e.Value); ok {
+			switch e.Dir {
+			case ast.SEND:
+				return &gocode.SendChan{SendType: elem}
+			case ast.RECV:
+				return &gocode.ReceiveChan{ReceiveType: elem}
+			default:
+				return &gocode.Chan{ChanOf: elem}
+			}
 		}
 	case *ast.FuncType:
 		return &gocode.FuncType{}
 	case *ast.StructType:
 		return &gocode.StructType{}
 	case *ast.IndexExpr:
-		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		base, baseOk := resolve(e.X)
+		param, paramOk := resolve(e.Index)
+		if baseOk && paramOk {
+			return &gocode.GenericType{BaseType: base, TypeParam: param}
+		}
 	case *ast.IndexListExpr:
-		return &gocode.GenericType{BaseType: f.ResolveType(e.X, typeParams...)}
+		base, baseOk := resolve(e.X)
+		param, paramOk := resolve(e.Indices[0])
+		if baseOk && paramOk {
+			return &gocode.GenericType{BaseType: base, TypeParam: param}
+		}
 	default:
 		fmt.Printf("unknown or invalid expr type %v %v\n", reflect.TypeOf(expr), expr)
 	}
 	return nil
 }
 
+// The length of an array as a decimal number if it is a literal or a constant declared
+// as one in the same package, otherwise the source code of the length
+func (f *ParsedFile) arrayLength(length ast.Expr) string {
+	switch e := length.(type) {
+	case *ast.ParenExpr:
+		return f.arrayLength(e.X)
+	case *ast.BasicLit:
+		if n, exact := constant.Int64Val(constant.ToInt(constant.MakeFromLiteral(e.Value, e.Kind, 0))); exact {
+			return strconv.FormatInt(n, 10)
+		}
+	case *ast.Ident:
+		for _, file := range f.Package.Files {
+			obj := file.Ast.Scope.Lookup(e.Name)
+			if obj == nil || obj.Kind != ast.Con {
+				continue
+			}
+			spec, isValueSpec := obj.Decl.(*ast.ValueSpec)
+			if !isValueSpec || len(spec.Names) != 1 || len(spec.Values) != 1 {
+				continue
+			}
+			if lit, isLit := spec.Values[0].(*ast.BasicLit); isLit {
+				return f.arrayLength(lit)
+			}
+		}
+	}
+	return types.ExprString(length)
+}
+
 func (f *ParsedFile) LoadImports() error {
 	for _, imp := range f.Ast.Imports {
 		i := &ParsedImport{}
@@ -466,22 +626,76 @@ func (f *ParsedFile) LoadImports() error {
 		// - import "my.package"
 		// - import myp "my.package"
 		// - import . "my.package"
-		var importedAs string
 		if imp.Name == nil {
-			splits := strings.Split(i.Package, "/")
-			importedAs = splits[len(splits)-1]
+			f.unnamedImports = append(f.unnamedImports, i)
+		} else if imp.Name.Name == "." {
+			f.AnonymousImports = append(f.AnonymousImports, i)
 		} else {
-			importedAs = imp.Name.Name
+			f.NamedImports[imp.Name.Name] = i
 		}
 
-		if importedAs == "." {
-			f.AnonymousImports = append(f.AnonymousImports, i)
+	}
+	return nil
+}
+
+// Determines the names of imports that aren't explicitly named.  A package's name is
+// usually, but not always, the last part of its path
+func (f *ParsedFile) resolveImportNames() {
+	for _, imp := range f.unnamedImports {
+		var name string
+		if pkg, inModule := f.Package.Module.Packages[imp.Package]; inModule {
+			name = pkg.ShortName
 		} else {
-			f.NamedImports[importedAs] = i
+			name = assumedPackageName(imp.Package)
+		}
+		if other, exists := f.NamedImports[name]; exists && other != imp {
+			// One of the two packages has a different name than its path suggests
+			f.loadImportNames()
+			return
+		}
+		f.NamedImports[name] = imp
+	}
+}
+
+// Looks up the actual names of the packages that aren't explicitly named
+func (f *ParsedFile) loadImportNames() {
+	f.importNamesLoaded = true
+	for _, imp := range f.unnamedImports {
+		name := assumedPackageName(imp.Package)
+		if pkg, inModule := f.Package.Module.Packages[imp.Package]; inModule {
+			name = pkg.ShortName
+		} else {
+			cfg := &packages.Config{Mode: packages.NeedName, Dir: f.Package.SrcDir}
+			pkgs, err := packages.Load(cfg, imp.Package)
+			if err == nil && len(pkgs) == 1 && pkgs[0].Name != "" {
+				name = pkgs[0].Name
+			}
 		}
+		for existing, other := range f.NamedImports {
+			if other == imp {
+				delete(f.NamedImports, existing)
+			}
+		}
+		f.NamedImports[name] = imp
+	}
+}
 
+// Guesses the name of a package from its path, in the same way as goimports
+func assumedPackageName(path string) string {
+	splits := strings.Split(path, "/")
+	name := splits[len(splits)-1]
+	if len(splits) > 1 && strings.HasPrefix(name, "v") {
+		if _, err := strconv.Atoi(name[1:]); err == nil {
+			name = splits[len(splits)-2]
+		}
 	}
-	return nil
+	name = strings.TrimPrefix(name, "go-")
+	if i := strings.IndexFunc(name, func(r rune) bool {
+		return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r)
+	}); i > 0 {
+		name = name[:i]
+	}
+	return name
 }
 
 /*
@@ -533,14 +747,15 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					iface.File = f
 					iface.Name = typespec.Name.Name
 					iface.Methods = make(map[string]*ParsedFunc)
+					if !hasOnlyMethods(t) {
+						slog.Warn(fmt.Sprintf("interface %v.%v cannot be used as a service; embedded interfaces and type constraints are not supported", f.Package.Name, iface.Name))
+						continue
+					}
 					f.Package.Interfaces[iface.Name] = iface
 
 					// Can load interface funcs immediately
 					for _, methodDecl := range t.Methods.List {
-						funcType, isFuncType := methodDecl.Type.(*ast.FuncType)
-						if !isFuncType {
-							return blueprint.Errorf("expected a function declaration in interface " + iface.Name)
-						}
+						funcType := methodDecl.Type.(*ast.FuncType)
 
 						method := &ParsedFunc{}
 						method.Ast = funcType
@@ -565,20 +780,29 @@ func (f *ParsedFile) LoadStructsAndInterfaces() error {
 					f.Package.Structs[struc.Name] = struc
 
 					if t.Fields != nil {
-						for i, fieldDecl := range t.Fields.List {
+						addField := func(fieldDecl *ast.Field) *ParsedField {
 							field := &ParsedField{}
-							if fieldDecl.Names != nil {
-								field.Name = fieldDecl.Names[0].Name
-								struc.Fields[field.Name] = field
-							} else if struc.PromotedField == nil {
-								struc.PromotedField = field
-							} else {
-								struc.AnonymousFields = append(struc.AnonymousFields, field)
-							}
-							field.Position = i
+							field.Position = len(struc.FieldsList)
 							field.Struct = struc
 							field.Ast = fieldDecl
 							struc.FieldsList = append(struc.FieldsList, field)
+							return field
+						}
+						for _, fieldDecl := range t.Fields.List {
+							// Can be 1 or more fields sharing a type
+							for _, name := range fieldDecl.Names {
+								field := addField(fieldDecl)
+								field.Name = name.Name
+								struc.Fields[field.Name] = field
+							}
+							if fieldDecl.Names == nil {
+								field := addField(fieldDecl)
+								if struc.PromotedField == nil {
+									struc.PromotedField = field
+								} else {
+									struc.AnonymousFields = append(struc.AnonymousFields, field)
+								}
+							}
 						}
 					}
 				}
@@ -607,16 +831,28 @@ func (f *ParsedFile) LoadVars() error {
 			}
 
 			// Save the AST of the var for later use
-			f.Package.Vars[valspec.Names[0].Name] = &ParsedVar{
-				File: f,
-				Name: valspec.Names[0].Name,
-				Ast:  valspec,
+			for _, name := range valspec.Names {
+				f.Package.Vars[name.Name] = &ParsedVar{
+					File: f,
+					Name: name.Name,
+					Ast:  valspec,
+				}
 			}
 		}
 	}
 	return nil
 }
 
+// Reports whether an interface consists only of method declarations
+func hasOnlyMethods(iface *ast.InterfaceType) bool {
+	for _, decl := range iface.Methods.List {
+		if _, isMethod := decl.Type.(*ast.FuncType); !isMethod {
+			return false
+		}
+	}
+	return true
+}
+
 /*
 Assumes that all structs and interfaces have been loaded for the package containing the file.
 
@@ -647,34 +883,13 @@ func (f *ParsedFile) LoadFuncs() error {
 			continue
 		}
 
-		// This doesn't work with generic types
-
-		// Pull out the name of the receiver struct
-		var receiverName string
-		switch receiverType := d.Recv.List[0].Type.(type) {
-		case *ast.StarExpr:
-			{
-				switch pointerReceiverType := receiverType.X.(type) {
-				case *ast.Ident:
-					{
-						receiverName = pointerReceiverType.Name
-					}
-				default:
-					{
-						return blueprint.Errorf("unable to parse receiver type of function %v", fun.Name)
-					}
-				}
-			}
-		case *ast.Ident:
-			{
-				// Declared as func(receiver MyType) funcName(...) {}
-				receiverName = receiverType.Name
-			}
-		}
-
-		// Associate the func with the receiver struct
+		// Associate the func with the receiver struct.  Methods of other types are not needed.
+		receiverName, _ := parseReceiver(d.Recv.List[0].Type)
 		struc, exists := f.Package.Structs[receiverName]
 		if !exists {
+			if _, declared := f.Package.DeclaredTypes[receiverName]; declared {
+				continue
+			}
 			return blueprint.Errorf("function declared for receiver %v that does not exist in package", receiverName)
 		}
 		struc.Methods[fun.Name] = fun
-- 
2.43.0


From 04602dab5ab3a358024024eb03aaaebd50ef6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 24/44] fix: the interface and constructor found for a workflow
 service depend on map order

Also report missing packages instead of failing later, and add every module a service needs to the workspace.
---
 plugins/golang/helpers.go                |  5 +-
 plugins/workflow/workflowspec/service.go | 78 ++++++++++++++++--------
 plugins/workflow/workflowspec/spec.go    |  2 +-
 3 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/plugins/golang/helpers.go b/plugins/golang/helpers.go
index 56711e8..ff34c4c 100644
--- a/plugins/golang/helpers.go
+++ b/plugins/golang/helpers.go
@@ -101,8 +101,9 @@ func AddToWorkspace(builder WorkspaceBuilder, mods ...*goparser.ParsedModule) er
 	for _, mod := range mods {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
 			}
 		}
 	}
diff --git a/plugins/workflow/workflowspec/service.go b/plugins/workflow/workflowspec/service.go
index 488b2ca..0ef15b7 100644
--- a/plugins/workflow/workflowspec/service.go
+++ b/plugins/workflow/workflowspec/service.go
@@ -8,6 +8,7 @@ import (
 	"github.com/blueprint-uservices/blueprint/plugins/golang"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/goparser"
+	"golang.org/x/exp/slices"
 	"golang.org/x/exp/slog"
 )
 
@@ -46,8 +47,9 @@ func (s *Service) AddToWorkspace(builder golang.WorkspaceBuilder) error {
 	for _, mod := range s.Modules() {
 		if mod.IsLocal {
 			if !builder.Visited(mod.Name) {
-				_, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir)
-				return err
+				if _, err := builder.AddLocalModule(mod.ShortName, mod.SrcDir); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -71,6 +73,11 @@ func (spec *WorkflowSpec) makeServiceFromStruct(struc *goparser.ParsedStruct) (*
 		}
 	}
 
+	// Prefer the interface with the most methods, since the others are only a part of the service
+	slices.SortStableFunc(validIfaces, func(a, b *goparser.ParsedInterface) int {
+		return len(b.Methods) - len(a.Methods)
+	})
+
 	// Make sure we still have a valid interface
 	if len(validIfaces) == 0 {
 		if len(errors) == 1 {
@@ -79,7 +86,7 @@ func (spec *WorkflowSpec) makeServiceFromStruct(struc *goparser.ParsedStruct) (*
 		return nil, blueprint.Errorf("%v implements %v but it is not a valid service due to %v", struc.Name, ifaces[0].Name, errors[0])
 	}
 	if len(validIfaces) > 1 {
-		slog.Warn(fmt.Sprintf("Warning: struct %v implements more than one service interface; using %v", struc.Name, validIfaces[0]))
+		slog.Warn(fmt.Sprintf("Warning: struct %v implements more than one service interface; using %v", struc.Name, validIfaces[0].Name))
 	}
 
 	// Find constructors
@@ -159,17 +166,37 @@ func isInterfaceAValidService(iface *goparser.ParsedInterface) (bool, error) {
 	return true, nil
 }
 
+// All packages of the workflow spec, in a fixed order so that every compilation finds the same service
+func (spec *WorkflowSpec) packages() []*goparser.ParsedPackage {
+	var pkgs []*goparser.ParsedPackage
+	for _, modName := range sortedKeys(spec.Modules.Modules) {
+		mod := spec.Modules.Modules[modName]
+		for _, pkgName := range sortedKeys(mod.Packages) {
+			pkgs = append(pkgs, mod.Packages[pkgName])
+		}
+	}
+	return pkgs
+}
+
+func sortedKeys[V any](m map[string]V) []string {
+	var keys []string
+	for key := range m {
+		keys = append(keys, key)
+	}
+	slices.Sort(keys)
+	return keys
+}
+
 /*
 For a parsed struct, finds all valid interfaces that the struct implements
 */
 func (spec *WorkflowSpec) findInterfacesFor(struc *goparser.ParsedStruct) []*goparser.ParsedInterface {
 	var ifaces []*goparser.ParsedInterface
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, iface := range pkg.Interfaces {
-				if valid, _ := implements(struc, iface); valid {
-					ifaces = append(ifaces, iface)
-				}
+	for _, pkg := range spec.packages() {
+		for _, name := range sortedKeys(pkg.Interfaces) {
+			iface := pkg.Interfaces[name]
+			if valid, _ := implements(struc, iface); valid {
+				ifaces = append(ifaces, iface)
 			}
 		}
 	}
@@ -181,12 +208,11 @@ For a parsed interface, finds all valid struct that implement the provided inter
 */
 func (spec *WorkflowSpec) findStructsFor(iface *goparser.ParsedInterface) []*goparser.ParsedStruct {
 	var structs []*goparser.ParsedStruct
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, struc := range pkg.Structs {
-				if valid, _ := implements(struc, iface); valid {
-					structs = append(structs, struc)
-				}
+	for _, pkg := range spec.packages() {
+		for _, name := range sortedKeys(pkg.Structs) {
+			struc := pkg.Structs[name]
+			if valid, _ := implements(struc, iface); valid {
+				structs = append(structs, struc)
 			}
 		}
 	}
@@ -211,12 +237,11 @@ func implements(struc *goparser.ParsedStruct, iface *goparser.ParsedInterface) (
 
 func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterface) []*goparser.ParsedFunc {
 	var constructors []*goparser.ParsedFunc
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, f := range pkg.Funcs {
-				if isConstructorOfIface(f, iface) {
-					constructors = append(constructors, f)
-				}
+	for _, pkg := range spec.packages() {
+		for _, name := range sortedKeys(pkg.Funcs) {
+			f := pkg.Funcs[name]
+			if isConstructorOfIface(f, iface) {
+				constructors = append(constructors, f)
 			}
 		}
 	}
@@ -225,12 +250,11 @@ func (spec *WorkflowSpec) findConstructorsOfIface(iface *goparser.ParsedInterfac
 
 func (spec *WorkflowSpec) findConstructorsOfStruct(struc *goparser.ParsedStruct) []*goparser.ParsedFunc {
 	var constructors []*goparser.ParsedFunc
-	for _, mod := range spec.Modules.Modules {
-		for _, pkg := range mod.Packages {
-			for _, f := range pkg.Funcs {
-				if isConstructorOfStruct(f, struc) {
-					constructors = append(constructors, f)
-				}
+	for _, pkg := range spec.packages() {
+		for _, name := range sortedKeys(pkg.Funcs) {
+			f := pkg.Funcs[name]
+			if isConstructorOfStruct(f, struc) {
+				constructors = append(constructors, f)
 			}
 		}
 	}
diff --git a/plugins/workflow/workflowspec/spec.go b/plugins/workflow/workflowspec/spec.go
index 28d87c7..ce3aa80 100644
--- a/plugins/workflow/workflowspec/spec.go
+++ b/plugins/workflow/workflowspec/spec.go
@@ -74,7 +74,7 @@ func (spec *WorkflowSpec) get(pkgName, name string, modInfo *goparser.ModuleInfo
 	// Find the package within the module
 	pkg, pkgExists := mod.Packages[pkgName]
 	if !pkgExists {
-		return nil, err
+		return nil, blueprint.Errorf("unable to find package %v in module %v", pkgName, mod.Name)
 	}
 
 	// Return either the interface or struct definition
-- 
2.43.0


From efa409abd9a81c6f758d84c54e03e5eef7d0f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 25/44] fix: generated imports clash or name types wrongly

Import names that are not identifiers or are predeclared, packages whose name differs from the path,
arrays, variadics, generics, any and channels of receive channels produced code that does not compile;
the order of imports differed between runs.
---
 plugins/golang/gogen/imports.go | 96 +++++++++++++++++++++++++++------
 1 file changed, 80 insertions(+), 16 deletions(-)

diff --git a/plugins/golang/gogen/imports.go b/plugins/golang/gogen/imports.go
index 0e6ec42..ff56dae 100644
--- a/plugins/golang/gogen/imports.go
+++ b/plugins/golang/gogen/imports.go
@@ -2,8 +2,14 @@ package gogen
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
+	"path"
 	"reflect"
+	"sort"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"golang.org/x/exp/slog"
@@ -21,8 +27,6 @@ import (
 type Imports struct {
 	localPackage string              // The name of the package where the importing is happening
 	packages     map[string]string   // Map from fully qualified package name to imported name
-	named        map[string]string   // Map of fully qualified package names to chosen import name
-	anonymous    map[string]struct{} // Map of fully qualified package names with default import name
 	seen         map[string]struct{} // Map from imported name to fully qualified package name
 }
 
@@ -32,8 +36,6 @@ func NewImports(packageName string) *Imports {
 	imports := &Imports{}
 	imports.localPackage = packageName
 	imports.packages = make(map[string]string)
-	imports.named = make(map[string]string)
-	imports.anonymous = make(map[string]struct{})
 	imports.seen = make(map[string]struct{})
 	return imports
 }
@@ -48,27 +50,54 @@ func (imports *Imports) AddPackage(pkg string) string {
 		return importName
 	}
 
-	splits := strings.Split(pkg, "/")
-	defaultImportName := splits[len(splits)-1]
+	defaultImportName := assumedName(pkg)
 	importName := defaultImportName
 	i := 2
 	for {
-		if _, exists := imports.seen[importName]; exists {
+		if _, exists := imports.seen[importName]; exists || isReserved(importName) {
 			importName = fmt.Sprintf("%v%v", defaultImportName, i)
 			i += 1
 		} else {
 			imports.packages[pkg] = importName
 			imports.seen[importName] = struct{}{}
-			if importName == defaultImportName {
-				imports.anonymous[pkg] = struct{}{}
-			} else {
-				imports.named[pkg] = importName
-			}
 			return importName
 		}
 	}
 }
 
+// The name that a package with the given path is assumed to have, following the conventions that goimports
+// uses, e.g. circuitbreaker for github.com/mercari/go-circuitbreaker and yaml for gopkg.in/yaml.v3
+func assumedName(pkg string) string {
+	base := path.Base(pkg)
+	if version, isVersion := strings.CutPrefix(base, "v"); isVersion {
+		if _, err := strconv.Atoi(version); err == nil && path.Dir(pkg) != "." {
+			base = path.Base(path.Dir(pkg))
+		}
+	}
+	name := strings.TrimPrefix(base, "go-")
+	if i := strings.IndexFunc(name, func(r rune) bool { return !isIdentifierRune(r) }); i >= 0 {
+		name = name[:i]
+	}
+	if !token.IsIdentifier(name) {
+		name = "_" + strings.Map(func(r rune) rune {
+			if isIdentifierRune(r) {
+				return r
+			}
+			return '_'
+		}, base)
+	}
+	return name
+}
+
+func isIdentifierRune(r rune) bool {
+	return r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r)
+}
+
+// Names that are valid in a package path but not as the name of an import
+func isReserved(name string) bool {
+	return !token.IsIdentifier(name) || name == "_" || name == "init" || types.Universe.Lookup(name) != nil
+}
+
 func (imports *Imports) AddPackages(pkgs ...string) {
 	for _, pkg := range pkgs {
 		imports.AddPackage(pkg)
@@ -90,6 +119,19 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 		{
 			imports.AddType(t.SliceOf)
 		}
+	case *gocode.Array:
+		{
+			imports.AddType(t.ArrayOf)
+		}
+	case *gocode.Ellipsis:
+		{
+			imports.AddType(t.EllipsisOf)
+		}
+	case *gocode.GenericType:
+		{
+			imports.AddType(t.BaseType)
+			imports.AddType(t.TypeParam)
+		}
 	case *gocode.Map:
 		{
 			imports.AddType(t.KeyType)
@@ -114,11 +156,14 @@ func (imports *Imports) AddType(typeName gocode.TypeName) {
 func (imports *Imports) String() string {
 	var b strings.Builder
 	b.WriteString("import (\n")
-	for pkg := range imports.anonymous {
-		b.WriteString(fmt.Sprintf("\t\"%s\"\n", pkg))
+	var pkgs []string
+	for pkg := range imports.packages {
+		pkgs = append(pkgs, pkg)
 	}
-	for pkg, importName := range imports.named {
-		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", importName, pkg))
+	sort.Strings(pkgs)
+	for _, pkg := range pkgs {
+		// The name of a package can differ from its path, so always name it explicitly
+		b.WriteString(fmt.Sprintf("\t%s \"%s\"\n", imports.packages[pkg], pkg))
 	}
 	b.WriteString(")")
 	return b.String()
@@ -159,12 +204,31 @@ func (imports *Imports) NameOf(typeName gocode.TypeName) string {
 		{
 			return "[]" + imports.NameOf(t.SliceOf)
 		}
+	case *gocode.Array:
+		{
+			return fmt.Sprintf("[%s]%s", t.Length, imports.NameOf(t.ArrayOf))
+		}
+	case *gocode.Ellipsis:
+		{
+			return "..." + imports.NameOf(t.EllipsisOf)
+		}
+	case *gocode.AnyType:
+		{
+			return "any"
+		}
+	case *gocode.GenericType:
+		{
+			return fmt.Sprintf("%s[%s]", imports.NameOf(t.BaseType), imports.NameOf(t.TypeParam))
+		}
 	case *gocode.Map:
 		{
 			return fmt.Sprintf("map[%s]%s", imports.NameOf(t.KeyType), imports.NameOf(t.ValueType))
 		}
 	case *gocode.Chan:
 		{
+			if _, isReceiveChan := t.ChanOf.(*gocode.ReceiveChan); isReceiveChan {
+				return "chan (" + imports.NameOf(t.ChanOf) + ")"
+			}
 			return "chan " + imports.NameOf(t.ChanOf)
 		}
 	case *gocode.ReceiveChan:
-- 
2.43.0


From 632a562dbea7df5aea723f8dd8b0d0f3cc6f8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 26/44] fix: workspace builder loses or overwrites modules

The requested subdirectory was ignored, a module that failed to be added stayed listed, a module
redeclared with other contents was accepted, and errors updating go.mod files were dropped.
---
 plugins/golang/gogen/workspacebuilder.go | 40 +++++++++++++-----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/plugins/golang/gogen/workspacebuilder.go b/plugins/golang/gogen/workspacebuilder.go
index 65e0678..fca6c9b 100644
--- a/plugins/golang/gogen/workspacebuilder.go
+++ b/plugins/golang/gogen/workspacebuilder.go
@@ -26,6 +26,7 @@ type WorkspaceBuilderImpl struct {
 	ModuleDirs       map[string]string // map from FQ module name to directory name within WorkspaceDir
 	Modules          map[string]string // map from directory name to FQ module name within WorkspaceDir
 	GeneratedModules map[string]string // map from directory name to FQ module name within WorkspaceDir
+	localSources     map[string]string // map from FQ module name to the directory that a local module was copied from
 }
 
 // Creates a golang workspace in the specified directory on the local filesystem.
@@ -50,6 +51,7 @@ func NewWorkspaceBuilder(workspaceDir string) (*WorkspaceBuilderImpl, error) {
 	workspace.ModuleDirs = make(map[string]string)
 	workspace.Modules = make(map[string]string)
 	workspace.GeneratedModules = make(map[string]string)
+	workspace.localSources = make(map[string]string)
 	return workspace, nil
 }
 
@@ -79,16 +81,16 @@ func (workspace *WorkspaceBuilderImpl) CreateModule(moduleName string, moduleVer
 	}
 
 	// Create output directory
-	moduleDir := filepath.Join(workspace.WorkspaceDir, moduleShortName)
+	moduleDir := filepath.Join(workspace.WorkspaceDir, moduleSubDir)
 	err := ioutil.CheckDir(moduleDir, true)
 	if err != nil {
 		return "", blueprint.Errorf("cannot generate new module %s due to %s", moduleShortName, err.Error())
 	}
 
 	// Save the module
-	workspace.Modules[moduleShortName] = moduleName
-	workspace.ModuleDirs[moduleName] = moduleShortName
-	workspace.GeneratedModules[moduleShortName] = moduleName
+	workspace.Modules[moduleSubDir] = moduleName
+	workspace.ModuleDirs[moduleName] = moduleSubDir
+	workspace.GeneratedModules[moduleSubDir] = moduleName
 
 	// Create the go.mod file
 	modfileContents := fmt.Sprintf("module %v\n\ngo 1.25", moduleName)
@@ -117,21 +119,15 @@ func (workspace *WorkspaceBuilderImpl) AddLocalModule(shortName string, moduleSr
 	if existingShortName, exists := workspace.ModuleDirs[modulePath]; exists {
 		if existingShortName != shortName {
 			return "", blueprint.Errorf("redeclaration of module %s as %s - already exists in %s", modulePath, shortName, existingShortName)
-		} else {
-			// TODO: here, check module versions are the same
-			return filepath.Join(workspace.WorkspaceDir, workspace.ModuleDirs[modulePath]), nil
 		}
-	} else {
-		workspace.ModuleDirs[modulePath] = shortName
+		if existingSrc := workspace.localSources[modulePath]; existingSrc != filepath.Clean(moduleSrcPath) {
+			return "", blueprint.Errorf("redeclaration of module %s from %s - already exists in %s from %s", modulePath, moduleSrcPath, existingShortName, existingSrc)
+		}
+		// TODO: here, check module versions are the same
+		return filepath.Join(workspace.WorkspaceDir, existingShortName), nil
 	}
 	if existingModulePath, exists := workspace.Modules[shortName]; exists {
-		if existingModulePath != modulePath {
-			return "", blueprint.Errorf("cannot copy module %s to %s as it already contains module %s", modulePath, shortName, existingModulePath)
-		} else {
-			return filepath.Join(workspace.WorkspaceDir, shortName), nil
-		}
-	} else {
-		workspace.Modules[shortName] = modulePath
+		return "", blueprint.Errorf("cannot copy module %s to %s as it already contains module %s", modulePath, shortName, existingModulePath)
 	}
 
 	moduleDstPath := filepath.Join(workspace.WorkspaceDir, shortName)
@@ -142,7 +138,13 @@ func (workspace *WorkspaceBuilderImpl) AddLocalModule(shortName string, moduleSr
 
 	slog.Info(fmt.Sprintf("Copying local module %s to workspace %s", shortName, workspace.WorkspaceDir))
 
-	return moduleDstPath, cp.Copy(moduleSrcPath, moduleDstPath)
+	if err := cp.Copy(moduleSrcPath, moduleDstPath); err != nil {
+		return "", err
+	}
+	workspace.ModuleDirs[modulePath] = shortName
+	workspace.Modules[shortName] = modulePath
+	workspace.localSources[modulePath] = filepath.Clean(moduleSrcPath)
+	return moduleDstPath, nil
 }
 
 // Implements [golang.WorkspaceBuilder]
@@ -200,7 +202,9 @@ func (workspace *WorkspaceBuilderImpl) Finish() error {
 
 	// Rewrite the go.mod files to redirect to local modules
 	for moduleSubDir, moduleName := range workspace.Modules {
-		workspace.updateModfile(moduleSubDir, moduleName)
+		if err := workspace.updateModfile(moduleSubDir, moduleName); err != nil {
+			return err
+		}
 	}
 
 	// Resolve imported packages for generated modules
-- 
2.43.0


From 97f7a0b3fc4a9b2dc857f324c4c6848fc4f93d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 27/44] fix: a service is run twice if its client is the same
 instance

---
 runtime/plugins/golang/namespace.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/golang/namespace.go b/runtime/plugins/golang/namespace.go
index d619424..964c6f3 100644
--- a/runtime/plugins/golang/namespace.go
+++ b/runtime/plugins/golang/namespace.go
@@ -89,6 +89,9 @@ type Namespace struct {
 	cancel context.CancelFunc
 	wg     *sync.WaitGroup
 
+	// The runnable nodes that have been started; guarded by the lock of the outermost namespace
+	running map[Runnable]struct{}
+
 	parent *Namespace
 }
 
@@ -409,7 +412,7 @@ func (n *Namespace) Get(name string, receiver any) error {
 			slog.Info(fmt.Sprintf("%v built %v (%v)", n.name, name, reflect.TypeOf(built)))
 		}
 
-		if runnable, isRunnable := built.(Runnable); isRunnable {
+		if runnable, isRunnable := built.(Runnable); isRunnable && n.shouldRun(runnable) {
 			slog.Info(fmt.Sprintf("%v running %v", n.name, name))
 			// The enclosing namespaces also wait for the runnable to finish
 			for ns := n; ns != nil; ns = ns.parent {
@@ -438,6 +441,29 @@ func (n *Namespace) Get(name string, receiver any) error {
 	return errors.Errorf("%v unknown %v", n.name, name)
 }
 
+// Returns true the first time it is called for runnable.  Several nodes can be built as the same instance,
+// e.g. a service and its client if both are in this namespace, but the instance should be run only once.
+func (n *Namespace) shouldRun(runnable Runnable) bool {
+	t := reflect.TypeOf(runnable)
+	if t.Kind() != reflect.Pointer || t.Elem().Size() == 0 {
+		return true // different instances could compare equal
+	}
+	root := n
+	for root.parent != nil {
+		root = root.parent
+	}
+	root.lock.Lock()
+	defer root.lock.Unlock()
+	if _, isRunning := root.running[runnable]; isRunning {
+		return false
+	}
+	if root.running == nil {
+		root.running = make(map[Runnable]struct{})
+	}
+	root.running[runnable] = struct{}{}
+	return true
+}
+
 // ctx can be used by any [BuildFunc] that wants to start background goroutines,
 // perform a blocking select, etc.
 //
-- 
2.43.0


From 69535540f7faf1d1b78ae56044d1290d450e9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 28/44] fix: name the parameters of interface methods that
 leave them unnamed or blank

Generated wrappers referred to the parameter names, which did not exist.
---
 plugins/golang/goparser/parser.go | 66 ++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/plugins/golang/goparser/parser.go b/plugins/golang/goparser/parser.go
index c20e6c0..296711a 100644
--- a/plugins/golang/goparser/parser.go
+++ b/plugins/golang/goparser/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"regexp"
 	"strconv"
 	"strings"
 	"unicode"
@@ -920,12 +921,75 @@ func (struc *ParsedStruct) Type() *gocode.UserType {
 	}
 }
 
+// Names that plugins use within the methods that they generate: Go's predeclared identifiers, packages, and variables
+var reservedArgNames = makeSet(
+	"any", "bool", "byte", "comparable", "complex64", "complex128", "error", "float32", "float64", "int", "int8", "int16",
+	"int32", "int64", "rune", "string", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "true", "false", "iota", "nil",
+	"append", "cap", "clear", "close", "complex", "copy", "delete", "imag", "len", "make", "max", "min", "new", "panic",
+	"print", "println", "real", "recover",
+	"atomic", "backend", "circuitbreaker", "clientpool", "context", "errors", "fmt", "golang", "grpc", "http", "insecure", "io",
+	"json", "math", "mux", "net", "rand", "strconv", "sync", "thrift", "time", "trace", "url",
+	"ctx", "err", "client", "pool", "balancer", "handler", "server", "service",
+	"cancel", "call_err", "delay", "encoded_url", "i", "is_complete", "k", "msg", "obj", "objv", "r", "req", "request", "resp", "resp_bytes",
+	"response", "result", "rsp", "sleepDuration", "span", "span_ctx", "span_ctx_config", "statusOk", "tp", "tr", "trace_ctx",
+	"traceCtx", "v", "val", "vals", "w", "waitErr",
+)
+
+func makeSet(names ...string) map[string]struct{} {
+	set := make(map[string]struct{})
+	for _, name := range names {
+		set[name] = struct{}{}
+	}
+	return set
+}
+
+// The names of return values within generated methods
+var retVarName = regexp.MustCompile(`^ret[0-9]+$`)
+
+// Plugins generate methods using the argument names of the interface.  This gives names to unnamed
+// arguments and changes the names that would hide something that generated code makes use of.
+func usableArgNames(args []gocode.Variable, rets []gocode.Variable) []gocode.Variable {
+	taken := make(map[string]struct{})
+	for _, arg := range args {
+		taken[arg.Name] = struct{}{}
+	}
+	// An argument can have the same name as the package of its type or of another type
+	hidesPackage := func(name string) bool {
+		qualifier := regexp.MustCompile(`(^|\W)` + regexp.QuoteMeta(name) + `\.`)
+		for _, v := range append(append([]gocode.Variable{}, args...), rets...) {
+			if qualifier.MatchString(v.Type.String()) {
+				return true
+			}
+		}
+		return false
+	}
+
+	var renamed []gocode.Variable
+	for i, arg := range args {
+		name := arg.Name
+		if name == "" || name == "_" {
+			name = fmt.Sprintf("arg%v", i)
+		} else if _, isReserved := reservedArgNames[name]; isReserved || retVarName.MatchString(name) || hidesPackage(name) {
+			name += "_arg"
+		}
+		for name != arg.Name {
+			if _, isTaken := taken[name]; !isTaken {
+				break
+			}
+			name += "_"
+		}
+		taken[name] = struct{}{}
+		renamed = append(renamed, gocode.Variable{Name: name, Type: arg.Type})
+	}
+	return renamed
+}
+
 func (iface *ParsedInterface) ServiceInterface(ctx ir.BuildContext) *gocode.ServiceInterface {
 	methods := make(map[string]gocode.Func)
 	for name, method := range iface.Methods {
 		methods[name] = gocode.Func{
 			Name:      method.Name,
-			Arguments: method.Arguments[1:],
+			Arguments: usableArgNames(method.Arguments[1:], method.Returns),
 			Returns:   method.Returns[:len(method.Returns)-1],
 		}
 	}
-- 
2.43.0


From e974f54ac4b9e3171087b342ac9e4affc0a5c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 29/44] fix: grpc: convert list elements, maps, bytes and nil
 pointers, and reject types without a message

Marshalling code for slices and maps of structs, pointers, runes, bytes and floats did not compile or lost values, messages of
equally named types collided, and the order of methods varied between compilations.
---
 plugins/grpc/grpccodegen/clientgen.go   |  18 ++-
 plugins/grpc/grpccodegen/marshallgen.go | 206 ++++++++++++++----------
 plugins/grpc/grpccodegen/naming.go      |  59 +++++++
 plugins/grpc/grpccodegen/protogen.go    |  83 +++++++---
 plugins/grpc/grpccodegen/servergen.go   |  20 ++-
 plugins/grpc/ir_grpc_client.go          |   2 +-
 plugins/grpc/ir_grpc_server.go          |   2 +-
 7 files changed, 266 insertions(+), 124 deletions(-)
 create mode 100644 plugins/grpc/grpccodegen/naming.go

diff --git a/plugins/grpc/grpccodegen/clientgen.go b/plugins/grpc/grpccodegen/clientgen.go
index 681e33b..b872982 100644
--- a/plugins/grpc/grpccodegen/clientgen.go
+++ b/plugins/grpc/grpccodegen/clientgen.go
@@ -20,8 +20,8 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 	client := &clientArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_GRPCClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    service.Name + "_GRPCClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages(
@@ -45,14 +45,18 @@ type clientArgs struct {
 	Imports *gogen.Imports // Manages imports for us
 }
 
+// The name that GRPC gives in go to something called name in the .proto file
+func (args *clientArgs) GoName(name string) string {
+	return goName(name)
+}
+
 var clientTemplate = `// Blueprint: Auto-generated by GRPC Plugin
 package {{.Package.ShortName}}
 
 {{.Imports}}
 
 type {{.Name}} struct {
-	{{.Imports.NameOf .Service.UserType}}
-	Client {{.Service.Name}}Client // The actual GRPC-generated client
+	Client {{.GoName .Service.Name}}Client // The actual GRPC-generated client
 	Timeout time.Duration
 }
 
@@ -70,7 +74,7 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 	}
 
 	c := &{{.Name}}{}
-	c.Client = New{{.Service.Name}}Client(conn)
+	c.Client = New{{.GoName .Service.Name}}Client(conn)
 	c.Timeout = duration
 	return c, nil
 }
@@ -80,7 +84,7 @@ func New_{{.Name}}(ctx context.Context, serverAddress string) (*{{.Name}}, error
 {{- range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	// Create and marshall the GRPC Request object
-	req := &{{$service}}_{{$f.Name}}_Request{}
+	req := &{{$.GoName (printf "%s_%s_Request" $service $f.Name)}}{}
 	req.marshall({{ArgVars $f}})
 
 	// Configure the client-side request timeout
@@ -88,7 +92,7 @@ func (client *{{$receiver}}) {{SignatureWithRetVars $f}} {
 	defer cancel()
 
 	// Make the remote call
-	rsp, err := client.Client.{{$f.Name}}(ctx, req)
+	rsp, err := client.Client.{{$.GoName $f.Name}}(ctx, req)
 	if err == nil {
 		err = ctx.Err()
 	}
diff --git a/plugins/grpc/grpccodegen/marshallgen.go b/plugins/grpc/grpccodegen/marshallgen.go
index 5e7261c..12f9b6c 100644
--- a/plugins/grpc/grpccodegen/marshallgen.go
+++ b/plugins/grpc/grpccodegen/marshallgen.go
@@ -3,7 +3,6 @@ package grpccodegen
 import (
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
@@ -73,6 +72,9 @@ func (msg *{{$struct.GRPCType.Name}}) marshall(obj *{{$imports.Qualify $t.Packag
 
 // Utility function to unpack {{$imports.Qualify $t.Package $t.Name}} from a GRPC {{$struct.GRPCType.Name}} message
 func (msg *{{$struct.GRPCType.Name}}) unmarshall(obj *{{$imports.Qualify $t.Package $t.Name}}) {
+	if msg == nil {
+		return
+	}
 	{{- range $j, $field := $struct.FieldList}}
 	{{$field.Unmarshall $imports "obj."}}
 	{{- end}}
@@ -112,118 +114,146 @@ func (b *gRPCProtoBuilder) GenerateMarshallingCode(outputFilePath string) error
 		}
 	}
 
+	defer f.Close()
 	return t.Execute(f, args)
 }
 
 func (f *gRPCField) Marshall(imports *gogen.Imports, obj string) (string, error) {
+	src, dst := obj+f.Name, "msg."+f.GoName
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
-		{
-			return fmt.Sprintf("msg.%s = new(%s).marshall(&%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
-		}
+		return fmt.Sprintf("%s = new(%s).marshall(&%s)", dst, t.Name, src), nil
 	case *gocode.BasicType:
-		{
-			return fmt.Sprintf("msg.%s = %s(%s%s)", strings.Title(f.Name), t.Name, obj, f.Name), nil
-		}
+		return fmt.Sprintf("%s = %s(%s)", dst, t.Name, src), nil
 	case *gocode.Pointer:
-		{
-			switch pt := t.PointerTo.(type) {
-			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s = new(%s).marshall(%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s(*%s%s)", strings.Title(f.Name), pt.Name, obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported pointer type %v", pt)
-			}
+		switch pt := t.PointerTo.(type) {
+		case *gocode.UserType:
+			return fmt.Sprintf(`if %s != nil {
+		%s = new(%s).marshall(%s)
+	}`, src, dst, pt.Name, src), nil
+		case *gocode.BasicType:
+			return fmt.Sprintf(`if %s != nil {
+		%s = new(%s)
+		*%s = %s(*%s)
+	}`, src, dst, pt.Name, dst, pt.Name, src), nil
+		default:
+			return "", blueprint.Errorf("unsupported pointer type %v", pt)
 		}
 	case *gocode.Map:
-		{
-			switch vt := t.ValueType.(type) {
-			case *gocode.UserType:
-				{
-					return fmt.Sprintf(`
-    msg.%s = make(map[%s]*%s)
-	for k, v := range %s%s {
-		msg.%s[k] = new(%s).marshall(&v)
-	}`, strings.Title(f.Name), t.KeyType, vt.Name, obj, f.Name, strings.Title(f.Name), vt.Name), nil
-				}
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported/unimplemented map value type %v", vt)
-			}
+		value, err := marshallElement(t.ValueType)
+		if err != nil {
+			return "", err
 		}
+		return fmt.Sprintf(`%s = make(map[%s]%s, len(%s))
+	for key_, elem_ := range %s {
+		elem_ := elem_
+		%s[%s(key_)] = %s
+	}`, dst, t.KeyType, grpcElementType(t.ValueType), src, src, dst, t.KeyType, value), nil
 	case *gocode.Slice:
-		{
-			switch st := t.SliceOf.(type) {
-			case *gocode.UserType:
-				return fmt.Sprintf(
-					"for _, v := range %s%s { msg.%s = append(msg.%s, new(%s).marshall(&v)) }",
-					obj, f.Name, strings.Title(f.Name), strings.Title(f.Name), st.Name), nil
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
-			}
+		if isBytes(f.SrcType) {
+			return fmt.Sprintf("%s = %s", dst, src), nil
 		}
+		value, err := marshallElement(t.SliceOf)
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf(`for _, elem_ := range %s {
+		elem_ := elem_
+		%s = append(%s, %s)
+	}`, src, dst, dst, value), nil
 	}
-	return "", nil
+	return "", blueprint.Errorf("unsupported type %v", f.GRPCType)
 }
 
 func (f *gRPCField) Unmarshall(imports *gogen.Imports, obj string) (string, error) {
+	src, dst := "msg."+f.GoName, obj+f.Name
 	switch t := f.GRPCType.(type) {
 	case *gocode.UserType:
-		{
-			return fmt.Sprintf("msg.%s.unmarshall(&%s%s)", strings.Title(f.Name), obj, f.Name), nil
-		}
+		return fmt.Sprintf("%s.unmarshall(&%s)", src, dst), nil
 	case *gocode.BasicType:
-		{
-			return fmt.Sprintf("%s%s = %v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
-		}
+		return fmt.Sprintf("%s = %s(%s)", dst, imports.NameOf(f.SrcType), src), nil
 	case *gocode.Pointer:
-		{
-			switch pt := t.PointerTo.(type) {
-			case *gocode.UserType:
-				return fmt.Sprintf("msg.%s.unmarshall(%s%s)", strings.Title(f.Name), obj, f.Name), nil
-			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = &%v(msg.%s)", obj, f.Name, f.SrcType, strings.Title(f.Name)), nil
-			default:
-				return "", blueprint.Errorf("unsupported pointer type %v", pt)
-			}
+		srcType, isPointer := f.SrcType.(*gocode.Pointer)
+		if !isPointer {
+			return "", blueprint.Errorf("expected %v to be a pointer", f.SrcType)
+		}
+		switch t.PointerTo.(type) {
+		case *gocode.UserType:
+			return fmt.Sprintf(`if %s != nil {
+		%s = new(%s)
+		%s.unmarshall(%s)
+	}`, src, dst, imports.NameOf(srcType.PointerTo), src, dst), nil
+		case *gocode.BasicType:
+			return fmt.Sprintf(`if %s != nil {
+		%s = new(%s)
+		*%s = %s(*%s)
+	}`, src, dst, imports.NameOf(srcType.PointerTo), dst, imports.NameOf(srcType.PointerTo), src), nil
+		default:
+			return "", blueprint.Errorf("unsupported pointer type %v", t)
 		}
 	case *gocode.Map:
-		{
-			switch t.ValueType.(type) {
-			case *gocode.UserType:
-				{
-					return fmt.Sprintf(`
-    %s%s = make(%s)
-	for k, v := range msg.%s {
-		objv := %s%s[k]
-		v.unmarshall(&objv)
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), obj, f.Name), nil
-				}
-			case *gocode.BasicType:
-				return fmt.Sprintf("msg.%s = %s%s", strings.Title(f.Name), obj, f.Name), nil
-			default:
-				return "", blueprint.Errorf("unsupported map value type %v", t)
-			}
+		srcType, isMap := f.SrcType.(*gocode.Map)
+		if !isMap {
+			return "", blueprint.Errorf("expected %v to be a map", f.SrcType)
+		}
+		unmarshall, err := unmarshallElement(t.ValueType, imports.NameOf(srcType.ValueType))
+		if err != nil {
+			return "", err
 		}
+		return fmt.Sprintf(`%s = make(%s, len(%s))
+	for key_, elem_ := range %s {
+		%s
+		%s[%s(key_)] = value_
+	}`, dst, imports.NameOf(f.SrcType), src, src, unmarshall, dst, imports.NameOf(srcType.KeyType)), nil
 	case *gocode.Slice:
-		{
-			switch st := t.SliceOf.(type) {
-			case *gocode.UserType:
-				return fmt.Sprintf(`
-	%s%s = make(%s, len(msg.%s))
-	for i, v := range msg.%s {
-		v.unmarshall(&%s%s[i])
-	}`, obj, f.Name, imports.NameOf(f.SrcType), strings.Title(f.Name), strings.Title(f.Name), obj, f.Name), nil
-			case *gocode.BasicType:
-				return fmt.Sprintf("%s%s = msg.%s", obj, f.Name, strings.Title(f.Name)), nil
-			default:
-				return "", blueprint.Errorf("unsupported/unimplemented slice type %v", st)
-			}
+		if isBytes(f.SrcType) {
+			return fmt.Sprintf("%s = %s", dst, src), nil
+		}
+		srcType, isSlice := f.SrcType.(*gocode.Slice)
+		if !isSlice {
+			return "", blueprint.Errorf("expected %v to be a slice", f.SrcType)
 		}
+		unmarshall, err := unmarshallElement(t.SliceOf, imports.NameOf(srcType.SliceOf))
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf(`%s = make(%s, 0, len(%s))
+	for _, elem_ := range %s {
+		%s
+		%s = append(%s, value_)
+	}`, dst, imports.NameOf(f.SrcType), src, src, unmarshall, dst, dst), nil
+	}
+	return "", blueprint.Errorf("unsupported type %v", f.GRPCType)
+}
+
+// The go type that GRPC uses for an element of a slice or a map
+func grpcElementType(t gocode.TypeName) string {
+	if user, isUser := t.(*gocode.UserType); isUser {
+		return "*" + user.Name
+	}
+	return t.String()
+}
+
+// The expression that converts the variable elem_, which is an element of a slice or a map, to the GRPC type t
+func marshallElement(t gocode.TypeName) (string, error) {
+	switch et := t.(type) {
+	case *gocode.UserType:
+		return fmt.Sprintf("new(%s).marshall(&elem_)", et.Name), nil
+	case *gocode.BasicType:
+		return fmt.Sprintf("%s(elem_)", et.Name), nil
+	default:
+		return "", blueprint.Errorf("unsupported/unimplemented element type %v", t)
+	}
+}
+
+// The statements that convert the variable elem_, which has GRPC type t, to a variable value_ of type srcType
+func unmarshallElement(t gocode.TypeName, srcType string) (string, error) {
+	switch t.(type) {
+	case *gocode.UserType:
+		return fmt.Sprintf("var value_ %s\n\t\telem_.unmarshall(&value_)", srcType), nil
+	case *gocode.BasicType:
+		return fmt.Sprintf("value_ := %s(elem_)", srcType), nil
+	default:
+		return "", blueprint.Errorf("unsupported/unimplemented element type %v", t)
 	}
-	return "", nil
 }
diff --git a/plugins/grpc/grpccodegen/naming.go b/plugins/grpc/grpccodegen/naming.go
new file mode 100644
index 0000000..0c62632
--- /dev/null
+++ b/plugins/grpc/grpccodegen/naming.go
@@ -0,0 +1,59 @@
+package grpccodegen
+
+import "strings"
+
+/*
+The names that protoc-gen-go and protoc-gen-go-grpc give to the go code that they generate.
+*/
+
+// Returns the exported go name for the provided name from a .proto file.  Follows GoCamelCase in
+// google.golang.org/protobuf/internal/strs
+func goName(name string) string {
+	isLower := func(i int) bool { return i < len(name) && 'a' <= name[i] && name[i] <= 'z' }
+
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		switch {
+		case name[i] == '_' && i == 0:
+			b.WriteByte('X')
+		case name[i] == '_' && isLower(i+1):
+			// The next letter is capitalized instead
+		case '0' <= name[i] && name[i] <= '9':
+			b.WriteByte(name[i])
+		default:
+			if isLower(i) {
+				b.WriteByte(name[i] - 'a' + 'A')
+			} else {
+				b.WriteByte(name[i])
+			}
+			for ; isLower(i + 1); i++ {
+				b.WriteByte(name[i+1])
+			}
+		}
+	}
+	return b.String()
+}
+
+// Sets the go names of the fields of a message.  Names that clash with methods of the generated go struct, or
+// with the names of preceding fields, are suffixed with underscores.
+func setGoNames(fields []*gRPCField) {
+	used := map[string]bool{
+		"Reset": true, "String": true, "ProtoMessage": true, "Marshal": true, "Unmarshal": true,
+		"ExtensionRangeArray": true, "ExtensionMap": true, "Descriptor": true,
+	}
+	unique := func(name string, hasGetter bool) string {
+		for used[name] || (hasGetter && used["Get"+name]) {
+			name += "_"
+		}
+		used[name] = true
+		used["Get"+name] = hasGetter
+		return name
+	}
+	for _, field := range fields {
+		field.GoName = unique(goName(field.Name), true)
+		if field.Optional {
+			// Optional fields are implemented as a oneof, whose name also has to be unique
+			unique(goName("_"+field.Name), false)
+		}
+	}
+}
diff --git a/plugins/grpc/grpccodegen/protogen.go b/plugins/grpc/grpccodegen/protogen.go
index f56aa02..c959878 100644
--- a/plugins/grpc/grpccodegen/protogen.go
+++ b/plugins/grpc/grpccodegen/protogen.go
@@ -13,6 +13,8 @@ import (
 	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
 	"github.com/blueprint-uservices/blueprint/plugins/golang/goparser"
 	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
+	"golang.org/x/exp/maps"
+	"golang.org/x/exp/slices"
 	"golang.org/x/exp/slog"
 )
 
@@ -23,7 +25,7 @@ See the plugin README for the required GRPC and protocol buffers package depende
 */
 func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInterface, outputPackage string) error {
 	// No need to generate the proto more than once
-	if builder.Visited(outputPackage + "/" + service.BaseName + ".proto") {
+	if builder.Visited(outputPackage + "/" + service.Name + ".proto") {
 		return nil
 	}
 
@@ -34,7 +36,7 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Construct and validate the GRPC proto builder for the service
-	pb := newProtoBuilder(modules, service.BaseName)
+	pb := newProtoBuilder(modules, service.Name)
 	splits := strings.Split(outputPackage, "/")
 	outputPackageName := splits[len(splits)-1]
 	pb.Module = builder.Info()
@@ -54,7 +56,7 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Write the proto file
-	outputFilename := filepath.Join(outputDir, service.BaseName+".proto")
+	outputFilename := filepath.Join(outputDir, service.Name+".proto")
 	err = pb.WriteProtoFile(outputFilename)
 	if err != nil {
 		return err
@@ -67,8 +69,8 @@ func GenerateGRPCProto(builder golang.ModuleBuilder, service *gocode.ServiceInte
 	}
 
 	// Generate the marshalling code
-	slog.Info(fmt.Sprintf("Generating %v/%v_conversions.go", pb.PackageName, service.BaseName))
-	marshallFile := filepath.Join(outputDir, service.BaseName+"_conversions.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v_conversions.go", pb.PackageName, service.Name))
+	marshallFile := filepath.Join(outputDir, service.Name+"_conversions.go")
 	return pb.GenerateMarshallingCode(marshallFile)
 }
 
@@ -109,7 +111,9 @@ type (
 		ProtoType string          // The GRPC type in proto
 		GRPCType  gocode.TypeName // The GRPC type in golang
 		Name      string
+		GoName    string // The name of the field in the GRPC-generated go struct
 		Position  int
+		Optional  bool // True if the field can be absent
 	}
 
 	gRPCMessageDecl struct {
@@ -161,7 +165,7 @@ package {{ .Package }};
 {{ range $k, $msg := .Messages }}
 message {{$msg.Name}} {
     {{- range $k, $field := $msg.FieldList}}
-    {{$field.ProtoType}} {{$field.Name}} = {{$field.Position}};
+    {{if $field.Optional}}optional {{end}}{{$field.ProtoType}} {{$field.Name}} = {{$field.Position}};
     {{- end}}
 }
 {{ end -}}
@@ -186,16 +190,23 @@ func (b *gRPCProtoBuilder) WriteProtoFile(outputFilePath string) error {
 		return err
 	}
 
+	defer f.Close()
 	return t.Execute(f, b)
-
 }
 
 func (b *gRPCProtoBuilder) newMessage(name string) *gRPCMessageDecl {
+	// Structs from different packages can have the same name
+	uniqueName := name
+	for i := 2; b.Messages[uniqueName] != nil; i++ {
+		uniqueName = fmt.Sprintf("%v_%v", name, i)
+	}
+	name = uniqueName
+
 	s := &gRPCMessageDecl{}
 	s.Builder = b
 	s.Name = name
 	s.FieldList = nil
-	s.GRPCType = &gocode.UserType{Name: name, Package: b.PackageName}
+	s.GRPCType = &gocode.UserType{Name: goName(name), Package: b.PackageName}
 	b.Messages[name] = s
 	return s
 }
@@ -237,8 +248,10 @@ func (b *gRPCProtoBuilder) makeFieldList(vars []gocode.Variable) ([]*gRPCField,
 			GRPCType:  grpcType,
 			Name:      name,
 			Position:  i + 1,
+			Optional:  isPointerToBasic(arg.Type),
 		})
 	}
+	setGoNames(fieldList)
 	return fieldList, nil
 }
 
@@ -253,7 +266,14 @@ and return values.
 */
 func (b *gRPCProtoBuilder) AddService(iface *gocode.ServiceInterface) error {
 	serviceDecl := b.newService(iface.Name) // TODO: (not implemented yet) possibility of name collisions
-	for _, method := range iface.Methods {
+	methodNames := maps.Keys(iface.Methods)
+	slices.Sort(methodNames)
+	for _, name := range methodNames {
+		serviceDecl.newMethod(name)
+	}
+	for _, name := range methodNames {
+		method, methodDecl := iface.Methods[name], serviceDecl.Methods[name]
+
 		argList, err := b.makeFieldList(method.Arguments)
 		if err != nil {
 			return err
@@ -264,7 +284,6 @@ func (b *gRPCProtoBuilder) AddService(iface *gocode.ServiceInterface) error {
 			return err
 		}
 
-		methodDecl := serviceDecl.newMethod(method.Name)
 		methodDecl.Request.FieldList = argList
 		methodDecl.Response.FieldList = retList
 	}
@@ -297,10 +316,9 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 	msg := b.newMessage(fmt.Sprintf("%v_%v", b.Name, t.Name))
 	b.Structs[*t] = msg
 	for _, field := range struc.FieldsList {
-		// We ignore promoted and anonymous struct / interface extensions
+		// TODO (not implemented yet): support promoted and anonymous, handle interfaces and promoted struct fields
 		if _, isNamed := struc.Fields[field.Name]; !isNamed {
-			// TODO (not implemented yet): support promoted and anonymous, handle interfaces and promoted struct fields
-			continue
+			return nil, blueprint.Errorf("embedded field %v of %v is not supported by GRPC", field.Type, t)
 		}
 
 		// Gets the type name of this field, possibly internally creating the GRPC message if it's a struct
@@ -315,8 +333,10 @@ func (b *gRPCProtoBuilder) GetOrAddMessage(t *gocode.UserType) (*gRPCMessageDecl
 			GRPCType:  fieldGRPC,
 			Name:      field.Name,
 			Position:  len(msg.FieldList) + 1,
+			Optional:  isPointerToBasic(field.Type),
 		})
 	}
+	setGoNames(msg.FieldList)
 
 	return msg, nil
 }
@@ -326,8 +346,8 @@ var basicToGrpc = map[string]string{
 	"string": "string",
 	"int":    "sint64", "int8": "sint32", "int16": "sint32", "int32": "sint32", "int64": "sint64",
 	"uint": "uint64", "uint8": "uint32", "uint16": "uint32", "uint32": "uint32", "uint64": "uint64",
-	"byte":    "uint8",
-	"rune":    "uint8",
+	"byte":    "uint32",
+	"rune":    "sint32",
 	"float32": "float", "float64": "double",
 }
 
@@ -336,9 +356,7 @@ var grpcToBasic = map[string]string{
 	"string": "string",
 	"sint32": "int32", "sint64": "int64",
 	"uint32": "uint32", "uint64": "uint64",
-	"uint8":   "byte",
-	"float32": "float",
-	"float64": "double",
+	"float": "float32", "double": "float64",
 }
 
 var acceptableMapKeys map[string]struct{}
@@ -357,7 +375,7 @@ func getMapKeyType(t gocode.TypeName) (string, gocode.TypeName, bool) {
 	if basic, isBasic := t.(*gocode.BasicType); isBasic {
 		if grpcType, hasGrpcType := basicToGrpc[basic.Name]; hasGrpcType {
 			if _, isValid := acceptableMapKeys[grpcType]; isValid {
-				return grpcType, t, true
+				return grpcType, &gocode.BasicType{Name: grpcToBasic[grpcType]}, true
 			}
 		}
 	}
@@ -389,6 +407,11 @@ func (b *gRPCProtoBuilder) getGRPCType(t gocode.TypeName) (string, gocode.TypeNa
 			if err != nil {
 				return "", nil, err
 			}
+			switch pointerToGrpcType.(type) {
+			case *gocode.UserType, *gocode.BasicType:
+			default:
+				return "", nil, blueprint.Errorf("GRPC does not support pointers to %v", arg.PointerTo)
+			}
 			grpcType := &gocode.Pointer{PointerTo: pointerToGrpcType}
 			return protoType, grpcType, nil
 		}
@@ -409,7 +432,7 @@ func (b *gRPCProtoBuilder) getGRPCType(t gocode.TypeName) (string, gocode.TypeNa
 	case *gocode.Slice:
 		{
 			// []byte is a special case where the type is 'bytes', everything else is a repeated
-			if basic, isBasic := arg.SliceOf.(*gocode.BasicType); isBasic && basic.Name == "byte" {
+			if isBytes(arg) {
 				return "bytes", t, nil
 			}
 			// map is a special case that can't be repeated
@@ -431,3 +454,23 @@ func (b *gRPCProtoBuilder) getGRPCType(t gocode.TypeName) (string, gocode.TypeNa
 		}
 	}
 }
+
+// []byte and []uint8 are the same type, and correspond to bytes
+func isBytes(t gocode.TypeName) bool {
+	slice, isSlice := t.(*gocode.Slice)
+	if !isSlice {
+		return false
+	}
+	basic, isBasic := slice.SliceOf.(*gocode.BasicType)
+	return isBasic && (basic.Name == "byte" || basic.Name == "uint8")
+}
+
+// In GRPC, only messages and optional fields can be absent
+func isPointerToBasic(t gocode.TypeName) bool {
+	pointer, isPointer := t.(*gocode.Pointer)
+	if !isPointer {
+		return false
+	}
+	_, isBasic := pointer.PointerTo.(*gocode.BasicType)
+	return isBasic
+}
diff --git a/plugins/grpc/grpccodegen/servergen.go b/plugins/grpc/grpccodegen/servergen.go
index f0aeff5..c3c9058 100644
--- a/plugins/grpc/grpccodegen/servergen.go
+++ b/plugins/grpc/grpccodegen/servergen.go
@@ -24,8 +24,8 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 	server := &serverArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_GRPCServerHandler",
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    service.Name + "_GRPCServerHandler",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages(
@@ -48,13 +48,18 @@ type serverArgs struct {
 	Imports *gogen.Imports // Manages imports for us
 }
 
+// The name that GRPC gives in go to something called name in the .proto file
+func (args *serverArgs) GoName(name string) string {
+	return goName(name)
+}
+
 var serverTemplate = `// Blueprint: Auto-generated by GRPC Plugin
 package {{.Package.ShortName}}
 
 {{.Imports}}
 
 type {{.Name}} struct {
-	Unimplemented{{.Service.Name}}Server
+	Unimplemented{{.GoName .Service.Name}}Server
 	Service {{.Imports.NameOf .Service.UserType}}
 	Address string
 }
@@ -74,7 +79,7 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 	}
 
 	s := grpc.NewServer()
-	Register{{.Service.Name}}Server(s, handler)
+	Register{{.GoName .Service.Name}}Server(s, handler)
 
 	go func() {
 		select {
@@ -89,15 +94,16 @@ func (handler *{{.Name}}) Run(ctx context.Context) error {
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
-func (handler *{{$receiver}}) {{$f.Name -}}
-		(ctx context.Context, req *{{$service}}_{{$f.Name}}_Request) (*{{$service}}_{{$f.Name}}_Response, error) {
+{{$response := $.GoName (printf "%s_%s_Response" $service $f.Name) -}}
+func (handler *{{$receiver}}) {{$.GoName $f.Name -}}
+		(ctx context.Context, req *{{$.GoName (printf "%s_%s_Request" $service $f.Name)}}) (*{{$response}}, error) {
 	{{ArgVarsEquals $f}} req.unmarshall()
 	{{RetVars $f "err"}} := handler.Service.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
 		return nil, err
 	}
 
-	rsp := &{{$service}}_{{$f.Name}}_Response{}
+	rsp := &{{$response}}{}
 	rsp.marshall({{RetVars $f}})
 	return rsp, nil
 }
diff --git a/plugins/grpc/ir_grpc_client.go b/plugins/grpc/ir_grpc_client.go
index edb6ebb..64c0176 100644
--- a/plugins/grpc/ir_grpc_client.go
+++ b/plugins/grpc/ir_grpc_client.go
@@ -109,7 +109,7 @@ func (node *golangClient) AddInstantiation(builder golang.NamespaceBuilder) erro
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GRPCClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GRPCClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "addr", Type: &gocode.BasicType{Name: "string"}},
diff --git a/plugins/grpc/ir_grpc_server.go b/plugins/grpc/ir_grpc_server.go
index afc006b..626b0e3 100644
--- a/plugins/grpc/ir_grpc_server.go
+++ b/plugins/grpc/ir_grpc_server.go
@@ -101,7 +101,7 @@ func (node *golangServer) AddInstantiation(builder golang.NamespaceBuilder) erro
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GRPCServerHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GRPCServerHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
-- 
2.43.0


From fc8f85d68e3b72ebf2e6327c9b14ecdf4e6d4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 30/44] fix: clientpool: name generated pools after their
 instance

Pools of services that share an interface overwrote each other's constructor and size.
---
 plugins/clientpool/ir.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/plugins/clientpool/ir.go b/plugins/clientpool/ir.go
index 227da93..68eee0e 100644
--- a/plugins/clientpool/ir.go
+++ b/plugins/clientpool/ir.go
@@ -65,12 +65,8 @@ func (pool *ClientPool) AddInterfaces(module golang.ModuleBuilder) error {
 
 // Implements golang.GeneratesFuncs
 func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
-	/* Only generate clientpool code for the wrapped client once */
-	iface, err := golang.GetGoInterface(module, pool.Client)
-	if err != nil {
-		return err
-	}
-	if module.Visited(iface.Name + "_ClientPool") {
+	/* Only generate clientpool code for this pool once */
+	if module.Visited(pool.PoolName + ".generateFuncs") {
 		return nil
 	}
 
@@ -88,7 +84,7 @@ func (pool *ClientPool) GenerateFuncs(module golang.ModuleBuilder) error {
 	if err != nil {
 		return err
 	}
-	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.Service.BaseName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
+	namespaceBuilder, err := gogen.NewNamespaceBuilder(module, args.PoolName+"_PoolClient", args.ClientFileName, args.PackageShortName, args.ClientConstructor)
 	if err != nil {
 		return err
 	}
@@ -123,7 +119,7 @@ func (pool *ClientPool) AddInstantiation(builder golang.NamespaceBuilder) error
 		return err
 	}
 
-	builder.Import(args.PackageName)
+	args.PackageShortName = builder.Import(args.PackageName)
 
 	slog.Info(fmt.Sprintf("Instantiating ClientPool %v in %v/%v", pool.PoolName, builder.Info().Package.PackageName, builder.Info().FileName))
 	code, err := gogen.ExecuteTemplate("clientpool", buildPoolTemplate, args)
@@ -143,17 +139,18 @@ func (pool *ClientPool) getTemplateArgs(module golang.ModuleBuilder) (*templateA
 	args.WrappedClient = pool.Client.Name()
 	args.InstanceName = pool.PoolName
 	args.MaxClients = pool.N
-	args.PoolName = args.Service.Name + "_ClientPool"
+	// Each pool has its own code, because pools of the same service interface can wrap different nodes
+	args.PoolName = args.Service.Name + "_" + ir.CleanName(pool.PoolName)
 	args.PackageShortName = "pool"
 	args.PackageName = module.Info().Name + "/" + args.PackageShortName
-	args.ClientFileName = args.Service.BaseName + "_pool_client.go"
-	args.PoolFileName = args.Service.BaseName + "_pool.go"
-	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.Service.BaseName)
-	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.Service.BaseName)
+	args.ClientFileName = args.PoolName + "_client.go"
+	args.PoolFileName = args.PoolName + ".go"
+	args.ClientConstructor = fmt.Sprintf("New_%v_PoolClient", args.PoolName)
+	args.PoolConstructor = fmt.Sprintf("New_%v_Pool", args.PoolName)
 	args.Imports = gogen.NewImports(args.PackageName)
 
 	args.Imports.AddPackages(
-		"context", "fmt",
+		"context", "fmt", "sync/atomic",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool",
 		"github.com/blueprint-uservices/blueprint/runtime/plugins/golang",
 	)
@@ -178,7 +175,7 @@ type (
 )
 
 var buildPoolTemplate = `func(n *golang.Namespace) (any, error) {
-		return pool.{{.PoolConstructor}}(n), nil
+		return {{.PackageShortName}}.{{.PoolConstructor}}(n), nil
 	}`
 
 var poolTemplate = `// This file is auto-generated by the Blueprint clientpool plugin
@@ -191,14 +188,13 @@ type {{.PoolName}} struct {
 }
 
 func {{.PoolConstructor}}(parent *golang.Namespace) *{{.PoolName}} {
-	i := 0
+	var i int64 // clients can be created concurrently
 	createClient := func() ({{NameOf .Service.UserType}}, error) {
-		clientName := fmt.Sprintf("{{.InstanceName}}.%v", i)
+		clientName := fmt.Sprintf("{{.InstanceName}}.%v", atomic.AddInt64(&i, 1)-1)
 		n, err := {{.ClientConstructor}}(clientName).BuildWithParent(parent)
 		if err != nil {
 			return nil, err
 		}
-		i++
 		var client {{NameOf .Service.UserType}}
 		err = n.Get("{{.WrappedClient}}", &client)
 		return client, err
-- 
2.43.0


From 182d754b8ed1c5d6beb5fb73211de2e5de7ae2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 31/44] fix: retries: give each instance its own parameters and
 stop after the configured tries

The parameters were baked into a type shared by all services with the same interface; a non-positive maximum never called the
service, the rate limiter and the token bucket raced and lost the last error.
---
 plugins/retries/codegen.go | 220 +++++++++++++++++++++----------------
 plugins/retries/ir.go      |  41 ++++---
 2 files changed, 149 insertions(+), 112 deletions(-)

diff --git a/plugins/retries/codegen.go b/plugins/retries/codegen.go
index db70ead..9866710 100644
--- a/plugins/retries/codegen.go
+++ b/plugins/retries/codegen.go
@@ -11,7 +11,7 @@ import (
 )
 
 // code generation function called from the ir.go file.
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64) error {
+func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -20,38 +20,34 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierClient",
-		Max:     Max,
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    wrapped.Name + "_RetrierClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
-	client.Imports.AddPackages("context")
+	client.Imports.AddPackages("context", "strconv")
 
 	return generateClientCommon(&client, clientTemplate)
 }
 
-func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, delay string, limit string, useJitter bool) error {
+func generateExpBackoffClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:   pkg,
-		Service:   wrapped,
-		Name:      wrapped.BaseName + "_RetrierExpBackoffClient",
-		Imports:   gogen.NewImports(pkg.Name),
-		Delay:     delay,
-		Limit:     limit,
-		UseJitter: useJitter,
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_RetrierExpBackoffClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "math/rand", "strconv", "time")
 
 	return generateClientCommon(&client, clientExponentialBackoffTemplate)
 }
 
-func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, max_tries int64, delay string) error {
+func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
@@ -60,54 +56,47 @@ func generateFixedDelayClient(builder golang.ModuleBuilder, wrapped *gocode.Serv
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_RetrierFixedDelayClient",
-		Imports: gogen.NewImports(pkg.Name),
-		Delay:   delay,
-		Max:     max_tries,
+		Name:    wrapped.Name + "_RetrierFixedDelayClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "strconv", "time")
 
 	return generateClientCommon(&client, clientFixedDelayTemplate)
 }
 
-func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, Max int64, RetryRateLimit int64) error {
+func generateRateLimiterClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:        pkg,
-		Service:        wrapped,
-		Name:           wrapped.BaseName + "_RetrierRateLimiterClient",
-		Max:            Max,
-		RetryRateLimit: RetryRateLimit,
-		Imports:        gogen.NewImports(pkg.Name),
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_RetrierRateLimiterClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
-	client.Imports.AddPackages("context", "time")
+	client.Imports.AddPackages("context", "strconv", "sync", "time")
 
 	return generateClientCommon(&client, clientRateLimiterTemplate)
 }
 
-func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, capacity float64, retry_cost float64, replenish_amount float64) error {
+func generateTokenBucketClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:      pkg,
-		Service:      wrapped,
-		Name:         wrapped.BaseName + "_RetrierTokenBucketClient",
-		Imports:      gogen.NewImports(pkg.Name),
-		Capacity:     capacity,
-		RetryCost:    retry_cost,
-		ReplenishAmt: replenish_amount,
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_RetrierTokenBucketClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
-	client.Imports.AddPackages("context", "math")
+	client.Imports.AddPackages("context", "math", "strconv", "sync")
 
 	return generateClientCommon(&client, clientTokenBucketTemplate)
 }
@@ -117,26 +106,14 @@ func generateClientCommon(client *clientArgs, clientTemplate string) error {
 	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, clientName))
 	outputFile := filepath.Join(client.Package.Path, clientName+".go")
 
-	if client.UseJitter {
-		client.Imports.AddPackages("math/rand")
-	}
-
 	return gogen.ExecuteTemplateToFile("Retries", clientTemplate, client, outputFile)
 }
 
 type clientArgs struct {
-	Package        golang.PackageInfo
-	Service        *gocode.ServiceInterface
-	Name           string
-	Max            int64
-	Delay          string
-	Limit          string
-	UseJitter      bool
-	RetryRateLimit int64 // retried times per second
-	Capacity       float64
-	RetryCost      float64
-	ReplenishAmt   float64
-	Imports        *gogen.Imports
+	Package golang.PackageInfo
+	Service *gocode.ServiceInterface
+	Name    string
+	Imports *gogen.Imports
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by Retries Plugin
@@ -149,10 +126,14 @@ type {{.Name}} struct {
 	MaxTries int
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MaxTries = {{.Max}}
+	tries, err := strconv.Atoi(max_tries)
+	if err != nil {
+		return nil, err
+	}
+	handler.MaxTries = tries
 	return handler, nil
 }
 
@@ -160,7 +141,7 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i == 0 || i < client.MaxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 		if err == nil {
@@ -183,12 +164,15 @@ type {{.Name}} struct {
 	Delay time.Duration
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string, delay string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MaxTries = {{.Max}}
-	dur := "{{.Delay}}"
-	parsed_dur, err := time.ParseDuration(dur)
+	tries, err := strconv.Atoi(max_tries)
+	if err != nil {
+		return nil, err
+	}
+	handler.MaxTries = tries
+	parsed_dur, err := time.ParseDuration(delay)
 	if err != nil {
 		return nil, err
 	}
@@ -200,10 +184,10 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 {{$receiver := .Name -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
-	for i := 0; i < client.MaxTries; i++ {
+	for i := 0; i == 0 || i < client.MaxTries; i++ {
 		ctx = context.WithValue(ctx, "attempt_num", i+1)
 		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		if err == nil {
+		if err == nil || i+1 >= client.MaxTries {
 			return
 		}
 		time.Sleep(client.Delay)
@@ -222,41 +206,40 @@ type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	Delay time.Duration
 	Limit time.Duration
-	{{if .UseJitter -}}
-	Rand *rand.Rand
-	{{- end}}
+	UseJitter bool
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, delay string, limit string, use_jitter string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	parsed_delay, err := time.ParseDuration("{{.Delay}}")
+	parsed_delay, err := time.ParseDuration(delay)
 	if err != nil {
 		return nil, err
 	}
 	handler.Delay = parsed_delay
-	parsed_limit, err := time.ParseDuration("{{.Limit}}")
+	parsed_limit, err := time.ParseDuration(limit)
 	if err != nil {
 		return nil, err
 	}
 	handler.Limit = parsed_limit
-	
-	{{if .UseJitter -}}
-	handler.Rand = rand.New(rand.NewSource(time.Now().UnixNano()))
-	{{- end}}
+	use_jitter_val, err := strconv.ParseBool(use_jitter)
+	if err != nil {
+		return nil, err
+	}
+	handler.UseJitter = use_jitter_val
 
 	return handler, nil
 }
 
-{{if .UseJitter}}
 func (client *{{.Name}}) addJitter(d time.Duration) time.Duration {
-	return d/2 + time.Duration(client.Rand.Int63n(int64(d/2)))
+	if d < 2 {
+		return d
+	}
+	return d/2 + time.Duration(rand.Int63n(int64(d/2)))
 }
-{{end}}
 
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
-{{$useJitter := .UseJitter -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	delay := client.Delay
@@ -272,12 +255,11 @@ func (client *{{$receiver}}) {{$f.Name}}({{ArgVarsAndTypes $f "ctx context.Conte
 			return
 		}
 		
-		{{if $useJitter -}}
-		sleepDuration := client.addJitter(delay)
-		{{else -}}
 		sleepDuration := delay
-		{{end}}
-		
+		if client.UseJitter {
+			sleepDuration = client.addJitter(delay)
+		}
+
 		select {
 		case <-time.After(sleepDuration):
 			// Continue with next attempt
@@ -307,18 +289,26 @@ package {{.Package.ShortName}}
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
 	MaxTries int
+	mu sync.Mutex
 	tokens float64
 	maxTokens float64
 	refillRate float64
 	lastRefill time.Time
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, max_tries string, retry_rate_limit string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MaxTries = {{.Max}}
+	tries, err := strconv.Atoi(max_tries)
+	if err != nil {
+		return nil, err
+	}
+	handler.MaxTries = tries
 	// rateLimit is the maximum number of retries per second
-	rateLimit := float64({{.RetryRateLimit}})
+	rateLimit, err := strconv.ParseFloat(retry_rate_limit, 64)
+	if err != nil {
+		return nil, err
+	}
 	handler.tokens = rateLimit
 	handler.maxTokens = rateLimit
 	handler.refillRate = rateLimit
@@ -345,6 +335,14 @@ func (client *{{.Name}}) waitForToken(ctx context.Context) error {
 
 // acquireToken implements token bucket algorithm
 func (client *{{.Name}}) acquireToken() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+
+	// A limit of 0 means no limit
+	if client.refillRate == 0 {
+		return true
+	}
+
 	now := time.Now()
 	elapsed := now.Sub(client.lastRefill).Seconds()
 	
@@ -403,36 +401,64 @@ package {{.Package.ShortName}}
 
 type {{.Name}} struct {
 	Client {{.Imports.NameOf .Service.UserType}}
+	Capacity float64
+	RetryCost float64
+	ReplenishAmount float64
+	mu sync.Mutex
 	TokenBucket float64
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, capacity string, retry_cost string, replenish_amount string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.TokenBucket = {{.Capacity}}
+	var err error
+	if handler.Capacity, err = strconv.ParseFloat(capacity, 64); err != nil {
+		return nil, err
+	}
+	if handler.RetryCost, err = strconv.ParseFloat(retry_cost, 64); err != nil {
+		return nil, err
+	}
+	if handler.ReplenishAmount, err = strconv.ParseFloat(replenish_amount, 64); err != nil {
+		return nil, err
+	}
+	handler.TokenBucket = handler.Capacity
 	return handler, nil
 }
 
+// takeTokens removes the cost of a retry from the bucket, if it has enough tokens
+func (client *{{.Name}}) takeTokens() bool {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+	if client.TokenBucket - client.RetryCost < 1.0 {
+		return false
+	}
+	client.TokenBucket -= client.RetryCost
+	return true
+}
+
+// replenish adds tokens to the bucket after a successful retry
+func (client *{{.Name}}) replenish() {
+	client.mu.Lock()
+	defer client.mu.Unlock()
+	client.TokenBucket = math.Min(client.TokenBucket + client.ReplenishAmount, client.Capacity)
+}
+
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
-{{$node := . -}}
 {{ range $_, $f := .Service.Methods }}
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx = context.WithValue(ctx, "attempt_num", 1)
 	{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
 	if err != nil {
-		tb := client.TokenBucket
-		if tb - {{$node.RetryCost}} < 1.0 {
+		if !client.takeTokens() {
 			// Not enough tokens
 			return
-		} else {
-			client.TokenBucket = tb - {{$node.RetryCost}}
-			ctx = context.WithValue(ctx, "attempt_num", 2)
-			{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-			if err == nil {
-				client.TokenBucket = math.Min(client.TokenBucket + {{$node.ReplenishAmt}}, {{$node.Capacity}})
-				return
-			}
+		}
+		ctx = context.WithValue(ctx, "attempt_num", 2)
+		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		if err == nil {
+			client.replenish()
+			return
 		}
 	}
 	return
diff --git a/plugins/retries/ir.go b/plugins/retries/ir.go
index 5eed3b9..38bad78 100644
--- a/plugins/retries/ir.go
+++ b/plugins/retries/ir.go
@@ -67,7 +67,7 @@ func (node *RetrierClient) GenerateFuncs(builder golang.ModuleBuilder) error {
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Max)
+	return generateClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -83,15 +83,16 @@ func (node *RetrierClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "max_tries", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped, &ir.IRValue{Value: fmt.Sprint(node.Max)}})
 }
 
 // Blueprint IR node representing a Retrier with Fixed Delay
@@ -152,7 +153,7 @@ func (node *RetrierFixedDelayClient) GenerateFuncs(builder golang.ModuleBuilder)
 		return err
 	}
 
-	return generateFixedDelayClient(builder, iface, node.outputPackage, node.Max, node.Delay)
+	return generateFixedDelayClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -168,15 +169,17 @@ func (node *RetrierFixedDelayClient) AddInstantiation(builder golang.NamespaceBu
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierFixedDelayClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "max_tries", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "delay", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped, &ir.IRValue{Value: fmt.Sprint(node.Max)}, &ir.IRValue{Value: node.Delay}})
 }
 
 // Blueprint IR node representing a Retrier with Exponential Backoff
@@ -239,7 +242,7 @@ func (node *RetrierExponentialBackoffClient) GenerateFuncs(builder golang.Module
 		return err
 	}
 
-	return generateExpBackoffClient(builder, iface, node.outputPackage, node.StartDelay, node.BackoffLimit, node.UseJitter)
+	return generateExpBackoffClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -255,15 +258,18 @@ func (node *RetrierExponentialBackoffClient) AddInstantiation(builder golang.Nam
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierExpBackoffClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "delay", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "limit", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "use_jitter", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped, &ir.IRValue{Value: node.StartDelay}, &ir.IRValue{Value: node.BackoffLimit}, &ir.IRValue{Value: fmt.Sprint(node.UseJitter)}})
 }
 
 // Blueprint IR node representing a Retry Rate Limiter Client
@@ -324,7 +330,7 @@ func (node *RetrierRateLimiterClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateRateLimiterClient(builder, iface, node.outputPackage, node.Max, node.RetryRateLimit)
+	return generateRateLimiterClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -340,15 +346,17 @@ func (node *RetrierRateLimiterClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierRateLimiterClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "max_tries", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "retry_rate_limit", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped, &ir.IRValue{Value: fmt.Sprint(node.Max)}, &ir.IRValue{Value: fmt.Sprint(node.RetryRateLimit)}})
 }
 
 // Blueprint IR node representing a Retry Token Bucket Client
@@ -411,7 +419,7 @@ func (node *RetrierTokenBucketClient) GenerateFuncs(builder golang.ModuleBuilder
 		return err
 	}
 
-	return generateTokenBucketClient(builder, iface, node.outputPackage, node.Capacity, node.RetryCost, node.ReplenishAmt)
+	return generateTokenBucketClient(builder, iface, node.outputPackage)
 }
 
 func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -427,13 +435,16 @@ func (node *RetrierTokenBucketClient) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RetrierTokenBucketClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "capacity", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "retry_cost", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "replenish_amount", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped, &ir.IRValue{Value: fmt.Sprint(node.Capacity)}, &ir.IRValue{Value: fmt.Sprint(node.RetryCost)}, &ir.IRValue{Value: fmt.Sprint(node.ReplenishAmt)}})
 }
-- 
2.43.0


From 04f277f83ce3f67a86fc418a9b14a0a54b2c4312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 32/44] fix: circuitbreaker: give each instance its own
 parameters

The parameters were baked into a type shared by all services with the same interface.
---
 plugins/circuitbreaker/codegen.go | 43 +++++++++++++++----------------
 plugins/circuitbreaker/ir.go      |  9 ++++---
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/plugins/circuitbreaker/codegen.go b/plugins/circuitbreaker/codegen.go
index 698ce54..2da67a1 100644
--- a/plugins/circuitbreaker/codegen.go
+++ b/plugins/circuitbreaker/codegen.go
@@ -10,37 +10,31 @@ import (
 	"golang.org/x/exp/slog"
 )
 
-func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string, MinReqs int64, FailureRate float64, Interval string) error {
+func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, outputPackage string) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	client := clientArgs{
-		Package:     pkg,
-		Service:     wrapped,
-		Name:        wrapped.BaseName + "_CircuitBreakerClient",
-		MinReqs:     MinReqs,
-		FailureRate: FailureRate,
-		Interval:    Interval,
-		Imports:     gogen.NewImports(pkg.Name),
+		Package: pkg,
+		Service: wrapped,
+		Name:    wrapped.Name + "_CircuitBreakerClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
-	client.Imports.AddPackages("context", "time", "github.com/mercari/go-circuitbreaker")
+	client.Imports.AddPackages("context", "strconv", "time", "github.com/mercari/go-circuitbreaker")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"CircuitBreakerClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_CircuitBreakerClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.Name+"CircuitBreakerClient"))
+	outputFile := filepath.Join(client.Package.Path, wrapped.Name+"_CircuitBreakerClient.go")
 	return gogen.ExecuteTemplateToFile("CircuitBreaker", clientTemplate, client, outputFile)
 }
 
 type clientArgs struct {
-	Package     golang.PackageInfo
-	Service     *gocode.ServiceInterface
-	Name        string
-	MinReqs     int64
-	FailureRate float64
-	Interval    string
-	Imports     *gogen.Imports
+	Package golang.PackageInfo
+	Service *gocode.ServiceInterface
+	Name    string
+	Imports *gogen.Imports
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by CircuitBreaker Plugin
@@ -55,13 +49,18 @@ type {{.Name}} struct {
 	cb *circuitbreaker.CircuitBreaker
 }
 
-func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, min_reqs string, failure_rate string, interval string) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
-	handler.MinReqs = {{.MinReqs}}
-	handler.FailureRate = {{.FailureRate}}
+	var err error
+	if handler.MinReqs, err = strconv.ParseInt(min_reqs, 10, 64); err != nil {
+		return nil, err
+	}
+	if handler.FailureRate, err = strconv.ParseFloat(failure_rate, 64); err != nil {
+		return nil, err
+	}
 
-	dur, err := time.ParseDuration("{{.Interval}}")
+	dur, err := time.ParseDuration(interval)
 	if err != nil {
 		return nil, err
 	}
diff --git a/plugins/circuitbreaker/ir.go b/plugins/circuitbreaker/ir.go
index 21c06ce..a134505 100644
--- a/plugins/circuitbreaker/ir.go
+++ b/plugins/circuitbreaker/ir.go
@@ -71,7 +71,7 @@ func (node *CircuitBreakerClient) GenerateFuncs(builder golang.ModuleBuilder) er
 		return err
 	}
 
-	return generateClient(builder, iface, node.outputPackage, node.Min_Reqs, node.FailureRate, node.Interval)
+	return generateClient(builder, iface, node.outputPackage)
 }
 
 func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuilder) error {
@@ -87,13 +87,16 @@ func (node *CircuitBreakerClient) AddInstantiation(builder golang.NamespaceBuild
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_CircuitBreakerClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
+				{Name: "min_reqs", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "failure_rate", Type: &gocode.BasicType{Name: "string"}},
+				{Name: "interval", Type: &gocode.BasicType{Name: "string"}},
 			},
 		},
 	}
 
-	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped})
+	return builder.DeclareConstructor(node.InstanceName, constructor, []ir.IRNode{node.Wrapped, &ir.IRValue{Value: fmt.Sprint(node.Min_Reqs)}, &ir.IRValue{Value: fmt.Sprint(node.FailureRate)}, &ir.IRValue{Value: node.Interval}})
 }
-- 
2.43.0


From ed3d3ce70f486224a85b81546ccc65944ec21255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 33/44] fix: timeouts: do not race with a request that outlives
 its timeout

The abandoned request wrote to the results being returned and then blocked forever.
---
 plugins/timeouts/codegen.go | 21 +++++++++++++--------
 plugins/timeouts/ir.go      |  2 +-
 plugins/timeouts/wiring.go  |  1 +
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/plugins/timeouts/codegen.go b/plugins/timeouts/codegen.go
index 99e71d6..e46cc69 100644
--- a/plugins/timeouts/codegen.go
+++ b/plugins/timeouts/codegen.go
@@ -20,13 +20,13 @@ func generateClient(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterfa
 	client := clientArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_TimeoutClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    wrapped.Name + "_TimeoutClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "time", "errors")
-	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.BaseName+"_TimeoutClient"))
-	outputFile := filepath.Join(client.Package.Path, wrapped.BaseName+"_TimeoutClient.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", client.Package.PackageName, wrapped.Name+"_TimeoutClient"))
+	outputFile := filepath.Join(client.Package.Path, wrapped.Name+"_TimeoutClient.go")
 
 	return gogen.ExecuteTemplateToFile("Timeouts", clientTemplate, client, outputFile)
 }
@@ -65,10 +65,15 @@ func New_{{.Name}} (ctx context.Context, client {{.Imports.NameOf .Service.UserT
 func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	ctx, cancel := context.WithDeadline(ctx, time.Now().Add(client.Timeout))
 	defer cancel()
-	is_complete := make(chan bool)
+	// The request may still be running when it gets timed out, so it doesn't write to the return values directly
+	var result struct {
+		{{range $i, $ret := $f.Returns}}ret{{$i}} {{NameOf $ret.Type}}
+		{{end}}err error
+	}
+	is_complete := make(chan struct{})
 	go func() {
-		{{RetVars $f "err"}} = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
-		is_complete <- true
+		{{range $i, $ret := $f.Returns}}result.ret{{$i}}, {{end}}result.err = client.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+		close(is_complete)
 	}()
 
 	// Wait till we either complete the request or it gets timed out
@@ -77,7 +82,7 @@ func (client *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Co
 		err = errors.New("Request was timed out")
 		return
 	case <-is_complete:
-		return
+		return {{range $i, $ret := $f.Returns}}result.ret{{$i}}, {{end}}result.err
 	}
 }
 {{end}}
diff --git a/plugins/timeouts/ir.go b/plugins/timeouts/ir.go
index 05bc8e6..9ef7e41 100644
--- a/plugins/timeouts/ir.go
+++ b/plugins/timeouts/ir.go
@@ -92,7 +92,7 @@ func (node *TimeoutClient) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_TimeoutClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_TimeoutClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
diff --git a/plugins/timeouts/wiring.go b/plugins/timeouts/wiring.go
index 8d9577b..6e00ad1 100644
--- a/plugins/timeouts/wiring.go
+++ b/plugins/timeouts/wiring.go
@@ -37,6 +37,7 @@ func Add(spec wiring.WiringSpec, serviceName string, timeout string) {
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
 		slog.Error("Unable to add timeouts to " + serviceName + " as it is not a pointer")
+		return
 	}
 
 	clientNext := ptr.AddSrcModifier(spec, clientWrapper)
-- 
2.43.0


From e017a1c56dad07a06ad48092c494294be63e7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 34/44] fix: loadbalancer: refer to service types by their
 import name and reject an empty balancer

---
 plugins/loadbalancer/codegen.go     | 31 ++++++++++++-----------------
 plugins/loadbalancer/ir_balancer.go | 11 ++++------
 2 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/plugins/loadbalancer/codegen.go b/plugins/loadbalancer/codegen.go
index 8776476..6fa1e85 100644
--- a/plugins/loadbalancer/codegen.go
+++ b/plugins/loadbalancer/codegen.go
@@ -11,31 +11,26 @@ import (
 )
 
 type templateArgs struct {
-	Package   golang.PackageInfo
-	IfaceName string
-	Name      string
-	BaseType  string
-	Service   *gocode.ServiceInterface
-	Imports   *gogen.Imports
+	Package golang.PackageInfo
+	Name    string
+	Service *gocode.ServiceInterface
+	Imports *gogen.Imports
 }
 
-func generateLBServer(builder golang.ModuleBuilder, iface *gocode.ServiceInterface, client_iface *gocode.ServiceInterface, pkgname string) error {
+func generateLBServer(builder golang.ModuleBuilder, iface *gocode.ServiceInterface, pkgname string) error {
 	pkg, err := builder.CreatePackage(pkgname)
 	if err != nil {
 		return err
 	}
 
 	templ := templateArgs{
-		Package:   pkg,
-		IfaceName: iface.String(),
-		Name:      iface.BaseName + "LoadBalancer",
-		BaseType:  client_iface.String(),
-		Service:   iface,
-		Imports:   gogen.NewImports(pkg.Name),
+		Package: pkg,
+		Name:    iface.Name + "LoadBalancer",
+		Service: iface,
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	templ.Imports.AddPackages("context", "sync")
-	templ.Imports.AddType(&iface.UserType)
 	slog.Info(fmt.Sprintf("Generating %v/%v", templ.Package.PackageName, templ.Name))
 	outputFile := filepath.Join(templ.Package.Path, templ.Name+".go")
 	return gogen.ExecuteTemplateToFile("LoadBalancer", lbServerTemplate, templ, outputFile)
@@ -47,13 +42,13 @@ package {{.Package.ShortName}}
 {{.Imports}}
 
 type {{.Name}} struct {
-	Clients []{{.BaseType}}
+	Clients []{{NameOf .Service.UserType}}
 	m sync.Mutex
 	idx int
 	N int
 }
 
-func New{{.Name}} (ctx context.Context, clients ...{{.BaseType}}) ({{.IfaceName}}, error) {
+func New{{.Name}} (ctx context.Context, clients ...{{NameOf .Service.UserType}}) ({{NameOf .Service.UserType}}, error) {
 	handler := &{{.Name}}{}
 	handler.Clients = clients
 	handler.N = len(clients)
@@ -61,7 +56,7 @@ func New{{.Name}} (ctx context.Context, clients ...{{.BaseType}}) ({{.IfaceName}
 }
 
 // Round Robin policy for the load balancer
-func (balancer *{{.Name}}) pickClient() ({{.BaseType}}, error) {
+func (balancer *{{.Name}}) pickClient() ({{NameOf .Service.UserType}}, error) {
 	balancer.m.Lock()
 	defer balancer.m.Unlock()
 	client := balancer.Clients[balancer.idx]
@@ -71,7 +66,7 @@ func (balancer *{{.Name}}) pickClient() ({{.BaseType}}, error) {
 
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
-{{$bType := .BaseType}}
+{{$bType := NameOf .Service.UserType}}
 {{ range $_, $f := .Service.Methods }}
 func (balancer *{{$receiver}}) {{$f.Name}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	// Pick the client to use
diff --git a/plugins/loadbalancer/ir_balancer.go b/plugins/loadbalancer/ir_balancer.go
index a1ae914..3be3d72 100644
--- a/plugins/loadbalancer/ir_balancer.go
+++ b/plugins/loadbalancer/ir_balancer.go
@@ -67,6 +67,9 @@ func initDynamicLBNode[ServiceType any](n *dynamicLBNode, name string) error {
 }
 
 func (n *dynamicLBHandler) Init(arg_nodes []ir.IRNode) error {
+	if len(arg_nodes) == 0 {
+		return fmt.Errorf("load balancer %s has no service instances to balance between", n.InstanceName)
+	}
 	clients := []golang.Service{}
 	for _, n := range arg_nodes {
 		if c, ok := n.(golang.Service); ok {
@@ -144,13 +147,7 @@ func (node *dynamicLBHandler) GenerateFuncs(builder golang.ModuleBuilder) error
 		return err
 	}
 
-	client_iface, err := golang.GetGoInterface(builder, node.Args[0])
-	if err != nil {
-		return err
-	}
-
-	return generateLBServer(builder, iface, client_iface, node.PkgName)
-
+	return generateLBServer(builder, iface, node.PkgName)
 }
 
 type lbClientTemplateArgs struct {
-- 
2.43.0


From d026b6622df5d17b89caddd0599b410f96429835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 35/44] fix: opentelemetry, healthchecker: place wrappers so
 that generated packages do not import each other

Stacking the two in different orders on different services made the generated packages import each other in a cycle, and
client wrappers stripped the last argument of methods that have no trace context.
---
 plugins/golang/helpers.go             | 16 ++++++
 plugins/healthchecker/codegen.go      |  6 +-
 plugins/healthchecker/ir.go           | 14 +++--
 plugins/opentelemetry/ir_ot_client.go | 80 ++++++++++++++++++---------
 plugins/opentelemetry/ir_ot_server.go | 26 ++++++---
 5 files changed, 98 insertions(+), 44 deletions(-)

diff --git a/plugins/golang/helpers.go b/plugins/golang/helpers.go
index ff34c4c..4a3cfa8 100644
--- a/plugins/golang/helpers.go
+++ b/plugins/golang/helpers.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint"
 	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/service"
@@ -40,6 +41,21 @@ func GetGoInterface(ctx ir.BuildContext, node ir.IRNode) (*gocode.ServiceInterfa
 	}
 }
 
+// Returns the name of the package, within module, for code that wraps iface and declares a new interface.  By
+// default this is packageName.  If iface itself was generated into a different package of the module, then the
+// package is named after both, because the wrappers of different services can be stacked in different orders
+// and their packages must not import each other.
+func WrapperPackage(module ModuleBuilder, iface *gocode.ServiceInterface, packageName string) string {
+	wrappedPackage, isGenerated := strings.CutPrefix(iface.Package, module.Info().Name+"/")
+	if !isGenerated {
+		return packageName
+	}
+	if wrappedPackage == packageName || strings.HasSuffix(wrappedPackage, "_"+packageName) {
+		return wrappedPackage
+	}
+	return wrappedPackage + "_" + packageName
+}
+
 // A convenience function that can be called by other Blueprint plugins.
 // Looks up the specified moduleName (assuming it is a dependency of the current module),
 // with the intention of adding it as a dependency to the provided build context.
diff --git a/plugins/healthchecker/codegen.go b/plugins/healthchecker/codegen.go
index 4c6cf61..066c686 100644
--- a/plugins/healthchecker/codegen.go
+++ b/plugins/healthchecker/codegen.go
@@ -20,9 +20,9 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_HealthCheckHandler",
+		Name:      wrapped_service.Name + "_HealthCheckHandler",
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
@@ -51,7 +51,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Iface:     iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
diff --git a/plugins/healthchecker/ir.go b/plugins/healthchecker/ir.go
index 3bf72ba..9bc13d2 100644
--- a/plugins/healthchecker/ir.go
+++ b/plugins/healthchecker/ir.go
@@ -38,7 +38,11 @@ func (node *HealthCheckerServerWrapper) AddInterfaces(builder golang.ModuleBuild
 	if err != nil {
 		return err
 	}
-	err = generateClientSideInterfaces(builder, iface, node.outputPackage)
+	wrapped, err := golang.GetGoInterface(builder, node.Wrapped)
+	if err != nil {
+		return err
+	}
+	err = generateClientSideInterfaces(builder, iface, golang.WrapperPackage(builder, wrapped, node.outputPackage))
 	if err != nil {
 		return err
 	}
@@ -68,7 +72,7 @@ func (node *HealthCheckerServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("Healthchecker expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_HealthChecker", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_HealthChecker", iface.Name), module_ctx.Info().Name+"/"+golang.WrapperPackage(module_ctx, iface, node.outputPackage), iface)
 	health_check_method := &gocode.Func{}
 	health_check_method.Name = "Health"
 	health_check_method.Returns = append(health_check_method.Returns, gocode.Variable{Type: &gocode.BasicType{Name: "string"}})
@@ -89,7 +93,7 @@ func (node *HealthCheckerServerWrapper) GenerateFuncs(builder golang.ModuleBuild
 	if err != nil {
 		return err
 	}
-	err = generateServerHandler(builder, iface, service, node.outputPackage)
+	err = generateServerHandler(builder, iface, service, golang.WrapperPackage(builder, service, node.outputPackage))
 	if err != nil {
 		return err
 	}
@@ -108,9 +112,9 @@ func (node *HealthCheckerServerWrapper) AddInstantiation(builder golang.Namespac
 	}
 
 	constructor := &gocode.Constructor{
-		Package: builder.Module().Info().Name + "/" + node.outputPackage,
+		Package: builder.Module().Info().Name + "/" + golang.WrapperPackage(builder.Module(), iface, node.outputPackage),
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HealthCheckHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HealthCheckHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/opentelemetry/ir_ot_client.go b/plugins/opentelemetry/ir_ot_client.go
index d187921..eceb3fe 100644
--- a/plugins/opentelemetry/ir_ot_client.go
+++ b/plugins/opentelemetry/ir_ot_client.go
@@ -43,6 +43,20 @@ func (node *OpenTelemetryClientWrapper) String() string {
 	return node.Name() + " = OTClientWrapper(" + node.Wrapped.Name() + ", " + node.Collector.Name() + ")"
 }
 
+// Wrappers with and without client spans are different types
+func (node *OpenTelemetryClientWrapper) wrapperType() string {
+	if node.GenClientSpans {
+		return "OTClientWrapper"
+	}
+	return "OTClientWrapperNoSpans"
+}
+
+// Reports whether the last argument of a method is the trace context that the server wrapper adds
+func takesTraceCtx(method gocode.Func) bool {
+	n := len(method.Arguments)
+	return n > 0 && method.Arguments[n-1].Name == traceCtxArg
+}
+
 func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.ServiceInterface, error) {
 	iface, err := golang.GetGoInterface(ctx, node.Wrapped)
 	if err != nil {
@@ -52,10 +66,13 @@ func (node *OpenTelemetryClientWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTClientWrapper expected build context to be a ModuleBuiler, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_%vInterface", iface.Name, node.wrapperType()), module_ctx.Info().Name+"/"+golang.WrapperPackage(module_ctx, iface, node.outputPackage), iface)
 	for name, method := range i.Methods {
-		method.Arguments = method.Arguments[:len(method.Arguments)-1]
-		i.Methods[name] = method
+		// Methods added by other plugins between the server and client wrappers don't receive the trace context
+		if takesTraceCtx(method) {
+			method.Arguments = method.Arguments[:len(method.Arguments)-1]
+			i.Methods[name] = method
+		}
 	}
 	return i, nil
 }
@@ -93,7 +110,7 @@ func (node *OpenTelemetryClientWrapper) GenerateFuncs(builder golang.ModuleBuild
 		return nil
 	}
 
-	return generateClientHandler(builder, wrapped_iface, impl_iface, coll_iface, node.outputPackage, node.GenClientSpans)
+	return generateClientHandler(builder, wrapped_iface, impl_iface, coll_iface, golang.WrapperPackage(builder, wrapped_iface, node.outputPackage), node.wrapperType(), node.GenClientSpans)
 }
 
 // Part of code generation compilation pass; provides instantiation snippet
@@ -114,9 +131,9 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 	}
 
 	constructor := &gocode.Constructor{
-		Package: builder.Module().Info().Name + "/" + node.outputPackage,
+		Package: builder.Module().Info().Name + "/" + golang.WrapperPackage(builder.Module(), iface, node.outputPackage),
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTClientWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_%v", iface.Name, node.wrapperType()),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -131,22 +148,26 @@ func (node *OpenTelemetryClientWrapper) AddInstantiation(builder golang.Namespac
 func (node *OpenTelemetryClientWrapper) ImplementsGolangNode()    {}
 func (node *OpenTelemetryClientWrapper) ImplementsGolangService() {}
 
-func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, impl *gocode.ServiceInterface, coll_iface *gocode.ServiceInterface, outputPackage string, genClientSpans bool) error {
+func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.ServiceInterface, impl *gocode.ServiceInterface, coll_iface *gocode.ServiceInterface, outputPackage string, wrapperType string, genClientSpans bool) error {
 	pkg, err := builder.CreatePackage(outputPackage)
 	if err != nil {
 		return err
 	}
 
 	server := &clientArgs{
-		Package:         pkg,
-		Service:         wrapped,
-		Impl:            impl,
-		CollIface:       coll_iface,
-		Name:            wrapped.BaseName + "_OTClientWrapper",
-		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_OTServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
-		GenSpans:        genClientSpans,
+		Package:   pkg,
+		Service:   wrapped,
+		Impl:      impl,
+		CollIface: coll_iface,
+		Name:      wrapped.Name + "_" + wrapperType,
+		IfaceName: impl.Name,
+		Imports:   gogen.NewImports(pkg.PackageName),
+		GenSpans:  genClientSpans,
+	}
+
+	server.TraceCtx = make(map[string]bool)
+	for name, method := range wrapped.Methods {
+		server.TraceCtx[name] = takesTraceCtx(method)
 	}
 
 	server.Imports.AddPackages("context", "go.opentelemetry.io/otel/trace")
@@ -157,15 +178,15 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 }
 
 type clientArgs struct {
-	Package         golang.PackageInfo
-	Service         *gocode.ServiceInterface
-	Impl            *gocode.ServiceInterface
-	CollIface       *gocode.ServiceInterface
-	Name            string
-	IfaceName       string
-	ServerIfaceName string
-	Imports         *gogen.Imports
-	GenSpans        bool
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Impl      *gocode.ServiceInterface
+	CollIface *gocode.ServiceInterface
+	Name      string
+	IfaceName string
+	Imports   *gogen.Imports
+	GenSpans  bool
+	TraceCtx  map[string]bool // the methods that take the trace context
 }
 
 var clientSideTemplate = `// Blueprint: Auto-generated by OT Plugin
@@ -180,11 +201,11 @@ type {{.IfaceName}} interface {
 }
 
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
+	Client {{.Imports.NameOf .Service.UserType}}
 	CollClient {{.Imports.NameOf .CollIface.UserType}}
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client {{.Imports.NameOf .Service.UserType}}, coll_client {{.Imports.NameOf .CollIface.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
 	handler.CollClient = coll_client
@@ -195,6 +216,7 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}, coll_client
 {{$basename := .Service.BaseName -}}
 {{$receiver := .Name -}}
 {{$genSpans := .GenSpans -}}
+{{$traceCtx := .TraceCtx -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
 	span := trace.SpanFromContext(ctx)
@@ -204,8 +226,12 @@ func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.C
 	ctx, span = tr.Start(ctx, "{{$basename}}Client_{{$f.Name}}")
 	defer span.End()
 	{{end}}
+	{{if index $traceCtx $f.Name -}}
 	trace_ctx, _ := span.SpanContext().MarshalJSON()
 	{{RetVars $f "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}}, string(trace_ctx))
+	{{else -}}
+	{{RetVars $f "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{end -}}
 	if err != nil {
 		span.RecordError(err)
 	}
diff --git a/plugins/opentelemetry/ir_ot_server.go b/plugins/opentelemetry/ir_ot_server.go
index 5e5bede..e1cea35 100644
--- a/plugins/opentelemetry/ir_ot_server.go
+++ b/plugins/opentelemetry/ir_ot_server.go
@@ -14,6 +14,9 @@ import (
 	"golang.org/x/exp/slog"
 )
 
+// The argument that the server wrapper adds to methods
+const traceCtxArg = "traceCtx"
+
 // Blueprint IR Node that wraps the server-side of a service to generate ot compatible logs
 type OpenTelemetryServerWrapper struct {
 	golang.Service
@@ -62,9 +65,9 @@ func (node *OpenTelemetryServerWrapper) genInterface(ctx ir.BuildContext) (*goco
 	if !valid {
 		return nil, blueprint.Errorf("OTServerWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTServerWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_OTServerWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+golang.WrapperPackage(module_ctx, iface, node.outputPackage), iface)
 	for name, method := range i.Methods {
-		method.AddArgument(gocode.Variable{Name: "traceCtx", Type: &gocode.BasicType{Name: "string"}})
+		method.AddArgument(gocode.Variable{Name: traceCtxArg, Type: &gocode.BasicType{Name: "string"}})
 		i.Methods[name] = method
 	}
 	return i, nil
@@ -90,7 +93,12 @@ func (node *OpenTelemetryServerWrapper) AddInterfaces(builder golang.ModuleBuild
 		return nil
 	}
 
-	err = generateClientSideInterfaces(builder, iface, node.outputPackage)
+	wrapped_iface, err := golang.GetGoInterface(builder, node.Wrapped)
+	if err != nil {
+		return err
+	}
+
+	err = generateClientSideInterfaces(builder, iface, golang.WrapperPackage(builder, wrapped_iface, node.outputPackage))
 	if err != nil {
 		return err
 	}
@@ -121,7 +129,7 @@ func (node *OpenTelemetryServerWrapper) GenerateFuncs(builder golang.ModuleBuild
 		return nil
 	}
 
-	return generateServerHandler(builder, wrapped_iface, impl_iface, coll_iface, node.outputPackage)
+	return generateServerHandler(builder, wrapped_iface, impl_iface, coll_iface, golang.WrapperPackage(builder, wrapped_iface, node.outputPackage))
 }
 
 // Part of code generation compilation pass; provides instantiation snippet
@@ -142,9 +150,9 @@ func (node *OpenTelemetryServerWrapper) AddInstantiation(builder golang.Namespac
 	}
 
 	constructor := &gocode.Constructor{
-		Package: builder.Module().Info().Name + "/" + node.outputPackage,
+		Package: builder.Module().Info().Name + "/" + golang.WrapperPackage(builder.Module(), iface, node.outputPackage),
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_OTServerWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_OTServerWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
@@ -177,9 +185,9 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Service:   wrapped,
 		Impl:      impl,
 		CollIface: coll_iface,
-		Name:      wrapped.BaseName + "_OTServerWrapper",
+		Name:      wrapped.Name + "_OTServerWrapper",
 		IfaceName: impl.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	env := &envArgs{
@@ -210,7 +218,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Impl:      iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
-- 
2.43.0


From 633a1ab99ddb647bb33184b7cb85f2bf5ba34332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 36/44] fix: name generated wrappers after the interface they
 wrap

Wrappers whose interface was itself extended by a wrapper collided with the wrapper of the plain interface, and packages imported
themselves.
---
 plugins/faultinjector/delay/codegen.go         | 4 ++--
 plugins/faultinjector/delay/ir.go              | 2 +-
 plugins/faultinjector/probabilistic/codegen.go | 4 ++--
 plugins/faultinjector/probabilistic/ir.go      | 2 +-
 plugins/faultinjector/wiring.go                | 2 ++
 plugins/golang/gogen/namespacebuilder.go       | 2 +-
 plugins/govector/ir_clientwrapper.go           | 2 +-
 plugins/govector/ir_serverwrapper.go           | 4 ++--
 plugins/http/httpcodegen/clientgen.go          | 4 ++--
 plugins/http/httpcodegen/servergen.go          | 8 ++++----
 plugins/http/ir_http_client.go                 | 2 +-
 plugins/http/ir_http_server.go                 | 2 +-
 plugins/latency/codegen.go                     | 8 ++++----
 plugins/latency/ir.go                          | 2 +-
 plugins/latency/wiring.go                      | 1 +
 15 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/plugins/faultinjector/delay/codegen.go b/plugins/faultinjector/delay/codegen.go
index 2549306..aeeb0e6 100644
--- a/plugins/faultinjector/delay/codegen.go
+++ b/plugins/faultinjector/delay/codegen.go
@@ -20,9 +20,9 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_RandomDelayHandler",
+		Name:      wrapped_service.Name + "_RandomDelayHandler",
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "time", "math/rand", "strconv")
diff --git a/plugins/faultinjector/delay/ir.go b/plugins/faultinjector/delay/ir.go
index 645308f..17d4d24 100644
--- a/plugins/faultinjector/delay/ir.go
+++ b/plugins/faultinjector/delay/ir.go
@@ -69,7 +69,7 @@ func (node *RandomDelayServerWrapper) AddInstantiation(builder golang.NamespaceB
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_RandomDelayHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_RandomDelayHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/faultinjector/probabilistic/codegen.go b/plugins/faultinjector/probabilistic/codegen.go
index 6100eba..8f5c7ea 100644
--- a/plugins/faultinjector/probabilistic/codegen.go
+++ b/plugins/faultinjector/probabilistic/codegen.go
@@ -20,9 +20,9 @@ func generateServerHandler(builder golang.ModuleBuilder, iface *gocode.ServiceIn
 		Package:   pkg,
 		Service:   wrapped_service,
 		Iface:     iface,
-		Name:      wrapped_service.BaseName + "_ProbabilisticFailureHandler",
+		Name:      wrapped_service.Name + "_ProbabilisticFailureHandler",
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "math/rand", "errors", "strconv")
diff --git a/plugins/faultinjector/probabilistic/ir.go b/plugins/faultinjector/probabilistic/ir.go
index be852ea..8f4a80e 100644
--- a/plugins/faultinjector/probabilistic/ir.go
+++ b/plugins/faultinjector/probabilistic/ir.go
@@ -69,7 +69,7 @@ func (node *ServerWrapper) AddInstantiation(builder golang.NamespaceBuilder) err
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_ProbabilisticFailureHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_ProbabilisticFailureHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/faultinjector/wiring.go b/plugins/faultinjector/wiring.go
index b18f68a..44d961d 100644
--- a/plugins/faultinjector/wiring.go
+++ b/plugins/faultinjector/wiring.go
@@ -30,6 +30,7 @@ func AddRandomDelay(spec wiring.WiringSpec, serviceName string, maxDelay int64)
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
 		slog.Error("Unable to add random delay node to " + serviceName)
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
@@ -61,6 +62,7 @@ func AddProbabilisticFailures(spec wiring.WiringSpec, serviceName string, probab
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
 		slog.Error("Unable to add probabilistic failures node to " + serviceName)
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
diff --git a/plugins/golang/gogen/namespacebuilder.go b/plugins/golang/gogen/namespacebuilder.go
index 946812b..6c97b7f 100644
--- a/plugins/golang/gogen/namespacebuilder.go
+++ b/plugins/golang/gogen/namespacebuilder.go
@@ -56,7 +56,7 @@ func NewNamespaceBuilder(module golang.ModuleBuilder, name, fileName, packagePat
 		FileName:       fileName,
 		FilePath:       filepath.Join(pkg.Path, fileName),
 		FuncName:       funcName,
-		Imports:        NewImports(pkg.Path),
+		Imports:        NewImports(pkg.PackageName),
 		Declarations:   make(map[string]string),
 		Required:       make(map[string]string),
 		Optional:       make(map[string]string),
diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index fc6206a..4d43493 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -129,7 +129,7 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Name:            wrapped.BaseName + "_GoVecClientWrapper",
 		IfaceName:       impl.Name,
 		ServerIfaceName: wrapped.BaseName + "_GoVecServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.Name),
+		Imports:         gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
diff --git a/plugins/govector/ir_serverwrapper.go b/plugins/govector/ir_serverwrapper.go
index 34c03d3..47d1778 100644
--- a/plugins/govector/ir_serverwrapper.go
+++ b/plugins/govector/ir_serverwrapper.go
@@ -136,7 +136,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Impl:      impl,
 		Name:      wrapped.BaseName + "_GoVecServerWrapper",
 		IfaceName: impl.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
@@ -165,7 +165,7 @@ func generateClientSideInterfaces(builder golang.ModuleBuilder, iface *gocode.Se
 		Package:   pkg,
 		Impl:      iface,
 		IfaceName: iface.Name,
-		Imports:   gogen.NewImports(pkg.Name),
+		Imports:   gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context")
diff --git a/plugins/http/httpcodegen/clientgen.go b/plugins/http/httpcodegen/clientgen.go
index 8433785..21034dc 100644
--- a/plugins/http/httpcodegen/clientgen.go
+++ b/plugins/http/httpcodegen/clientgen.go
@@ -20,8 +20,8 @@ func GenerateClient(builder golang.ModuleBuilder, service *gocode.ServiceInterfa
 	client := &clientArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_HTTPClient",
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    service.Name + "_HTTPClient",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	client.Imports.AddPackages(
diff --git a/plugins/http/httpcodegen/servergen.go b/plugins/http/httpcodegen/servergen.go
index 38bb273..092262d 100644
--- a/plugins/http/httpcodegen/servergen.go
+++ b/plugins/http/httpcodegen/servergen.go
@@ -22,14 +22,14 @@ func GenerateServerHandler(builder golang.ModuleBuilder, service *gocode.Service
 	server := &serverArgs{
 		Package: pkg,
 		Service: service,
-		Name:    service.BaseName + "_HTTPServerHandler",
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    service.Name + "_HTTPServerHandler",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "encoding/json", "net/http", "github.com/gorilla/mux")
 
-	slog.Info(fmt.Sprintf("Generating %v/%v_HTTPServer.go", server.Package.PackageName, service.BaseName))
-	outputFile := filepath.Join(server.Package.Path, service.BaseName+"_HTTPServer.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v_HTTPServer.go", server.Package.PackageName, service.Name))
+	outputFile := filepath.Join(server.Package.Path, service.Name+"_HTTPServer.go")
 	return gogen.ExecuteTemplateToFile("HTTPServer", serverTemplate, server, outputFile)
 }
 
diff --git a/plugins/http/ir_http_client.go b/plugins/http/ir_http_client.go
index e020a3c..0f753e6 100644
--- a/plugins/http/ir_http_client.go
+++ b/plugins/http/ir_http_client.go
@@ -91,7 +91,7 @@ func (node *GolangHttpClient) AddInstantiation(builder golang.NamespaceBuilder)
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HTTPClient", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HTTPClient", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "addr", Type: &gocode.BasicType{Name: "string"}},
diff --git a/plugins/http/ir_http_server.go b/plugins/http/ir_http_server.go
index 66b1107..5120a50 100644
--- a/plugins/http/ir_http_server.go
+++ b/plugins/http/ir_http_server.go
@@ -90,7 +90,7 @@ func (node *golangHttpServer) AddInstantiation(builder golang.NamespaceBuilder)
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_HTTPServerHandler", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_HTTPServerHandler", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
diff --git a/plugins/latency/codegen.go b/plugins/latency/codegen.go
index c6a0c33..8c92f11 100644
--- a/plugins/latency/codegen.go
+++ b/plugins/latency/codegen.go
@@ -20,13 +20,13 @@ func generateServerWrapper(builder golang.ModuleBuilder, wrapped *gocode.Service
 	server := serverArgs{
 		Package: pkg,
 		Service: wrapped,
-		Name:    wrapped.BaseName + "_LatencyInjector",
-		Imports: gogen.NewImports(pkg.Name),
+		Name:    wrapped.Name + "_LatencyInjector",
+		Imports: gogen.NewImports(pkg.PackageName),
 	}
 
 	server.Imports.AddPackages("context", "time")
-	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, wrapped.BaseName+"_LatencyInjector"))
-	outputFile := filepath.Join(server.Package.Path, wrapped.BaseName+"_LatencyInjector.go")
+	slog.Info(fmt.Sprintf("Generating %v/%v", server.Package.PackageName, wrapped.Name+"_LatencyInjector"))
+	outputFile := filepath.Join(server.Package.Path, wrapped.Name+"_LatencyInjector.go")
 
 	return gogen.ExecuteTemplateToFile("LatencyInjector", serverTemplate, server, outputFile)
 }
diff --git a/plugins/latency/ir.go b/plugins/latency/ir.go
index 8d315e9..2d78c39 100644
--- a/plugins/latency/ir.go
+++ b/plugins/latency/ir.go
@@ -91,7 +91,7 @@ func (node *LatencyInjectorWrapper) AddInstantiation(builder golang.NamespaceBui
 	constructor := &gocode.Constructor{
 		Package: builder.Module().Info().Name + "/" + node.outputPackage,
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_LatencyInjector", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_LatencyInjector", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "server", Type: iface},
diff --git a/plugins/latency/wiring.go b/plugins/latency/wiring.go
index 1810f46..13165bb 100644
--- a/plugins/latency/wiring.go
+++ b/plugins/latency/wiring.go
@@ -37,6 +37,7 @@ func AddFixed(spec wiring.WiringSpec, serviceName string, latency string) {
 	ptr := pointer.GetPointer(spec, serviceName)
 	if ptr == nil {
 		slog.Error("Unable to add a latencyinjector to " + serviceName + " as it is not a pointer")
+		return
 	}
 
 	serverNext := ptr.AddDstModifier(spec, serverWrapper)
-- 
2.43.0


From 907dd9e1483969ee750f80dd97975e1f311ef29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 37/44] fix: wiring programs built with -trimpath looped
 forever looking for go.mod

---
 blueprint/pkg/blueprint/logging/logging.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blueprint/pkg/blueprint/logging/logging.go b/blueprint/pkg/blueprint/logging/logging.go
index 57552c0..1878181 100644
--- a/blueprint/pkg/blueprint/logging/logging.go
+++ b/blueprint/pkg/blueprint/logging/logging.go
@@ -161,8 +161,13 @@ func findFileInParentDirectory(dir string, fileName string) string {
 		if _, err := os.Stat(filepath.Join(dir, fileName)); err == nil {
 			return filepath.Clean(dir)
 		}
-		dir, _ = filepath.Split(filepath.Clean(dir))
-		dir = filepath.Clean(dir)
+		parent, _ := filepath.Split(filepath.Clean(dir))
+		parent = filepath.Clean(parent)
+		if parent == dir {
+			// A relative path has no more parents, e.g. source files of binaries built with -trimpath
+			break
+		}
+		dir = parent
 	}
 	return ""
 }
-- 
2.43.0


From 56c57ee89a7727b137df4dff3893e1672729f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 38/44] fix: simplenosqldb: InsertMany inserts nothing if a
 document cannot be encoded

---
 runtime/plugins/simplenosqldb/nosqldb.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/simplenosqldb/nosqldb.go b/runtime/plugins/simplenosqldb/nosqldb.go
index 79d9303..da705e1 100644
--- a/runtime/plugins/simplenosqldb/nosqldb.go
+++ b/runtime/plugins/simplenosqldb/nosqldb.go
@@ -128,12 +128,18 @@ func ensureID(d bson.D) bson.D {
 }
 
 func (db *SimpleCollection) InsertMany(ctx context.Context, documents []interface{}) error {
-	for _, d := range documents {
-		err := db.InsertOne(ctx, d)
+	var ds []bson.D
+	for _, document := range documents {
+		d, err := toBson(document)
 		if err != nil {
-			return err
+			return err // nothing is inserted
 		}
+		ds = append(ds, ensureID(d))
 	}
+
+	db.mutex.Lock()
+	defer db.mutex.Unlock()
+	db.items = append(db.items, ds...)
 	return nil
 }
 
-- 
2.43.0


From 1f4a21a3432ab551d0b38b12f85d715053c4a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 39/44] fix: redis cache: Mget panicked on absent keys; key and
 value lists of different lengths are errors

---
 runtime/plugins/redis/cache.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/redis/cache.go b/runtime/plugins/redis/cache.go
index 399669e..26d242e 100644
--- a/runtime/plugins/redis/cache.go
+++ b/runtime/plugins/redis/cache.go
@@ -4,6 +4,7 @@ package redis
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 
 	redis_impl "github.com/go-redis/redis/v8"
 )
@@ -59,12 +60,23 @@ func (r *RedisCache) Delete(ctx context.Context, key string) error {
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mget received %v keys but %v values", len(keys), len(values))
+	}
+	if len(keys) == 0 {
+		return nil
+	}
 	result, err := r.client.MGet(ctx, keys...).Result()
 	if err != nil {
 		return err
 	}
 	for idx, res := range result {
-		err := json.Unmarshal([]byte(res.(string)), values[idx])
+		val, exists := res.(string)
+		if !exists {
+			// Key doesn't exist
+			continue
+		}
+		err := json.Unmarshal([]byte(val), values[idx])
 		if err != nil {
 			return err
 		}
@@ -74,6 +86,12 @@ func (r *RedisCache) Mget(ctx context.Context, keys []string, values []interface
 
 // Implements the backend.Cache interface
 func (r *RedisCache) Mset(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mset received %v keys but %v values", len(keys), len(values))
+	}
+	if len(keys) == 0 {
+		return nil
+	}
 	kv_map := make(map[string]string)
 	for idx, key := range keys {
 		val, err := json.Marshal(values[idx])
-- 
2.43.0


From 07dc229e770eba9840673c1b54707d1750e89791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 40/44] fix: memcached cache: absent keys can be deleted and
 counted; a repeated key of Mset keeps its last value

---
 runtime/plugins/memcached/cache.go | 39 +++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/runtime/plugins/memcached/cache.go b/runtime/plugins/memcached/cache.go
index ef91b11..0b4fc03 100644
--- a/runtime/plugins/memcached/cache.go
+++ b/runtime/plugins/memcached/cache.go
@@ -4,6 +4,7 @@ package memcached
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"sync"
 
 	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
@@ -48,17 +49,35 @@ func (m *Memcached) Get(ctx context.Context, key string, value interface{}) (boo
 
 // Implements the backend.Cache interface
 func (m *Memcached) Incr(ctx context.Context, key string) (int64, error) {
-	val, err := m.Client.Increment(key, 1)
-	return int64(val), err
+	for {
+		val, err := m.Client.Increment(key, 1)
+		if err != memcache.ErrCacheMiss {
+			return int64(val), err
+		}
+		// Key doesn't exist yet; counting starts at 0
+		err = m.Client.Add(&memcache.Item{Key: key, Value: []byte("1")})
+		if err != memcache.ErrNotStored {
+			return 1, err
+		}
+		// Somebody else created the key first
+	}
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Delete(ctx context.Context, key string) error {
-	return m.Client.Delete(key)
+	err := m.Client.Delete(key)
+	if err == memcache.ErrCacheMiss {
+		// Key doesn't exist
+		return nil
+	}
+	return err
 }
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{}) error {
+	if len(keys) != len(values) {
+		return fmt.Errorf("mget received %v keys but %v values", len(keys), len(values))
+	}
 	val_map, err := m.Client.GetMulti(keys)
 	if err != nil {
 		return err
@@ -76,10 +95,18 @@ func (m *Memcached) Mget(ctx context.Context, keys []string, values []interface{
 
 // Implements the backend.Cache interface
 func (m *Memcached) Mset(ctx context.Context, keys []string, values []interface{}) error {
-	var wg sync.WaitGroup
-	wg.Add(len(keys))
-	err_chan := make(chan error, len(keys))
+	if len(keys) != len(values) {
+		return fmt.Errorf("mset received %v keys but %v values", len(keys), len(values))
+	}
+	// If a key is repeated, its last value is the one to store
+	last := make(map[string]int)
 	for idx, key := range keys {
+		last[key] = idx
+	}
+	var wg sync.WaitGroup
+	wg.Add(len(last))
+	err_chan := make(chan error, len(last))
+	for key, idx := range last {
 		go func(key string, val interface{}) {
 			defer wg.Done()
 			err_chan <- m.Put(ctx, key, val)
-- 
2.43.0


From 11e1152e780fccb6de337840c73b0fae57ce6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 41/44] fix: rabbitmq queue: only strings could be popped;
 clients that only push were handed items

---
 runtime/plugins/rabbitmq/queue.go | 53 ++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/runtime/plugins/rabbitmq/queue.go b/runtime/plugins/rabbitmq/queue.go
index 1768eaa..e649c6c 100644
--- a/runtime/plugins/rabbitmq/queue.go
+++ b/runtime/plugins/rabbitmq/queue.go
@@ -4,8 +4,8 @@ package rabbitmq
 import (
 	"context"
 	"encoding/json"
+	"sync"
 
-	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
 	amqp "github.com/rabbitmq/amqp091-go"
 )
 
@@ -15,6 +15,7 @@ type RabbitMQ struct {
 	queue amqp.Queue
 	ch    *amqp.Channel
 	conn  *amqp.Connection
+	mu    sync.Mutex
 	msgs  <-chan amqp.Delivery
 }
 
@@ -32,21 +33,33 @@ func NewRabbitMQ(ctx context.Context, addr string, queue_name string) (*RabbitMQ
 	if err != nil {
 		return nil, err
 	}
-	msgs, err := ch.Consume(q.Name, "", true, false, false, false, nil)
-	if err != nil {
-		return nil, err
-	}
-	return &RabbitMQ{name: queue_name, conn: conn, ch: ch, queue: q, msgs: msgs}, nil
+	return &RabbitMQ{name: queue_name, conn: conn, ch: ch, queue: q}, nil
 }
 
 func getBytes(key interface{}) ([]byte, error) {
 	return json.Marshal(key)
 }
 
-func decodeBytes(val []byte) (interface{}, error) {
-	var res interface{}
-	err := json.Unmarshal(val, &res)
-	return res, err
+// Receives messages from the queue.  Starts when the first item is popped, because messages are handed to
+// all consumers of a queue in turn, and a client that only pushes must not be handed any.
+func (q *RabbitMQ) consume() (<-chan amqp.Delivery, error) {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	if q.msgs == nil {
+		msgs, err := q.ch.Consume(q.queue.Name, "", true, false, false, false, nil)
+		if err != nil {
+			return nil, err
+		}
+		q.msgs = msgs
+	}
+	return q.msgs, nil
+}
+
+func receive(v amqp.Delivery, ok bool, dst interface{}) (bool, error) {
+	if !ok {
+		return false, amqp.ErrClosed
+	}
+	return true, json.Unmarshal(v.Body, dst)
 }
 
 // Push implements backend.Queue
@@ -61,22 +74,18 @@ func (q *RabbitMQ) Push(ctx context.Context, item interface{}) (bool, error) {
 
 // Pop implements backend.Queue
 func (q *RabbitMQ) Pop(ctx context.Context, dst interface{}) (bool, error) {
+	msgs, err := q.consume()
+	if err != nil {
+		return false, err
+	}
 	select {
-	case v := <-q.msgs:
-		val, err := decodeBytes(v.Body)
-		if err != nil {
-			return true, err
-		}
-		return true, backend.CopyResult(val, dst)
+	case v, ok := <-msgs:
+		return receive(v, ok, dst)
 	default:
 		{
 			select {
-			case v := <-q.msgs:
-				val, err := decodeBytes(v.Body)
-				if err != nil {
-					return true, err
-				}
-				return true, backend.CopyResult(val, dst)
+			case v, ok := <-msgs:
+				return receive(v, ok, dst)
 			case <-ctx.Done():
 				return false, nil
 			}
-- 
2.43.0


From af4e28889c5629282b75a274efb94a150b7483dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 42/44] fix: slogger: Logf recorded messages at the wrong level

---
 runtime/plugins/slogger/log.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/plugins/slogger/log.go b/runtime/plugins/slogger/log.go
index 46b8ff0..f7a79d9 100644
--- a/runtime/plugins/slogger/log.go
+++ b/runtime/plugins/slogger/log.go
@@ -38,10 +38,24 @@ func (l *SLogger) Error(ctx context.Context, format string, args ...any) (contex
 // Implements backend.Logger
 func (l *SLogger) Logf(ctx context.Context, opts backend.LogOptions, format string, args ...any) (context.Context, error) {
 	msg := fmt.Sprintf(format, args...)
-	slog.Log(ctx, slog.Level(opts.Level), msg)
+	slog.Log(ctx, level(opts.Level), msg)
 	return ctx, nil
 }
 
+// The slog level that corresponds to a logger priority
+func level(p backend.Priority) slog.Level {
+	switch p {
+	case backend.DEBUG:
+		return slog.LevelDebug
+	case backend.WARN:
+		return slog.LevelWarn
+	case backend.ERROR:
+		return slog.LevelError
+	default:
+		return slog.LevelInfo
+	}
+}
+
 // Returns a new logger object
 func NewSLogger(ctx context.Context) (*SLogger, error) {
 	l := &SLogger{}
-- 
2.43.0


From 4aa7d629ecac88665d46b5460ca7a45557d75e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 43/44] fix: govector: place and name wrappers like
 opentelemetry's; client wrappers panicked on methods that have no vector
 clock

---
 plugins/govector/ir_clientwrapper.go | 64 ++++++++++++++++++----------
 plugins/govector/ir_serverwrapper.go | 22 +++++++---
 2 files changed, 56 insertions(+), 30 deletions(-)

diff --git a/plugins/govector/ir_clientwrapper.go b/plugins/govector/ir_clientwrapper.go
index 4d43493..34f6978 100644
--- a/plugins/govector/ir_clientwrapper.go
+++ b/plugins/govector/ir_clientwrapper.go
@@ -49,6 +49,12 @@ func newGovecClientWrapper(name string, wrapped golang.Service) (*GovecClientWra
 	return node, nil
 }
 
+// Reports whether the last argument of a method is the vector clock that the server wrapper adds
+func takesGovecCtx(method gocode.Func) bool {
+	n := len(method.Arguments)
+	return n > 0 && method.Arguments[n-1].Name == govecCtxArg
+}
+
 func (node *GovecClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.ServiceInterface, error) {
 	iface, err := golang.GetGoInterface(ctx, node.Wrapped)
 	if err != nil {
@@ -58,11 +64,14 @@ func (node *GovecClientWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	if !valid {
 		return nil, blueprint.Errorf("GoVecClientWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecClientWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+golang.WrapperPackage(module_ctx, iface, node.outputPackage), iface)
 	for name, method := range i.Methods {
-		method.Arguments = method.Arguments[:len(method.Arguments)-1]
-		method.Returns = method.Returns[:len(method.Returns)-1]
-		i.Methods[name] = method
+		// Methods added by other plugins between the server and client wrappers don't pass vector clocks
+		if takesGovecCtx(method) {
+			method.Arguments = method.Arguments[:len(method.Arguments)-1]
+			method.Returns = method.Returns[:len(method.Returns)-1]
+			i.Methods[name] = method
+		}
 	}
 	return i, nil
 }
@@ -79,9 +88,9 @@ func (node *GovecClientWrapper) AddInstantiation(builder golang.NamespaceBuilder
 	}
 
 	constructor := &gocode.Constructor{
-		Package: builder.Module().Info().Name + "/" + node.outputPackage,
+		Package: builder.Module().Info().Name + "/" + golang.WrapperPackage(builder.Module(), iface, node.outputPackage),
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GoVecClientWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GoVecClientWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "client", Type: iface},
@@ -103,7 +112,7 @@ func (node *GovecClientWrapper) GenerateFuncs(builder golang.ModuleBuilder) erro
 		return err
 	}
 
-	return generateClientHandler(builder, wrapped_iface, impl_iface, node.outputPackage)
+	return generateClientHandler(builder, wrapped_iface, impl_iface, golang.WrapperPackage(builder, wrapped_iface, node.outputPackage))
 }
 
 // Implements service.ServiceNode
@@ -123,13 +132,17 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 	}
 
 	client := &clientArgs{
-		Package:         pkg,
-		Service:         wrapped,
-		Impl:            impl,
-		Name:            wrapped.BaseName + "_GoVecClientWrapper",
-		IfaceName:       impl.Name,
-		ServerIfaceName: wrapped.BaseName + "_GoVecServerWrapperInterface",
-		Imports:         gogen.NewImports(pkg.PackageName),
+		Package:   pkg,
+		Service:   wrapped,
+		Impl:      impl,
+		Name:      wrapped.Name + "_GoVecClientWrapper",
+		IfaceName: impl.Name,
+		Imports:   gogen.NewImports(pkg.PackageName),
+	}
+
+	client.GovecCtx = make(map[string]bool)
+	for name, method := range wrapped.Methods {
+		client.GovecCtx[name] = takesGovecCtx(method)
 	}
 
 	client.Imports.AddPackages("context", "github.com/blueprint-uservices/blueprint/runtime/plugins/govector", "errors")
@@ -140,13 +153,13 @@ func generateClientHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 }
 
 type clientArgs struct {
-	Package         golang.PackageInfo
-	Service         *gocode.ServiceInterface
-	Impl            *gocode.ServiceInterface
-	Name            string
-	IfaceName       string
-	ServerIfaceName string
-	Imports         *gogen.Imports
+	Package   golang.PackageInfo
+	Service   *gocode.ServiceInterface
+	Impl      *gocode.ServiceInterface
+	Name      string
+	IfaceName string
+	Imports   *gogen.Imports
+	GovecCtx  map[string]bool // the methods that pass vector clocks
 }
 
 var clientTemplate = `// Blueprint: Auto-generated by GoVector Plugin
@@ -161,11 +174,11 @@ type {{.IfaceName}} interface {
 }
 
 type {{.Name}} struct {
-	Client {{.ServerIfaceName}}
+	Client {{.Imports.NameOf .Service.UserType}}
 	logger *govector.GoVecLogger
 }
 
-func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}) (*{{.Name}}, error) {
+func New_{{.Name}}(ctx context.Context, client {{.Imports.NameOf .Service.UserType}}) (*{{.Name}}, error) {
 	handler := &{{.Name}}{}
 	handler.Client = client
 	handler.logger = govector.GetLogger()
@@ -177,13 +190,18 @@ func New_{{.Name}}(ctx context.Context, client {{.ServerIfaceName}}) (*{{.Name}}
 
 {{$service := .Service.Name -}}
 {{$receiver := .Name -}}
+{{$govecCtx := .GovecCtx -}}
 {{range $_, $f := .Impl.Methods}}
 func (handler *{{$receiver}}) {{$f.Name -}} ({{ArgVarsAndTypes $f "ctx context.Context"}}) ({{RetVarsAndTypes $f "err error"}}) {
+	{{if index $govecCtx $f.Name -}}
 	var govec_bytes, govec_ret []byte
 	govec_bytes, _ = handler.logger.GetSendCtx(ctx, "Preparing to make request for function {{$f.Name}}")
 	{{RetVars $f "govec_ret" "err"}} = handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}}, govec_bytes)
 	handler.logger.UnpackReceiveCtx(ctx, "Unpacking response from server", govec_ret)
 	return
+	{{else -}}
+	return handler.Client.{{$f.Name}}({{ArgVars $f "ctx"}})
+	{{end -}}
 }
 {{end}}
 `
diff --git a/plugins/govector/ir_serverwrapper.go b/plugins/govector/ir_serverwrapper.go
index 47d1778..a31e4dd 100644
--- a/plugins/govector/ir_serverwrapper.go
+++ b/plugins/govector/ir_serverwrapper.go
@@ -13,6 +13,9 @@ import (
 	"golang.org/x/exp/slog"
 )
 
+// The argument that the server wrapper adds to methods
+const govecCtxArg = "govecctx"
+
 // Blueprint IR node that wraps the server-side of a service to generate govec compatible logs
 type GovecServerWrapper struct {
 	golang.Service
@@ -58,9 +61,9 @@ func (node *GovecServerWrapper) genInterface(ctx ir.BuildContext) (*gocode.Servi
 	if !valid {
 		return nil, blueprint.Errorf("GoVecServerWrapper expected build context to be a ModuleBuilder, got %v", ctx)
 	}
-	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecServerWrapperInterface", iface.BaseName), module_ctx.Info().Name+"/"+node.outputPackage, iface)
+	i := gocode.CopyServiceInterface(fmt.Sprintf("%v_GoVecServerWrapperInterface", iface.Name), module_ctx.Info().Name+"/"+golang.WrapperPackage(module_ctx, iface, node.outputPackage), iface)
 	for name, method := range i.Methods {
-		method.AddArgument(gocode.Variable{Name: "govecctx", Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
+		method.AddArgument(gocode.Variable{Name: govecCtxArg, Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
 		method.AddRetVar(gocode.Variable{Name: "", Type: &gocode.Slice{SliceOf: &gocode.BasicType{Name: "byte"}}})
 		i.Methods[name] = method
 	}
@@ -77,9 +80,9 @@ func (node *GovecServerWrapper) AddInstantiation(builder golang.NamespaceBuilder
 		return err
 	}
 	constructor := &gocode.Constructor{
-		Package: builder.Module().Info().Name + "/" + node.outputPackage,
+		Package: builder.Module().Info().Name + "/" + golang.WrapperPackage(builder.Module(), iface, node.outputPackage),
 		Func: gocode.Func{
-			Name: fmt.Sprintf("New_%v_GoVecServerWrapper", iface.BaseName),
+			Name: fmt.Sprintf("New_%v_GoVecServerWrapper", iface.Name),
 			Arguments: []gocode.Variable{
 				{Name: "ctx", Type: &gocode.UserType{Package: "context", Name: "Context"}},
 				{Name: "service", Type: iface},
@@ -101,7 +104,7 @@ func (node *GovecServerWrapper) GenerateFuncs(builder golang.ModuleBuilder) erro
 		return err
 	}
 
-	return generateServerHandler(builder, wrapped_iface, impl_iface, node.outputPackage)
+	return generateServerHandler(builder, wrapped_iface, impl_iface, golang.WrapperPackage(builder, wrapped_iface, node.outputPackage))
 }
 
 // Implements service.ServiceNode
@@ -116,7 +119,12 @@ func (node *GovecServerWrapper) AddInterfaces(builder golang.ModuleBuilder) erro
 		return err
 	}
 
-	err = generateClientSideInterfaces(builder, iface, node.outputPackage)
+	wrapped_iface, err := golang.GetGoInterface(builder, node.Wrapped)
+	if err != nil {
+		return err
+	}
+
+	err = generateClientSideInterfaces(builder, iface, golang.WrapperPackage(builder, wrapped_iface, node.outputPackage))
 	if err != nil {
 		return err
 	}
@@ -134,7 +142,7 @@ func generateServerHandler(builder golang.ModuleBuilder, wrapped *gocode.Service
 		Package:   pkg,
 		Service:   wrapped,
 		Impl:      impl,
-		Name:      wrapped.BaseName + "_GoVecServerWrapper",
+		Name:      wrapped.Name + "_GoVecServerWrapper",
 		IfaceName: impl.Name,
 		Imports:   gogen.NewImports(pkg.PackageName),
 	}
-- 
2.43.0


From 342cc5e534fa043326de49d51a912a635f298d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 44/44] fix: mongodb client: Upsert replaces documents; every
 cursor reads one result and all results

---
 runtime/plugins/mongodb/nosqldb.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/runtime/plugins/mongodb/nosqldb.go b/runtime/plugins/mongodb/nosqldb.go
index b8dab45..19c015e 100644
--- a/runtime/plugins/mongodb/nosqldb.go
+++ b/runtime/plugins/mongodb/nosqldb.go
@@ -153,9 +153,8 @@ func (mc *MongoCollection) UpdateMany(ctx context.Context, filter bson.D, update
 
 // Implements the [backend.NoSQLCollection] interface
 func (mc *MongoCollection) Upsert(ctx context.Context, filter bson.D, document interface{}) (bool, error) {
-	update := bson.D{{"$set", document}}
-	opts := options.Update().SetUpsert(true)
-	result, err := mc.collection.UpdateOne(ctx, filter, update, opts)
+	opts := options.Replace().SetUpsert(true)
+	result, err := mc.collection.ReplaceOne(ctx, filter, document, opts)
 	if result == nil {
 		return false, err
 	} else {
@@ -201,6 +200,11 @@ func (mr *MongoCursor) One(ctx context.Context, obj interface{}) (bool, error) {
 		} else {
 			return false, v.Err()
 		}
+	case *mongo.Cursor:
+		if !v.Next(ctx) {
+			return false, v.Err()
+		}
+		return true, v.Decode(obj)
 	default:
 		return false, errors.New("result has no decode method")
 	}
@@ -212,6 +216,19 @@ func (mr *MongoCursor) All(ctx context.Context, objs interface{}) error {
 	switch v := mr.underlyingResult.(type) {
 	case *mongo.Cursor:
 		return v.All(ctx, objs)
+	case *mongo.SingleResult:
+		var docs []interface{}
+		raw, err := v.Raw()
+		if err == nil {
+			docs = append(docs, raw)
+		} else if err != mongo.ErrNoDocuments {
+			return err
+		}
+		cursor, err := mongo.NewCursorFromDocuments(docs, nil, nil)
+		if err != nil {
+			return err
+		}
+		return cursor.All(ctx, objs)
 	default:
 		return errors.New("result does not return a Cursor")
 	}
-- 
2.43.0

