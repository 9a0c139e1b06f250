package rtnosql

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/mongodb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"
	"verif/harness/h"
)

var mongoOnce sync.Once
var theMongod *mongod
var theMongo backend.NoSQLDatabase

func mongo(c *h.Case) (*mongod, backend.NoSQLDatabase) {
	mongoOnce.Do(func() {
		theMongod = newMongod()
		db, err := mongodb.NewMongoDB(bg, theMongod.addr)
		if err != nil {
			c.Failf("NewMongoDB: %v", err)
		}
		theMongo = db
	})
	theMongod.reset()
	return theMongod, theMongo
}

func genProjection(t *rapid.T) []bson.D {
	if rapid.IntRange(0, 3).Draw(t, "project") > 0 {
		return nil
	}
	on := rapid.Bool().Draw(t, "include")
	p := bson.D{}
	for _, f := range []string{"a", "b", "c", "_id"} {
		if rapid.Bool().Draw(t, "project "+f) {
			v := on
			if f == "_id" {
				v = on && rapid.Bool().Draw(t, "id on")
			}
			if rapid.Bool().Draw(t, "numeric") {
				p = append(p, bson.E{Key: f, Value: map[bool]int{true: 1, false: 0}[v]})
			} else {
				p = append(p, bson.E{Key: f, Value: v})
			}
		}
	}
	return []bson.D{p}
}

func TestC43_Histories(t *testing.T) {
	h.Check(t, h.Opts{Quick: 1200, Thorough: 60000, Rule: "a history of inserts, finds, updates, replacements, upserts and deletes over 4 collections of a stand-in MongoDB server that returns results in batches of random sizes, compared with reference collections after every step; some steps meet a server that reports an error or breaks the connection; non-trivial = some write changed or removed a document of a collection with at least two"}, func(t *rapid.T, c *h.Case) {
		m, db := mongo(c)
		sizes := rapid.SliceOfN(rapid.IntRange(1, 4), 8, 8).Draw(t, "batches")
		nb := 0
		m.batch = func() int { nb++; return sizes[nb%len(sizes)] }
		names := [][2]string{{"d1", "c1"}, {"d1", "c2"}, {"d2", "c1"}, {"d2", "c2"}}
		model := map[[2]string][]bson.D{}
		nextID := 0
		changed := false
		newDoc := func(withId bool) bson.D {
			d := genD(t, 2)
			if withId {
				d = withID(nextID, d)
				nextID++
			}
			return d
		}
		steps := rapid.IntRange(1, 14).Draw(t, "steps")
		for s := steps; s > 0; s-- {
			k := names[0]
			if first := s == steps; !first && rapid.IntRange(0, 2).Draw(t, "elsewhere") == 0 {
				k = rapid.SampledFrom(names).Draw(t, "coll")
			}
			cl := coll(c, db, k[0], k[1])
			docs := model[k]
			usePool(docs)
			first := func(f bson.D) int {
				for i := range docs {
					if matchQuery(docs[i], f) == yes {
						return i
					}
				}
				return -1
			}
			pickFilter := func() bson.D {
				if len(docs) > 0 && rapid.IntRange(0, 2).Draw(t, "byid") == 0 {
					d := rapid.SampledFrom(docs).Draw(t, "target")
					id, _ := get(d, "_id")
					return bson.D{{Key: "_id", Value: id}}
				}
				for {
					f := genFilter(t, 1)
					ok := true
					for _, d := range docs {
						ok = ok && matchQuery(d, f) != unk
					}
					if ok {
						return f
					}
				}
			}
			keepID := func(old, repl bson.D) bson.D {
				if _, has := get(repl, "_id"); has {
					return repl
				}
				id, _ := get(old, "_id")
				return append(bson.D{{Key: "_id", Value: id}}, repl...)
			}
			broken := ""
			if s < steps && rapid.IntRange(0, 9).Draw(t, "broken") == 0 {
				broken = rapid.SampledFrom([]string{"command", "write", "command", "write", "command", "write", "command", "write", "close"}).Draw(t, "how")
				m.mu.Lock()
				m.fail, m.failFor = broken, 100
				m.mu.Unlock()
				c.Label("server: " + broken)
			}
			c.Logf("%s.%s (server: %q)", k[0], k[1], broken)
			// expect checks the outcome of a call that the server should have carried out, unless it is broken
			expect := func(what string, err error, wantErr bool) bool {
				if broken != "" {
					if err == nil {
						c.Failf("%s returned no error, but the server did not carry it out (%s)", what, broken)
					}
					return false
				}
				if (err != nil) != wantErr {
					c.Failf("%s returned error %v, expected an error: %v", what, err, wantErr)
				}
				return err == nil
			}
			op := 2
			if s < steps || rapid.IntRange(0, 4).Draw(t, "start") == 0 {
				op = rapid.IntRange(0, 12).Draw(t, "op")
			}
			switch op {
			case 0, 1:
				d := newDoc(true)
				if len(docs) > 0 && rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
					id, _ := get(docs[0], "_id")
					d[0].Value = id
				}
				id, _ := get(d, "_id")
				in := asInput(t, d)
				taken := false
				for _, e := range docs {
					o, _ := get(e, "_id")
					taken = taken || eqVal(o, id)
				}
				c.Logf("  insert %s", show(in))
				if expect("InsertOne", cl.InsertOne(bg, in), taken) {
					model[k] = append(docs, d)
				}
			case 2, 3:
				var in []any
				var ds []bson.D
				for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
					d := newDoc(true)
					ds = append(ds, d)
					in = append(in, asInput(t, d))
				}
				c.Logf("  insertMany %s", show(ds))
				if expect("InsertMany", cl.InsertMany(bg, in), false) {
					model[k] = append(docs, ds...)
				}
			case 4:
				f, p := pickFilter(), genProjection(t)
				c.Logf("  findOne %s %s", show(f), show(p))
				cur, err := cl.FindOne(bg, f, p...)
				if !expect("FindOne", err, false) {
					break
				}
				i := first(f)
				var want []bson.D
				if i >= 0 {
					want = append(want, docs[i])
					if len(p) > 0 {
						want[0] = project(docs[i], p[0])
					}
				}
				checkOne(c, "FindOne.One", cur, want)
				if rapid.Bool().Draw(t, "all") {
					cur, err := cl.FindOne(bg, f, p...)
					expect("FindOne", err, false)
					checkContent(c, "FindOne.All", readAll(c, cur), want)
				}
			case 5, 6:
				f, p := pickFilter(), genProjection(t)
				c.Logf("  findMany %s %s", show(f), show(p))
				cur, err := cl.FindMany(bg, f, p...)
				if !expect("FindMany", err, false) {
					break
				}
				var want []bson.D
				for _, d := range docs {
					if matchQuery(d, f) == yes {
						if len(p) > 0 {
							d = project(d, p[0])
						}
						want = append(want, d)
					}
				}
				if rapid.IntRange(0, 2).Draw(t, "one") == 0 {
					checkOne(c, "FindMany.One", cur, want)
				} else {
					checkContent(c, "FindMany.All", readAll(c, cur), want)
				}
				if p != nil {
					if _, err := cl.FindMany(bg, f, p[0], bson.D{}); err == nil {
						c.Failf("FindMany accepted two projections")
					}
				}
			case 7, 8:
				f, u := pickFilter(), genUpdate(t)
				many := rapid.Bool().Draw(t, "many")
				c.Logf("  update many=%v %s %s", many, show(f), show(u))
				after := append([]bson.D{}, docs...)
				skip, wantErr, matched, modified := false, false, 0, 0
				for i, d := range docs {
					if matchQuery(d, f) == yes {
						x, err := applyUpdate(d, u)
						if ue, ok := err.(updErr); ok {
							skip = skip || ue.unknown
							wantErr = true
							break
						}
						after[i] = x
						matched++
						if !eqVal(d, x) {
							modified++
						}
						if !many {
							break
						}
					}
				}
				if skip {
					m.mu.Lock()
					m.failFor = 0
					m.mu.Unlock()
					continue
				}
				var got int
				var err error
				if many {
					got, err = cl.UpdateMany(bg, f, u)
				} else {
					got, err = cl.UpdateOne(bg, f, u)
				}
				if expect("update", err, wantErr) && got != matched && got != modified {
					c.Failf("update returned %d; %d documents match, %d were modified", got, matched, modified)
				}
				if broken == "" {
					model[k] = after
					changed = changed || modified > 0 && len(docs) > 1
				}
			case 9, 10:
				f, d := pickFilter(), newDoc(rapid.Bool().Draw(t, "id"))
				i := first(f)
				ups := rapid.Bool().Draw(t, "upsert")
				wantErr := false
				if _, has := get(d, "_id"); has && i >= 0 {
					id, _ := get(docs[i], "_id")
					if rapid.IntRange(0, 4).Draw(t, "otherid") > 0 {
						d[0].Value = id // a replacement keeps its document's _id
					} else {
						wantErr = true
					}
				}
				if len(d) > 0 && len(d[0].Key) > 0 && d[0].Key[0] == '$' {
					m.mu.Lock()
					m.failFor = 0
					m.mu.Unlock()
					continue
				}
				in := asInput(t, d)
				c.Logf("  replace upsert=%v %s %s", ups, show(f), show(in))
				if ups {
					byID := len(f) == 1 && f[0].Key == "_id"
					upd, err := cl.Upsert(bg, f, in)
					if expect("Upsert", err, wantErr) {
						if upd != (i >= 0) {
							c.Failf("Upsert returned %v; expected %v", upd, i >= 0)
						}
						if i < 0 {
							got := find(c, cl, bson.D{})
							if _, has := get(d, "_id"); !has && len(got) == len(docs)+1 {
								id, _ := get(got[len(docs)], "_id")
								d = append(bson.D{{Key: "_id", Value: id}}, d...)
							}
							_ = byID
							model[k] = append(docs, d)
							break
						}
					} else {
						break
					}
				} else {
					n, err := cl.ReplaceOne(bg, f, in)
					if !expect("ReplaceOne", err, wantErr) {
						break
					}
					if (n == 1) != (i >= 0) || n > 1 || n < 0 {
						c.Failf("ReplaceOne returned %v; expected a match: %v", n, i >= 0)
					}
				}
				if i >= 0 {
					after := append([]bson.D{}, docs...)
					after[i] = keepID(docs[i], d)
					model[k] = after
					changed = changed || len(docs) > 1
				}
			case 11:
				f := pickFilter()
				many := rapid.Bool().Draw(t, "many")
				c.Logf("  delete many=%v %s", many, show(f))
				var err error
				if many {
					err = cl.DeleteMany(bg, f)
				} else {
					err = cl.DeleteOne(bg, f)
				}
				if !expect("delete", err, false) {
					break
				}
				after := []bson.D{}
				gone := false
				for _, d := range docs {
					if matchQuery(d, f) == yes && (many || !gone) {
						gone = true
						continue
					}
					after = append(after, d)
				}
				model[k] = after
				changed = changed || gone && len(docs) > 1
			case 12:
				id := primitive.NewObjectID()
				d := append(bson.D{{Key: "_id", Value: id}}, genD(t, 2)...)
				d2 := append(bson.D{{Key: "_id", Value: id}}, genD(t, 1)...)
				c.Logf("  upsertID %s then %s", show(d), show(d2))
				u1, err1 := cl.UpsertID(bg, id, clone(d))
				if !expect("UpsertID", err1, false) {
					break
				}
				u2, err2 := cl.UpsertID(bg, id, clone(d2))
				if err2 != nil || u1 || !u2 {
					c.Failf("UpsertID returned %v %v, then %v %v", u1, err1, u2, err2)
				}
				model[k] = append(docs, d2)
			}
			m.mu.Lock()
			m.fail, m.failFor = "", 0
			m.mu.Unlock()
			if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
				c.Logf("  values that cannot be encoded")
				u := unencodable{make(chan int)}
				_, e1 := cl.Upsert(bg, bson.D{}, u)
				_, e2 := cl.ReplaceOne(bg, bson.D{}, u)
				_, e3 := cl.UpdateOne(bg, bson.D{}, bson.D{{Key: "$set", Value: bson.D{{Key: "a", Value: make(chan int)}}}})
				_, e4 := cl.FindMany(bg, bson.D{{Key: "a", Value: make(chan int)}})
				for i, err := range []error{cl.InsertOne(bg, u), cl.InsertMany(bg, []any{bson.D{{Key: "_id", Value: "x"}}, u}), e1, e2, e3, e4} {
					if err == nil {
						c.Failf("a value that cannot be encoded was accepted (%d)", i)
					}
				}
			}
			if m.bad != "" {
				c.Failf("the client sent %s", m.bad)
			}
			for _, n := range names {
				checkContent(c, "contents of "+n[0]+"."+n[1], find(c, coll(c, db, n[0], n[1]), bson.D{}), model[n])
			}
		}
		c.NonTrivial(changed)
	})
}

// checkOne reads a cursor result by result.
func checkOne(c *h.Case, what string, cur backend.NoSQLCursor, want []bson.D) {
	var one bson.D
	has, err := cur.One(bg, &one)
	if err != nil || has != (len(want) > 0) || has && !eqVal(one, want[0]) {
		c.Failf("%s: %v %v %s, expected %s", what, has, err, show(one), show(want))
	}
}

func TestC43_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 120, Thorough: 4000, Rule: "2-8 goroutines share a client: each inserts documents, increments a counter of its own and one that all share, and reads its documents back; non-trivial = always"}, func(t *rapid.T, c *h.Case) {
		m, db := mongo(c)
		m.batch = func() int { return 2 }
		g, n := rapid.IntRange(2, 8).Draw(t, "goroutines"), rapid.IntRange(1, 10).Draw(t, "n")
		c.Logf("%d goroutines, %d rounds", g, n)
		cl := coll(c, db, "d", "c")
		if err := cl.InsertOne(bg, bson.D{{Key: "_id", Value: "all"}, {Key: "n", Value: 0}}); err != nil {
			c.Failf("InsertOne: %v", err)
		}
		errs := make(chan string, g*n*4)
		var wg sync.WaitGroup
		for w := 0; w < g; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl, err := db.GetCollection(bg, "d", "c")
				if err != nil {
					errs <- err.Error()
					return
				}
				for i := 0; i < n; i++ {
					if err := cl.InsertOne(bg, bson.D{{Key: "_id", Value: fmt.Sprintf("%d-%d", w, i)}, {Key: "w", Value: w}, {Key: "i", Value: i}}); err != nil {
						errs <- err.Error()
					}
					if k, err := cl.UpdateOne(bg, bson.D{{Key: "_id", Value: "all"}}, bson.D{{Key: "$inc", Value: bson.D{{Key: "n", Value: 1}}}}); err != nil || k != 1 {
						errs <- fmt.Sprintf("UpdateOne: %d, %v", k, err)
					}
					cur, err := cl.FindMany(bg, bson.D{{Key: "w", Value: w}})
					if err != nil {
						errs <- err.Error()
						continue
					}
					var got []struct{ W, I int }
					if err := cur.All(bg, &got); err != nil || len(got) != i+1 {
						errs <- fmt.Sprintf("%d of %d documents, %v", len(got), i+1, err)
						continue
					}
					for j, r := range got {
						if r.W != w || r.I != j {
							errs <- fmt.Sprintf("document %d of %d is %v", j, w, r)
						}
					}
				}
			}()
		}
		wg.Wait()
		select {
		case e := <-errs:
			c.Failf("%s", e)
		default:
		}
		var all struct{ N int }
		cur, err := cl.FindOne(bg, bson.D{{Key: "_id", Value: "all"}})
		if err == nil {
			_, err = cur.One(bg, &all)
		}
		if err != nil || all.N != g*n {
			c.Failf("the counter is %d, %v, expected %d", all.N, err, g*n)
		}
		c.NonTrivial(true)
	})
}

func TestC43_ServerGone(t *testing.T) {
	h.Check(t, h.Opts{Quick: 14, Thorough: 240, Rule: "a client of a server that is not there, or no longer, with a context that ends: every operation returns an error soon after; every case is non-trivial"}, func(t *rapid.T, c *h.Case) {
		m := newMongod()
		defer m.stop()
		up := rapid.Bool().Draw(t, "up first")
		if !up {
			m.stop()
		}
		db, err := mongodb.NewMongoDB(bg, m.addr)
		if err != nil {
			return
		}
		cl := coll(c, db, "d", "c")
		if up {
			if err := cl.InsertOne(bg, bson.D{{Key: "a", Value: 1}}); err != nil {
				c.Failf("InsertOne: %v", err)
			}
			m.stop()
		}
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			op := rapid.IntRange(0, 8).Draw(t, "op")
			c.Logf("up first %v, op %d", up, op)
			ctx, cancel := context.WithTimeout(bg, 150*time.Millisecond)
			f, d := bson.D{}, bson.D{{Key: "a", Value: 1}}
			var err error
			start := time.Now()
			switch op {
			case 0:
				err = cl.InsertOne(ctx, d)
			case 1:
				err = cl.InsertMany(ctx, []any{d, d})
			case 2:
				_, err = cl.FindOne(ctx, f)
			case 3:
				_, err = cl.FindMany(ctx, f)
			case 4:
				_, err = cl.UpdateOne(ctx, f, bson.D{{Key: "$set", Value: d}})
			case 5:
				_, err = cl.Upsert(ctx, f, d)
			case 6:
				_, err = cl.ReplaceOne(ctx, f, d)
			case 7:
				err = cl.DeleteOne(ctx, f)
			default:
				err = cl.DeleteMany(ctx, f)
			}
			cancel()
			if err == nil {
				c.Failf("operation %d succeeded without a server", op)
			}
			if d := time.Since(start); d > 10*time.Second {
				c.Failf("operation %d took %v, its context ended after 150ms", op, d)
			}
		}
		c.NonTrivial(true)
	})
}
