package rtnosql

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"
	"verif/harness/h"
)

var bg = context.Background()

func newDB(c *h.Case) backend.NoSQLDatabase {
	db, err := simplenosqldb.NewSimpleNoSQLDB(bg)
	if err != nil {
		c.Failf("NewSimpleNoSQLDB: %v", err)
	}
	return db
}

func coll(c *h.Case, db backend.NoSQLDatabase, d, n string) backend.NoSQLCollection {
	cl, err := db.GetCollection(bg, d, n)
	if err != nil {
		c.Failf("GetCollection: %v", err)
	}
	return cl
}

func readAll(c *h.Case, cur backend.NoSQLCursor) []bson.D {
	out := []bson.D{}
	if err := cur.All(bg, &out); err != nil {
		c.Failf("cursor.All: %v", err)
	}
	return out
}

type row struct {
	ID      any `bson:"_id"`
	A, B, C any
}

// readRows reads results as structs, into a slice that may have elements, and compares them with the documents.
// The slice's earlier elements stay what they were.
func readRows(t *rapid.T, c *h.Case, cur backend.NoSQLCursor, want []bson.D) {
	old := row{ID: "old", A: bson.D{{Key: "old", Value: 1}}, B: bson.A{"old"}, C: "old"}
	n, spare := rapid.IntRange(0, 3).Draw(t, "rows"), rapid.IntRange(0, 3).Draw(t, "spare")
	check := func(what string, i int, r row) {
		for _, f := range []struct {
			name string
			v    any
		}{{"_id", r.ID}, {"a", r.A}, {"b", r.B}, {"c", r.C}} {
			w, _ := get(want[i], f.name)
			if f.name != "_id" {
				w, _ = getFold(want[i], f.name)
			}
			if !eqVal(f.v, w) {
				c.Failf("%s: field %s of result %d is %s, expected %s", what, f.name, i, show(f.v), show(w))
			}
		}
	}
	if rapid.Bool().Draw(t, "pointers") {
		rows := make([]*row, n, n+spare)
		kept := append([]*row{}, rows...)
		for i := range rows {
			x := old
			rows[i], kept[i] = &x, &x
		}
		if err := cur.All(bg, &rows); err != nil {
			c.Failf("cursor.All to pointers to structs: %v", err)
		}
		if len(rows) != len(want) {
			c.Failf("cursor.All to pointers to structs: %d results, expected %d", len(rows), len(want))
		}
		for i, r := range rows {
			check("pointers to structs", i, *r)
		}
		for i, r := range kept {
			if !reflect.DeepEqual(*r, old) {
				c.Failf("earlier element %d changed to %v", i, *r)
			}
		}
		return
	}
	rows := make([]row, n, n+spare)
	for i := range rows {
		rows[i] = old
	}
	kept := rows
	if err := cur.All(bg, &rows); err != nil {
		c.Failf("cursor.All to structs: %v", err)
	}
	if len(rows) != len(want) {
		c.Failf("cursor.All to structs: %d results, expected %d", len(rows), len(want))
	}
	for i, r := range rows {
		check("structs", i, r)
	}
	for i, r := range kept {
		if !reflect.DeepEqual(r, old) {
			c.Failf("earlier element %d changed to %v", i, r)
		}
	}
}

// getFold gets a field as the bson package matches it to a struct's field.
func getFold(d bson.D, name string) (any, bool) {
	var v any
	has := false
	for _, e := range d {
		if strings.EqualFold(e.Key, name) {
			v, has = e.Value, true
		}
	}
	return v, has
}

func find(c *h.Case, cl backend.NoSQLCollection, f bson.D) []bson.D {
	cur, err := cl.FindMany(bg, f)
	if err != nil {
		c.Failf("FindMany(%v): %v", f, err)
	}
	return readAll(c, cur)
}

func show(v any) string {
	switch x := v.(type) {
	case bson.D:
		s := "{"
		for i, e := range x {
			if i > 0 {
				s += ", "
			}
			s += e.Key + ": " + show(e.Value)
		}
		return s + "}"
	case bson.A:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += ", "
			}
			s += show(e)
		}
		return s + "]"
	case bson.M:
		return "M" + fmt.Sprintf("%#v", x)
	case string:
		return fmt.Sprintf("%q", x)
	case float64:
		return fmt.Sprintf("%gf", x)
	case []bson.D:
		s := ""
		for _, d := range x {
			s += show(d) + " "
		}
		return s
	}
	return fmt.Sprintf("%v", v)
}

func withID(id int, d bson.D) bson.D { return append(bson.D{{Key: "_id", Value: id}}, d...) }

func toM(v any) any {
	switch x := v.(type) {
	case bson.D:
		m := bson.M{}
		for _, e := range x {
			m[e.Key] = toM(e.Value)
		}
		return m
	case bson.A:
		a := []any{}
		for _, e := range x {
			a = append(a, toM(e))
		}
		return a
	}
	return v
}

func oneField(v any) bool { // no document with several fields: the order of a map's fields is not defined
	switch x := v.(type) {
	case bson.D:
		if len(x) > 1 {
			return false
		}
		for _, e := range x {
			if !oneField(e.Value) {
				return false
			}
		}
	case bson.A:
		for _, e := range x {
			if !oneField(e) {
				return false
			}
		}
	}
	return true
}

// asInput gives the document in one of the forms callers use.
func asInput(t *rapid.T, d bson.D) any {
	switch rapid.IntRange(0, 3).Draw(t, "form") {
	case 0:
		if oneField(d) {
			return toM(d)
		}
	case 1: // Go maps and slices within a bson.D
		o := bson.D{}
		for _, e := range d {
			v := clone(e.Value)
			if oneField(v) {
				v = toM(v)
			}
			o = append(o, bson.E{Key: e.Key, Value: v})
		}
		return o
	case 2:
		var s struct {
			ID any `bson:"_id"`
			A  any `bson:"a"`
			B  any `bson:"b"`
		}
		if len(d) == 3 && d[0].Key == "_id" && d[1].Key == "a" && d[2].Key == "b" {
			s.ID, s.A, s.B = d[0].Value, clone(d[1].Value), clone(d[2].Value)
			return s
		}
	}
	return clone(d)
}

func insertDocs(t *rapid.T, c *h.Case, cl backend.NoSQLCollection, depth, max int) []bson.D {
	n := rapid.IntRange(1, max).Draw(t, "ndocs")
	var docs []bson.D
	for i := 0; i < n; i++ {
		d := withID(i, genD(t, depth))
		c.Logf("doc %s", show(d))
		docs = append(docs, d)
		if err := cl.InsertOne(bg, asInput(t, d)); err != nil {
			c.Failf("InsertOne(%v): %v", d, err)
		}
	}
	usePool(docs)
	return docs
}

func checkContent(c *h.Case, what string, got, want []bson.D) {
	if len(got) != len(want) {
		c.Failf("%s: %d documents, expected %d\n  got  %s\n  want %s", what, len(got), len(want), show(got), show(want))
	}
	for i := range got {
		if !eqVal(got[i], want[i]) {
			c.Failf("%s: document %d is %s, expected %s", what, i, show(got[i]), show(want[i]))
		}
	}
}

func TestC32_Filters(t *testing.T) {
	h.Check(t, h.Opts{Quick: 120000, Thorough: 4000000, Rule: "random documents (depth 3) and a random filter over all supported operators, dotted paths and array indices, compared per document with a reference matcher; non-trivial = the reference selects some but not all documents"}, func(t *rapid.T, c *h.Case) {
		cl := coll(c, newDB(c), "d", "c")
		docs := insertDocs(t, c, cl, 3, 6)
		f := genFilter(t, 2)
		c.Logf("filter %s", show(f))
		got := find(c, cl, f)
		var ids = map[float64]int{}
		for _, g := range got {
			v, _ := get(g, "_id")
			n, _ := num(v)
			ids[n]++
		}
		y, n := 0, 0
		var first *bson.D
		amb := false
		last := -1.0
		for _, g := range got {
			v, _ := get(g, "_id")
			x, _ := num(v)
			if x <= last {
				c.Failf("results out of insertion order or repeated: %s", show(got))
			}
			last = x
			if !eqVal(g, docs[int(x)]) {
				c.Failf("document %v came back as %s, expected %s", x, show(g), show(docs[int(x)]))
			}
		}
		for i := range docs {
			m := matchQuery(docs[i], f)
			switch {
			case m == yes:
				y++
				if ids[float64(i)] != 1 {
					c.Failf("document %d should match but was not returned; got %s", i, show(got))
				}
				if first == nil && !amb {
					first = &docs[i]
				}
			case m == no:
				n++
				if ids[float64(i)] != 0 {
					c.Failf("document %d should not match but was returned", i)
				}
			default:
				c.Label("undetermined by the reference")
				if first == nil {
					amb = true
				}
			}
		}
		c.NonTrivial(y > 0 && n > 0)
		cur, err := cl.FindOne(bg, f)
		if err != nil {
			c.Failf("FindOne: %v", err)
		}
		var one bson.D
		has, err := cur.One(bg, &one)
		if err != nil {
			c.Failf("One: %v", err)
		}
		if has != (len(got) > 0) || has && !eqVal(one, got[0]) {
			c.Failf("FindOne gave %v %s, FindMany %s", has, show(one), show(got))
		}
		// deletion uses the same filter
		del := rapid.IntRange(0, 2).Draw(t, "delete")
		if del > 0 {
			left := []bson.D{}
			removed := false
			for i := range docs {
				if ids[float64(i)] == 1 && (del == 1 || !removed) {
					removed = true
					continue
				}
				left = append(left, docs[i])
			}
			if del == 1 {
				err = cl.DeleteMany(bg, f)
			} else {
				err = cl.DeleteOne(bg, f)
			}
			if err != nil {
				c.Failf("delete: %v", err)
			}
			checkContent(c, "after delete", find(c, cl, bson.D{}), left)
		}
	})
}

func TestC32_Rejected(t *testing.T) {
	h.Check(t, h.Opts{Quick: 20000, Thorough: 200000, Rule: "a filter with one unsupported or malformed condition at any depth, given to each method that takes a filter: all return an error and change nothing; every case is non-trivial"}, func(t *rapid.T, c *h.Case) {
		cl := coll(c, newDB(c), "d", "c")
		docs := insertDocs(t, c, cl, 2, 3)
		f := genBadFilter(t, 2)
		c.Logf("filter %s", show(f))
		c.NonTrivial(true)
		var err error
		m := rapid.IntRange(0, 8).Draw(t, "method")
		c.Logf("method %d", m)
		switch m {
		case 0:
			_, err = cl.FindOne(bg, f)
		case 1:
			_, err = cl.FindMany(bg, f)
		case 2:
			err = cl.DeleteOne(bg, f)
		case 3:
			err = cl.DeleteMany(bg, f)
		case 4:
			_, err = cl.UpdateOne(bg, f, bson.D{{Key: "$set", Value: bson.D{{Key: "a", Value: 1}}}})
		case 5:
			_, err = cl.UpdateMany(bg, f, bson.D{{Key: "$set", Value: bson.D{{Key: "a", Value: 1}}}})
		case 6:
			_, err = cl.ReplaceOne(bg, f, bson.D{{Key: "_id", Value: 99}})
		case 7:
			_, err = cl.ReplaceMany(bg, f, bson.D{{Key: "_id", Value: 99}})
		case 8:
			_, err = cl.Upsert(bg, f, bson.D{{Key: "_id", Value: 99}})
		}
		if err == nil {
			c.Failf("the filter was accepted")
		}
		checkContent(c, "after the error", find(c, cl, bson.D{}), docs)
	})
}

func TestC33_Updates(t *testing.T) {
	h.Check(t, h.Opts{Quick: 120000, Thorough: 4000000, Rule: "random documents, a random filter and a random update over non-conflicting paths, compared with a reference update; non-trivial = at least one document is changed by the reference and the update is not rejected"}, func(t *rapid.T, c *h.Case) {
		cl := coll(c, newDB(c), "d", "c")
		docs := insertDocs(t, c, cl, 3, 4)
		f := bson.D{}
		if rapid.Bool().Draw(t, "usefilter") {
			f = genFilter(t, 1)
		} else if rapid.Bool().Draw(t, "byid") {
			f = bson.D{{Key: "_id", Value: rapid.IntRange(0, len(docs)-1).Draw(t, "id")}}
		}
		u := genUpdate(t)
		many := rapid.Bool().Draw(t, "many")
		c.Logf("filter %s update %s many=%v", show(f), show(u), many)
		for _, d := range docs {
			if matchQuery(d, f) == unk {
				c.Label("undetermined filter")
				return
			}
		}
		want := append([]bson.D{}, docs...)
		wantN, unknown, wantErr := 0, -1, false
		changed := false
		for i, d := range docs {
			if matchQuery(d, f) != yes {
				continue
			}
			n, err := applyUpdate(d, u)
			if ue, ok := err.(updErr); ok {
				if ue.unknown {
					unknown = i
				} else {
					wantErr = true
				}
				break
			}
			want[i] = n
			wantN++
			changed = changed || !eqVal(n, d)
			if !many {
				break
			}
		}
		var n int
		var err error
		before := find(c, cl, bson.D{})
		if many {
			n, err = cl.UpdateMany(bg, f, u)
		} else {
			n, err = cl.UpdateOne(bg, f, u)
		}
		got := find(c, cl, bson.D{})
		checkContent(c, "results fetched before the update", before, docs)
		if len(got) != len(docs) {
			c.Failf("%d documents after the update, expected %d", len(got), len(docs))
		}
		if unknown < 0 {
			if (err != nil) != wantErr {
				c.Failf("update returned %v; error expected: %v; got %s", err, wantErr, show(got))
			}
			if err == nil && n != wantN {
				c.Failf("update reported %d documents, expected %d", n, wantN)
			}
		} else {
			c.Label("undetermined by the reference")
		}
		for i := range docs {
			if i == unknown {
				if err != nil && !many && !eqVal(got[i], docs[i]) {
					c.Failf("the update failed (%v) but document %d changed to %s", err, i, show(got[i]))
				}
				return // the rest may or may not have been updated
			}
			if !sameDoc(docs[i], want[i], got[i]) {
				c.Failf("document %d is %s, expected %s (err %v)", i, show(got[i]), show(want[i]), err)
			}
		}
		c.NonTrivial(changed && unknown < 0)
	})
}

func TestC33_Rejected(t *testing.T) {
	h.Check(t, h.Opts{Quick: 5000, Thorough: 200000, Rule: "an update with one unsupported or malformed operator among valid ones: an error, and nothing changes; every case is non-trivial"}, func(t *rapid.T, c *h.Case) {
		cl := coll(c, newDB(c), "d", "c")
		docs := insertDocs(t, c, cl, 2, 3)
		u := genBadUpdate(t)
		c.Logf("update %s", show(u))
		c.NonTrivial(true)
		var err error
		if rapid.Bool().Draw(t, "many") {
			_, err = cl.UpdateMany(bg, bson.D{}, u)
		} else {
			_, err = cl.UpdateOne(bg, bson.D{}, u)
		}
		if err == nil {
			c.Failf("the update was accepted")
		}
		checkContent(c, "after the error", find(c, cl, bson.D{}), docs)
	})
}

// ---------------------------------------------------------------- C34

type unencodable struct {
	C chan int `bson:"c"`
}

type heldCursor struct {
	cur  backend.NoSQLCursor
	want []bson.D
}

func scribble(v any) { // change every mutable part of a value in place
	switch x := v.(type) {
	case bson.D:
		for i := range x {
			scribble(x[i].Value)
			x[i] = bson.E{Key: "scribble", Value: "scribble"}
		}
	case bson.A:
		for i := range x {
			scribble(x[i])
			x[i] = "scribble"
		}
	case bson.M:
		for k := range x {
			scribble(x[k])
			delete(x, k)
		}
		x["scribble"] = 1
	case []any:
		for i := range x {
			scribble(x[i])
			x[i] = "scribble"
		}
	}
}

func TestC34_Histories(t *testing.T) {
	h.Check(t, h.Opts{Quick: 40000, Thorough: 1500000, Rule: "a history of inserts, finds, updates, replacements, upserts and deletes over 4 collections, with inputs and results modified afterwards and cursors read late, compared with reference collections after every step; non-trivial = at least one write changes a document after a cursor over it was opened or after its input was modified"}, func(t *rapid.T, c *h.Case) {
		db := newDB(c)
		names := [][2]string{{"d1", "c1"}, {"d1", "c2"}, {"d2", "c1"}, {"d2", "c2"}}
		model := map[[2]string][]bson.D{}
		nextID := 0
		var held []heldCursor
		writesAfter := false
		newDoc := func(withId bool) bson.D {
			d := genD(t, 2)
			if withId {
				d = withID(nextID, d)
				nextID++
			}
			return d
		}
		// an object id assigned by the store is copied into the model
		adopt := func(got []bson.D, want []bson.D) {
			for i := range want {
				if i < len(got) {
					if _, has := get(want[i], "_id"); !has {
						if id, ok := get(got[i], "_id"); ok {
							if _, isOID := id.(primitive.ObjectID); isOID {
								want[i] = append(bson.D{{Key: "_id", Value: id}}, want[i]...)
							}
						}
					}
				}
			}
		}
		steps := rapid.IntRange(1, 14).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			k := rapid.SampledFrom(names).Draw(t, "coll")
			cl := coll(c, db, k[0], k[1])
			docs := model[k]
			usePool(docs)
			first := func(f bson.D) int {
				for i := range docs {
					switch matchQuery(docs[i], f) {
					case yes:
						return i
					case unk:
						return -2
					}
				}
				return -1
			}
			pickFilter := func() bson.D {
				if len(docs) > 0 && rapid.IntRange(0, 2).Draw(t, "byid") == 0 {
					d := rapid.SampledFrom(docs).Draw(t, "target")
					id, _ := get(d, "_id")
					return bson.D{{Key: "_id", Value: id}}
				}
				for {
					f := genFilter(t, 1)
					ok := true
					for _, d := range docs {
						ok = ok && matchQuery(d, f) != unk
					}
					if ok {
						return f
					}
				}
			}
			keepID := func(old, repl bson.D) bson.D {
				if _, has := get(repl, "_id"); has {
					return repl
				}
				id, _ := get(old, "_id")
				return append(bson.D{{Key: "_id", Value: id}}, repl...)
			}
			switch op := rapid.IntRange(0, 12).Draw(t, "op"); op {
			case 0, 1:
				d := newDoc(rapid.IntRange(0, 3).Draw(t, "id") > 0)
				in := asInput(t, d)
				c.Logf("%s.%s insert %s", k[0], k[1], show(in))
				if err := cl.InsertOne(bg, in); err != nil {
					c.Failf("InsertOne: %v", err)
				}
				model[k] = append(docs, d)
				scribble(in)
			case 2:
				var in []any
				var ds []bson.D
				for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
					d := newDoc(true)
					ds = append(ds, d)
					in = append(in, asInput(t, d))
				}
				c.Logf("%s.%s insertMany %s", k[0], k[1], show(ds))
				if rapid.IntRange(0, 4).Draw(t, "onebad") == 0 {
					c.Logf("  with a value that cannot be encoded")
					at := rapid.IntRange(0, len(in)).Draw(t, "at")
					in = append(in[:at:at], append([]any{unencodable{make(chan int)}}, in[at:]...)...)
					if err := cl.InsertMany(bg, in); err == nil {
						c.Failf("a value that cannot be encoded was accepted")
					}
					break
				}
				if err := cl.InsertMany(bg, in); err != nil {
					c.Failf("InsertMany: %v", err)
				}
				model[k] = append(docs, ds...)
				for _, x := range in {
					scribble(x)
				}
			case 3, 4:
				f := pickFilter()
				c.Logf("%s.%s find %s", k[0], k[1], show(f))
				cur, err := cl.FindMany(bg, f)
				if err != nil {
					c.Failf("FindMany: %v", err)
				}
				var want []bson.D
				for _, d := range docs {
					if matchQuery(d, f) == yes {
						want = append(want, clone(d).(bson.D))
					}
				}
				if rapid.Bool().Draw(t, "late") {
					held = append(held, heldCursor{cur, want})
				} else {
					got := readAll(c, cur)
					checkContent(c, "find", got, want)
					for _, d := range got {
						scribble(d)
					}
					checkContent(c, "find read twice", readAll(c, cur), want)
					readRows(t, c, cur, want)
				}
			case 5, 6, 7:
				f, u := pickFilter(), genUpdate(t)
				many := rapid.Bool().Draw(t, "many")
				c.Logf("%s.%s update many=%v %s %s", k[0], k[1], many, show(f), show(u))
				after := append([]bson.D{}, docs...)
				skip, wantErr, n := false, false, 0
				for i, d := range docs {
					if matchQuery(d, f) == yes {
						x, err := applyUpdate(d, u)
						if ue, ok := err.(updErr); ok {
							if ue.unknown {
								skip = true
							}
							wantErr = true
							break
						}
						after[i] = x
						n++
						if !many {
							break
						}
					}
				}
				if skip {
					continue
				}
				var got int
				var err error
				if many {
					got, err = cl.UpdateMany(bg, f, u)
				} else {
					got, err = cl.UpdateOne(bg, f, u)
				}
				if (err != nil) != wantErr || err == nil && got != n {
					c.Failf("update returned %d, %v; expected %d, error %v", got, err, n, wantErr)
				}
				// new fields may come in any order: take over the order the store chose
				now := find(c, cl, bson.D{})
				for i := range after {
					if i < len(now) && sameDoc(docs[i], after[i], now[i]) {
						after[i] = now[i]
					}
				}
				model[k] = after
				writesAfter = writesAfter || n > 0 && len(held) > 0
				for _, op := range u {
					for _, e := range op.Value.(bson.D) {
						scribble(e.Value)
					}
				}
			case 8, 9:
				f := pickFilter()
				d := newDoc(rapid.Bool().Draw(t, "id"))
				i := first(f)
				in := asInput(t, d)
				ups := rapid.Bool().Draw(t, "upsert")
				if _, has := get(d, "_id"); has && i >= 0 {
					// a replacement keeps its document's _id
					id, _ := get(docs[i], "_id")
					d[0].Value = id
					in = clone(d)
				}
				c.Logf("%s.%s replace upsert=%v %s %s", k[0], k[1], ups, show(f), show(in))
				if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
					c.Logf("  with a value that cannot be encoded")
					var err error
					if ups {
						_, err = cl.Upsert(bg, f, unencodable{make(chan int)})
					} else {
						_, err = cl.ReplaceOne(bg, f, unencodable{make(chan int)})
					}
					if err == nil && (ups || i >= 0) {
						c.Failf("a value that cannot be encoded was accepted")
					}
					break
				}
				if ups {
					upd, err := cl.Upsert(bg, f, in)
					if err != nil || upd != (i >= 0) {
						c.Failf("Upsert returned %v, %v; expected %v", upd, err, i >= 0)
					}
					if i < 0 {
						model[k] = append(docs, d)
					}
				} else {
					n, err := cl.ReplaceOne(bg, f, in)
					if err != nil || (n == 1) != (i >= 0) || n > 1 || n < 0 {
						c.Failf("ReplaceOne returned %v, %v; expected a match: %v", n, err, i >= 0)
					}
				}
				if i >= 0 {
					after := append([]bson.D{}, docs...)
					after[i] = keepID(docs[i], d)
					model[k] = after
					writesAfter = writesAfter || len(held) > 0
				}
				scribble(in)
			case 10:
				f := pickFilter()
				many := rapid.Bool().Draw(t, "many")
				c.Logf("%s.%s delete many=%v %s", k[0], k[1], many, show(f))
				var err error
				if many {
					err = cl.DeleteMany(bg, f)
				} else {
					err = cl.DeleteOne(bg, f)
				}
				if err != nil {
					c.Failf("delete: %v", err)
				}
				after := []bson.D{}
				gone := false
				for _, d := range docs {
					if matchQuery(d, f) == yes && (many || !gone) {
						gone = true
						continue
					}
					after = append(after, d)
				}
				model[k] = after
				writesAfter = writesAfter || gone && len(held) > 0
			case 11:
				f := pickFilter()
				var in []any
				var ds []bson.D
				for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
					d := newDoc(false)
					ds = append(ds, d)
					in = append(in, clone(d))
				}
				c.Logf("%s.%s replaceMany %s %s", k[0], k[1], show(f), show(ds))
				n, err := cl.ReplaceMany(bg, f, in...)
				after := append([]bson.D{}, docs...)
				j := 0
				for i := range docs {
					if j < len(ds) && matchQuery(docs[i], f) == yes {
						after[i] = keepID(docs[i], ds[j])
						j++
					}
				}
				if err != nil || n != j {
					c.Failf("ReplaceMany returned %d, %v; expected %d", n, err, j)
				}
				model[k] = after
				for _, x := range in {
					scribble(x)
				}
			case 12:
				if rapid.Bool().Draw(t, "insertbad") {
					c.Logf("%s.%s insert a value that cannot be encoded", k[0], k[1])
					if err := cl.InsertOne(bg, unencodable{}); err == nil {
						c.Failf("a value that cannot be encoded was accepted")
					}
					break
				}
				id := primitive.NewObjectID()
				d := append(bson.D{{Key: "_id", Value: id}}, genD(t, 2)...)
				c.Logf("%s.%s upsertID %s twice", k[0], k[1], show(d))
				u1, err1 := cl.UpsertID(bg, id, clone(d))
				d2 := append(bson.D{{Key: "_id", Value: id}}, genD(t, 1)...)
				u2, err2 := cl.UpsertID(bg, id, clone(d2))
				if err1 != nil || err2 != nil || u1 || !u2 {
					c.Failf("UpsertID returned %v %v, then %v %v", u1, err1, u2, err2)
				}
				model[k] = append(docs, d2)
			}
			for _, n := range names {
				got := find(c, coll(c, db, n[0], n[1]), bson.D{})
				adopt(got, model[n])
				checkContent(c, "contents of "+n[0]+"."+n[1], got, model[n])
				for _, d := range got {
					scribble(d)
				}
			}
		}
		for _, hc := range held {
			checkContent(c, "cursor read at the end", readAll(c, hc.cur), hc.want)
			var one bson.D
			has, err := hc.cur.One(bg, &one)
			if err != nil || has != (len(hc.want) > 0) || has && !eqVal(one, hc.want[0]) {
				c.Failf("One on a held cursor: %v %v %s", has, err, show(one))
			}
		}
		c.NonTrivial(writesAfter)
	})
}

func TestC34_Concurrent(t *testing.T) {
	h.Check(t, h.Opts{Quick: 400, Thorough: 20000, Rule: "several goroutines insert, increment, push, replace and delete in shared collections obtained concurrently; at the end every successful write is there exactly once; non-trivial = at least two goroutines write"}, func(t *rapid.T, c *h.Case) {
		db := newDB(c)
		g := rapid.IntRange(2, 6).Draw(t, "goroutines")
		n := rapid.IntRange(1, 20).Draw(t, "ops")
		shared := rapid.Bool().Draw(t, "shared")
		c.Logf("%d goroutines, %d ops, one handle=%v", g, n, shared)
		c.NonTrivial(g > 1)
		main := coll(c, db, "d", "c")
		if err := main.InsertOne(bg, bson.D{{Key: "_id", Value: "counter"}, {Key: "n", Value: 0}, {Key: "l", Value: bson.A{}}}); err != nil {
			c.Failf("%v", err)
		}
		errs := make(chan error, 10000)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl := main
				if !shared {
					var err error
					if cl, err = db.GetCollection(bg, "d", "c"); err != nil {
						errs <- err
						return
					}
				}
				own, err := db.GetCollection(bg, "d", fmt.Sprintf("own%d", i%3))
				if err != nil {
					errs <- err
					return
				}
				for j := 0; j < n; j++ {
					chk := func(err error) {
						if err != nil {
							errs <- err
						}
					}
					id := fmt.Sprintf("%d-%d", i, j)
					chk(own.InsertOne(bg, bson.D{{Key: "_id", Value: id}}))
					chk(cl.InsertOne(bg, bson.D{{Key: "_id", Value: id}, {Key: "v", Value: 0}}))
					k, err := cl.UpdateOne(bg, bson.D{{Key: "_id", Value: "counter"}}, bson.D{{Key: "$inc", Value: bson.D{{Key: "n", Value: 1}}}, {Key: "$push", Value: bson.D{{Key: "l", Value: id}}}})
					chk(err)
					if k != 1 {
						errs <- fmt.Errorf("update of the counter matched %d documents", k)
					}
					if j%3 == 1 {
						chk(cl.DeleteOne(bg, bson.D{{Key: "_id", Value: fmt.Sprintf("%d-%d", i, j-1)}}))
					}
					if j%3 == 2 {
						k, err := cl.ReplaceOne(bg, bson.D{{Key: "_id", Value: id}}, bson.D{{Key: "_id", Value: id}, {Key: "v", Value: 1}})
						chk(err)
						if k != 1 {
							errs <- fmt.Errorf("replace of %s matched %d documents", id, k)
						}
					}
					cur, err := cl.FindMany(bg, bson.D{{Key: "_id", Value: id}})
					chk(err)
					if err == nil {
						var ds []bson.D
						chk(cur.All(bg, &ds))
						if len(ds) != 1 {
							errs <- fmt.Errorf("own document %s found %d times", id, len(ds))
						}
					}
				}
			}()
		}
		wg.Wait()
		close(errs)
		for err := range errs {
			c.Failf("%v", err)
		}
		byID := map[string]bson.D{}
		for _, d := range find(c, main, bson.D{}) {
			id, _ := get(d, "_id")
			if _, dup := byID[id.(string)]; dup {
				c.Failf("%v is there twice", id)
			}
			byID[id.(string)] = d
		}
		cnt, _ := get(byID["counter"], "n")
		l, _ := get(byID["counter"], "l")
		if x, _ := num(cnt); int(x) != g*n {
			c.Failf("the counter is %v after %d increments", cnt, g*n)
		}
		seen := map[any]bool{}
		for _, x := range l.(bson.A) {
			seen[x] = true
		}
		if len(l.(bson.A)) != g*n || len(seen) != g*n {
			c.Failf("%d (%d distinct) pushed values after %d pushes", len(l.(bson.A)), len(seen), g*n)
		}
		for i := 0; i < g; i++ {
			for j := 0; j < n; j++ {
				d, ok := byID[fmt.Sprintf("%d-%d", i, j)]
				deleted := j%3 == 0 && j+1 < n
				if ok == deleted {
					c.Failf("document %d-%d present: %v, deleted: %v", i, j, ok, deleted)
				}
				if ok && j%3 == 2 {
					if v, _ := get(d, "v"); !eqVal(v, 1) {
						c.Failf("document %d-%d was replaced but is %s", i, j, show(d))
					}
				}
			}
		}
		for k := 0; k < 3; k++ {
			want := 0
			for i := 0; i < g; i++ {
				if i%3 == k {
					want += n
				}
			}
			if got := len(find(c, coll(c, db, "d", fmt.Sprintf("own%d", k)), bson.D{})); got != want {
				c.Failf("collection own%d has %d documents, expected %d", k, got, want)
			}
		}
	})
}
