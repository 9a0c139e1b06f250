package rtnosql

import (
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"
)

func genScalar(t *rapid.T) any {
	switch rapid.IntRange(0, 11).Draw(t, "scalar") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "b")
	case 2, 3, 4:
		return rapid.IntRange(-1, 3).Draw(t, "int")
	case 5:
		return int64(rapid.IntRange(0, 3).Draw(t, "int64"))
	case 6:
		return int32(rapid.IntRange(0, 3).Draw(t, "int32"))
	case 7, 8:
		return float64(rapid.IntRange(-2, 6).Draw(t, "half")) / 2
	default:
		return rapid.SampledFrom([]string{"x", "y", "xy", "", "x", "y", "xy", "", "X", "y\nx", "x y", " x", "é", "a.b", "$a", "1"}).Draw(t, "str")
	}
}

var fields = []string{"a", "b", "c"}

// rareFields are similar to each other and to the usual ones; none is an array index.
var rareFields = []string{"a", "A", "ab", "b", "B", "a b", "é", "-1", "1a", "a_b"}

func genField(t *rapid.T) string {
	if rapid.IntRange(0, 9).Draw(t, "rare") == 0 {
		return rapid.SampledFrom(rareFields).Draw(t, "field")
	}
	return rapid.SampledFrom(fields).Draw(t, "field")
}

func genD(t *rapid.T, depth int) bson.D {
	d := bson.D{}
	n := rapid.IntRange(0, 3).Draw(t, "nf")
	names := fields
	if rapid.IntRange(0, 7).Draw(t, "rare") == 0 {
		names = rareFields
	}
	fs := rapid.Permutation(names).Draw(t, "fields")
	for _, f := range fs[:n] {
		d = append(d, bson.E{Key: f, Value: genValue(t, depth-1)})
	}
	return d
}

func genA(t *rapid.T, depth int) bson.A {
	a := bson.A{}
	for n := rapid.IntRange(0, 3).Draw(t, "ne"); n > 0; n-- {
		a = append(a, genValue(t, depth-1))
	}
	return a
}

func genValue(t *rapid.T, depth int) any {
	if depth > 0 {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1:
			return genD(t, depth)
		case 2, 3:
			return genA(t, depth)
		}
	}
	return genScalar(t)
}

// pool holds the paths and values that occur in the documents of the current case; hint is the value of the
// condition being generated.
type pathValue struct {
	p string
	v any
}

var pool []pathValue
var hint *any

func usePool(docs []bson.D) {
	pool, hint = nil, nil
	for _, d := range docs {
		collect("", d, 3)
	}
}

func collect(prefix string, v any, depth int) {
	if depth == 0 {
		return
	}
	add := func(k string, x any) {
		if k == "_id" {
			return
		}
		pool = append(pool, pathValue{prefix + k, x})
		collect(prefix+k+".", x, depth-1)
	}
	switch x := v.(type) {
	case bson.D:
		for _, e := range x {
			add(e.Key, e.Value)
		}
	case bson.A:
		for i, e := range x {
			if d, ok := e.(bson.D); ok && len(d) > 0 {
				pool = append(pool, pathValue{prefix + d[0].Key, d[0].Value})
			} else if prefix != "" && i < 3 {
				pool = append(pool, pathValue{strings.TrimSuffix(prefix, "."), e})
			}
			add(strconv.Itoa(i), e)
		}
	}
}

// hintPath picks a path, often one that exists, and remembers its value.
func hintPath(t *rapid.T) string {
	hint = nil
	if len(pool) > 0 && rapid.IntRange(0, 3).Draw(t, "pooled") > 0 {
		e := rapid.SampledFrom(pool).Draw(t, "pv")
		hint = &e.v
		return e.p
	}
	return genPath(t)
}

func hintValue(t *rapid.T, depth int) any {
	if hint != nil && rapid.Bool().Draw(t, "hinted") {
		return clone(*hint)
	}
	return genValue(t, depth)
}

func genPath(t *rapid.T) string {
	if len(pool) > 0 && rapid.Bool().Draw(t, "pooledp") {
		return rapid.SampledFrom(pool).Draw(t, "pv").p
	}
	p := []string{genField(t)}
	for n := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "plen"); n > 0; n-- {
		p = append(p, rapid.SampledFrom([]string{"a", "b", "c", "0", "1", "2"}).Draw(t, "p"))
	}
	return strings.Join(p, ".")
}

func genNum(t *rapid.T) any {
	if rapid.Bool().Draw(t, "isint") {
		return rapid.IntRange(-1, 3).Draw(t, "n")
	}
	return float64(rapid.IntRange(-2, 6).Draw(t, "half")) / 2
}

func genOp(t *rapid.T) bson.E {
	switch rapid.IntRange(0, 11).Draw(t, "op") {
	case 0:
		return bson.E{Key: "$eq", Value: hintValue(t, 2)}
	case 1, 2:
		return bson.E{Key: "$ne", Value: hintValue(t, 2)}
	case 3:
		return bson.E{Key: "$gt", Value: genNum(t)}
	case 4:
		return bson.E{Key: "$gte", Value: genNum(t)}
	case 5:
		return bson.E{Key: "$lt", Value: genNum(t)}
	case 6:
		return bson.E{Key: "$lte", Value: genNum(t)}
	case 7, 8:
		if rapid.IntRange(0, 3).Draw(t, "goslice") == 0 {
			return bson.E{Key: "$in", Value: rapid.SliceOfN(rapid.IntRange(-1, 3), 0, 3).Draw(t, "ints")}
		}
		return bson.E{Key: "$in", Value: hintA(t, 2)}
	case 9:
		return bson.E{Key: "$regex", Value: rapid.SampledFrom([]string{"x", "^x", "y$", "^$", "", "[xz]", "^x$", "^y", "(?i)x", "x.y", "y.x", "(?s)y.x", "\\s", "é?$"}).Draw(t, "re")}
	default:
		return bson.E{Key: "$exists", Value: rapid.Bool().Draw(t, "ex")}
	}
}

func genCond(t *rapid.T, depth int) bson.E {
	k := rapid.IntRange(0, 12).Draw(t, "cond")
	if depth <= 0 && k < 4 {
		k = 4 + k
	}
	switch k {
	case 0, 1, 2:
		op := rapid.SampledFrom([]string{"$and", "$or", "$nor"}).Draw(t, "logical")
		a := bson.A{}
		for n := rapid.IntRange(1, 3).Draw(t, "nl"); n > 0; n-- {
			a = append(a, genFilter(t, depth-1))
		}
		return bson.E{Key: op, Value: a}
	case 3:
		if rapid.Bool().Draw(t, "em") {
			saved := pool
			p := emPath(t)
			d := bson.D{{Key: "$elemMatch", Value: genFilter(t, depth-1)}}
			pool = saved
			if rapid.IntRange(0, 3).Draw(t, "em2") == 0 {
				d = append(d, bson.E{Key: "$all", Value: genA(t, 2)})
			}
			return bson.E{Key: p, Value: d}
		}
		return bson.E{Key: "$not", Value: genFilter(t, depth-1)}
	case 4, 5, 6:
		p := hintPath(t)
		return bson.E{Key: p, Value: hintValue(t, 2)}
	case 7:
		p := hintPath(t)
		return bson.E{Key: p, Value: bson.D{{Key: "$all", Value: hintA(t, 2)}}}
	default:
		p := hintPath(t)
		d := bson.D{genOp(t)}
		if rapid.IntRange(0, 2).Draw(t, "two") == 0 {
			o := genOp(t)
			if o.Key != d[0].Key {
				d = append(d, o)
			}
		}
		return bson.E{Key: p, Value: d}
	}
}

func hintA(t *rapid.T, depth int) bson.A {
	a := genA(t, depth)
	if hint != nil && rapid.Bool().Draw(t, "hinted") {
		a = append(a, clone(*hint))
	}
	return a
}

// emPath picks the path of an array of documents, and makes the pool that of its elements.
func emPath(t *rapid.T) string {
	var c []pathValue
	for _, e := range pool {
		if a, ok := e.v.(bson.A); ok && len(a) > 0 {
			c = append(c, e)
		}
	}
	if len(c) == 0 || rapid.IntRange(0, 3).Draw(t, "emfree") == 0 {
		return genPath(t)
	}
	e := rapid.SampledFrom(c).Draw(t, "em array")
	pool = nil
	for _, x := range e.v.(bson.A) {
		if d, ok := x.(bson.D); ok {
			collect("", d, 2)
		}
	}
	return e.p
}

func genFilter(t *rapid.T, depth int) bson.D {
	f := bson.D{}
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2}).Draw(t, "nconds")
	for ; n > 0; n-- {
		f = append(f, genCond(t, depth))
	}
	return f
}

// a condition outside the supported language
func genBadCond(t *rapid.T) bson.E {
	p := genPath(t)
	op := func(k string, v any) bson.E { return bson.E{Key: p, Value: bson.D{{Key: k, Value: v}}} }
	bad := []bson.E{
		op("$foo", 1), {Key: "$foo", Value: bson.A{bson.D{}}}, op("$regex", "("), op("$regex", 5), op("$exists", "yes"),
		{Key: "$and", Value: 1}, {Key: "$or", Value: bson.A{}}, {Key: "$and", Value: bson.A{}}, {Key: "$nor", Value: bson.A{}}, {Key: "$or", Value: bson.D{}},
		{Key: "$or", Value: bson.A{1}}, {Key: "$nor", Value: "x"}, {Key: "$not", Value: 3},
		op("$in", 1), op("$in", "x"), op("$nin", bson.A{1}), op("$gt", "x"), op("$lt", bson.A{1}), op("$gte", nil),
		{Key: p, Value: bson.D{{Key: "b", Value: 1}, {Key: "$gt", Value: 2}}}, {Key: p, Value: bson.D{{Key: "$gt", Value: 2}, {Key: "b", Value: 1}}},
		{Key: p, Value: bson.D{{Key: "b", Value: bson.D{{Key: "$gt", Value: 1}}}}},
		op("$all", 1), op("$elemMatch", 1), op("$elemMatch", bson.D{{Key: "$where", Value: 1}}), op("$where", "x"), op("$not", 5),
		op("$type", "string"), {Key: "$expr", Value: bson.D{}}, op("$size", "x"), op("$mod", bson.A{2, 1}),
	}
	return rapid.SampledFrom(bad).Draw(t, "bad")
}

func genBadFilter(t *rapid.T, depth int) bson.D {
	var e bson.E
	if depth > 0 {
		switch rapid.IntRange(0, 5).Draw(t, "nest") {
		case 0, 1:
			e = bson.E{Key: rapid.SampledFrom([]string{"$and", "$or", "$nor"}).Draw(t, "l"), Value: bson.A{genFilter(t, 1), genBadFilter(t, depth-1)}}
		case 2:
			e = bson.E{Key: "$not", Value: genBadFilter(t, depth-1)}
		case 3:
			e = bson.E{Key: genPath(t), Value: bson.D{{Key: "$elemMatch", Value: genBadFilter(t, depth-1)}}}
		}
	}
	if e.Key == "" {
		e = genBadCond(t)
	}
	f := genFilter(t, 1)
	if rapid.Bool().Draw(t, "front") {
		return append(bson.D{e}, f...)
	}
	return append(f, e)
}

// a set of paths none of which is a prefix of another
func genPaths(t *rapid.T, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		p := genPath(t)
		ok := true
		for _, q := range out {
			if p == q || strings.HasPrefix(p+".", q+".") || strings.HasPrefix(q+".", p+".") {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func genUpdate(t *rapid.T) bson.D {
	ps := genPaths(t, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "npaths"))
	var u bson.D
	for _, p := range ps {
		op := rapid.SampledFrom([]string{"$set", "$set", "$unset", "$inc", "$push", "$pull", "$pull", "$addToSet"}).Draw(t, "uop")
		var v any
		switch op {
		case "$set":
			v = genValue(t, 2)
		case "$unset":
			v = ""
		case "$inc":
			v = rapid.SampledFrom([]any{1, -2, int64(3), int32(-1), 1 << 31, int64(1) << 40}).Draw(t, "by")
		case "$push", "$addToSet":
			v = genValue(t, 2)
		case "$pull":
			switch rapid.IntRange(0, 2).Draw(t, "pullk") {
			case 0:
				v = genFilterFields(t)
			case 1:
				v = genScalar(t)
			default:
				v = genValue(t, 1)
				if _, ok := v.(bson.D); ok {
					v = genScalar(t)
				}
			}
		}
		done := false
		for i := range u {
			if u[i].Key == op {
				u[i].Value = append(u[i].Value.(bson.D), bson.E{Key: p, Value: v})
				done = true
			}
		}
		if !done {
			u = append(u, bson.E{Key: op, Value: bson.D{{Key: p, Value: v}}})
		}
	}
	return u
}

// a query whose top-level keys are fields
func genFilterFields(t *rapid.T) bson.D {
	var q bson.D
	for n := rapid.IntRange(1, 2).Draw(t, "nq"); n > 0; n-- {
		e := genCond(t, 1)
		if !strings.HasPrefix(e.Key, "$") {
			q = append(q, e)
		}
	}
	if len(q) == 0 {
		q = bson.D{{Key: genPath(t), Value: genScalar(t)}}
	}
	return q
}

func genBadUpdate(t *rapid.T) bson.D {
	p := genPath(t)
	d := func(v any) bson.D { return bson.D{{Key: p, Value: v}} }
	e := rapid.SampledFrom([]bson.E{
		{Key: "$foo", Value: d(1)}, {Key: p, Value: 1}, {Key: "$set", Value: 1}, {Key: "$unset", Value: "x"}, {Key: "$inc", Value: d("x")}, {Key: "$inc", Value: d(nil)},
		{Key: "$inc", Value: bson.A{}}, {Key: "$push", Value: bson.A{1}}, {Key: "$pull", Value: 3}, {Key: "$addToSet", Value: "a"}, {Key: "$push", Value: d(bson.D{{Key: "$each", Value: bson.A{1}}})},
		{Key: "$addToSet", Value: d(bson.D{{Key: "$each", Value: bson.A{1}}})}, {Key: "$pop", Value: d(1)}, {Key: "$rename", Value: d("z")}, {Key: "$mul", Value: d(2)},
		{Key: "$pull", Value: d(bson.D{{Key: "a", Value: bson.D{{Key: "$foo", Value: 1}}}})},
	}).Draw(t, "badop")
	u := genUpdate(t)
	if rapid.Bool().Draw(t, "front") {
		return append(bson.D{e}, u...)
	}
	return append(u, e)
}
