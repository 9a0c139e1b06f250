package rtnosql

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
)

// Reference semantics of the supported part of MongoDB's query and update languages, written from the
// MongoDB manual. Three-valued: unk where the manual leaves the result open or the store documents a subset.
type tri int

const (
	no tri = iota
	yes
	unk
)

func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}
func (a tri) not() tri { return [...]tri{yes, no, unk}[a] }
func (a tri) and(b tri) tri {
	if a == no || b == no {
		return no
	}
	if a == yes && b == yes {
		return yes
	}
	return unk
}
func (a tri) or(b tri) tri { return a.not().and(b.not()).not() }

func num(v any) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

func eqVal(a, b any) bool {
	if x, ok := num(a); ok {
		y, ok := num(b)
		return ok && x == y
	}
	switch x := a.(type) {
	case bson.D:
		y, ok := b.(bson.D)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].Key != y[i].Key || !eqVal(x[i].Value, y[i].Value) {
				return false
			}
		}
		return true
	case bson.A:
		y, ok := b.(bson.A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func idx(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && n >= 0
}

func get(d bson.D, k string) (any, bool) {
	for _, e := range d {
		if e.Key == k {
			return e.Value, true
		}
	}
	return nil, false
}

type leaf struct {
	v       any
	indexed bool // the last path component was an array index
}

// leaves returns the values a dotted path reaches; arr reports whether it had to pass through an array.
func leaves(v any, comps []string, root bool) (ls []leaf, arr bool) {
	if len(comps) == 0 {
		return []leaf{{v: v}}, false
	}
	switch x := v.(type) {
	case bson.D:
		if f, ok := get(x, comps[0]); ok {
			return leaves(f, comps[1:], false)
		}
		return nil, false
	case bson.A:
		if root {
			return nil, true
		}
		if i, ok := idx(comps[0]); ok {
			if i < len(x) {
				ls, _ := leaves(x[i], comps[1:], false)
				if len(comps) == 1 {
					ls[0].indexed = true
				}
				return ls, true
			}
			return nil, true
		}
		for _, e := range x {
			if d, ok := e.(bson.D); ok {
				l, _ := leaves(d, comps, false)
				ls = append(ls, l...)
			}
		}
		return ls, true
	}
	return nil, false
}

func anyLeaf(ls []leaf, p func(any) bool) tri {
	r := no
	for _, l := range ls {
		if p(l.v) {
			return yes
		}
		if a, ok := l.v.(bson.A); ok {
			for _, e := range a {
				if p(e) {
					if l.indexed {
						r = unk
						break
					}
					return yes
				}
			}
		}
	}
	return r
}

func matchEq(ls []leaf, arr bool, want any) tri {
	r := anyLeaf(ls, func(v any) bool { return eqVal(v, want) })
	if want == nil && r != yes {
		if arr {
			return unk
		}
		if len(ls) == 0 {
			return yes
		}
	}
	return r
}

func matchQuery(doc any, q bson.D) tri {
	r := yes
	for _, e := range q {
		r = r.and(matchCond(doc, e))
	}
	return r
}

func matchCond(doc any, e bson.E) tri {
	switch e.Key {
	case "$and":
		r := yes
		for _, s := range e.Value.(bson.A) {
			r = r.and(matchQuery(doc, s.(bson.D)))
		}
		return r
	case "$or", "$nor":
		r := no
		for _, s := range e.Value.(bson.A) {
			r = r.or(matchQuery(doc, s.(bson.D)))
		}
		if e.Key == "$nor" {
			return r.not()
		}
		return r
	case "$not":
		return matchQuery(doc, e.Value.(bson.D)).not()
	}
	ls, arr := leaves(doc, strings.Split(e.Key, "."), true)
	d, ok := e.Value.(bson.D)
	if !ok || len(d) == 0 || !strings.HasPrefix(d[0].Key, "$") {
		return matchEq(ls, arr, e.Value)
	}
	r := yes
	for _, op := range d {
		r = r.and(matchOp(ls, arr, op))
	}
	return r
}

func list(v any) []any {
	rv := reflect.ValueOf(v)
	var out []any
	for i := 0; i < rv.Len(); i++ {
		out = append(out, rv.Index(i).Interface())
	}
	return out
}

func matchOp(ls []leaf, arr bool, op bson.E) tri {
	switch op.Key {
	case "$eq":
		return matchEq(ls, arr, op.Value)
	case "$ne":
		return matchEq(ls, arr, op.Value).not()
	case "$gt", "$gte", "$lt", "$lte":
		w, _ := num(op.Value)
		return anyLeaf(ls, func(v any) bool {
			n, ok := num(v)
			if !ok {
				return false
			}
			switch op.Key {
			case "$gt":
				return n > w
			case "$gte":
				return n >= w
			case "$lt":
				return n < w
			}
			return n <= w
		})
	case "$in":
		r := no
		for _, w := range list(op.Value) {
			r = r.or(matchEq(ls, arr, w))
		}
		return r
	case "$exists":
		return b2t((len(ls) > 0) == op.Value.(bool))
	case "$regex":
		re := regexp.MustCompile(op.Value.(string))
		return anyLeaf(ls, func(v any) bool { s, ok := v.(string); return ok && re.MatchString(s) })
	case "$all":
		l := list(op.Value)
		if len(l) == 0 {
			return no
		}
		r := yes
		for _, w := range l {
			r = r.and(matchEq(ls, arr, w))
		}
		return r
	case "$elemMatch":
		r := no
		for _, l := range ls {
			if a, ok := l.v.(bson.A); ok {
				for _, e := range a {
					switch e.(type) {
					case bson.D, bson.A:
						r = r.or(matchQuery(e, op.Value.(bson.D)))
					}
				}
			}
		}
		return r
	}
	panic("reference: operator " + op.Key)
}

// ---------------------------------------------------------------- updates

type updErr struct{ unknown bool }

func (e updErr) Error() string { return fmt.Sprintf("update error (unknown=%v)", e.unknown) }

func clone(v any) any {
	switch x := v.(type) {
	case bson.D:
		o := make(bson.D, len(x))
		for i := range x {
			o[i] = bson.E{Key: x[i].Key, Value: clone(x[i].Value)}
		}
		return o
	case bson.A:
		o := make(bson.A, len(x))
		for i := range x {
			o[i] = clone(x[i])
		}
		return o
	}
	return v
}

// modify applies f to the value at the path and returns the new container. create: make missing parents.
// f gets the current value and whether it exists, and returns the new value and whether there is one.
func modify(v any, comps []string, create bool, f func(cur any, has bool) (any, bool, error)) (any, error) {
	switch x := v.(type) {
	case bson.D:
		if _, isIdx := idx(comps[0]); isIdx {
			return nil, updErr{true} // numeric field names of documents: not supported by the store
		}
		for i := range x {
			if x[i].Key == comps[0] {
				if len(comps) == 1 {
					n, keep, err := f(x[i].Value, true)
					if err != nil {
						return nil, err
					}
					if !keep {
						return append(append(bson.D{}, x[:i]...), x[i+1:]...), nil
					}
					x[i].Value = n
					return x, nil
				}
				if x[i].Value == nil {
					return nil, updErr{true} // MongoDB refuses, the store creates
				}
				n, err := modify(x[i].Value, comps[1:], create, f)
				if err != nil {
					return nil, err
				}
				x[i].Value = n
				return x, nil
			}
		}
		if !create {
			return x, nil
		}
		n, err := fresh(comps[1:], f)
		if err != nil {
			return nil, err
		}
		return append(x, bson.E{Key: comps[0], Value: n}), nil
	case bson.A:
		i, ok := idx(comps[0])
		if !ok {
			if !create {
				return x, nil
			}
			return nil, updErr{}
		}
		if i >= len(x) {
			if !create {
				return x, nil
			}
			n, err := fresh(comps[1:], f)
			if err != nil {
				return nil, err
			}
			for len(x) < i {
				x = append(x, nil)
			}
			return append(x, n), nil
		}
		if len(comps) == 1 {
			n, keep, err := f(x[i], true)
			if err != nil {
				return nil, err
			}
			if !keep {
				n = nil
			}
			x[i] = n
			return x, nil
		}
		if x[i] == nil {
			return nil, updErr{true}
		}
		n, err := modify(x[i], comps[1:], create, f)
		if err != nil {
			return nil, err
		}
		x[i] = n
		return x, nil
	}
	if !create {
		return v, nil
	}
	return nil, updErr{}
}

func fresh(comps []string, f func(any, bool) (any, bool, error)) (any, error) {
	if len(comps) == 0 {
		n, _, err := f(nil, false)
		return n, err
	}
	if _, isIdx := idx(comps[0]); isIdx {
		return nil, updErr{true}
	}
	n, err := fresh(comps[1:], f)
	if err != nil {
		return nil, err
	}
	return bson.D{{Key: comps[0], Value: n}}, nil
}

func applyUpdate(doc bson.D, upd bson.D) (bson.D, error) {
	var v any = clone(doc)
	for _, op := range upd {
		for _, e := range op.Value.(bson.D) {
			comps := strings.Split(e.Key, ".")
			create := op.Key != "$unset" && op.Key != "$pull"
			n, err := modify(v, comps, create, func(cur any, has bool) (any, bool, error) {
				switch op.Key {
				case "$set":
					return clone(e.Value), true, nil
				case "$unset":
					return nil, false, nil
				case "$inc":
					if !has {
						return e.Value, true, nil
					}
					a, ok := num(cur)
					if !ok {
						return nil, false, updErr{cur == nil}
					}
					b, _ := num(e.Value)
					return a + b, true, nil
				}
				if !has {
					return bson.A{clone(e.Value)}, true, nil
				}
				a, ok := cur.(bson.A)
				if !ok {
					return nil, false, updErr{cur == nil}
				}
				switch op.Key {
				case "$push":
					return append(append(bson.A{}, a...), clone(e.Value)), true, nil
				case "$addToSet":
					for _, x := range a {
						if eqVal(x, e.Value) {
							return a, true, nil
						}
					}
					return append(append(bson.A{}, a...), clone(e.Value)), true, nil
				case "$pull":
					out := bson.A{}
					for _, x := range a {
						var m tri
						if q, ok := e.Value.(bson.D); ok {
							if _, isD := x.(bson.D); isD {
								m = matchQuery(x, q)
							} else if _, isA := x.(bson.A); isA {
								m = matchQuery(x, q).and(unk)
							}
						} else {
							m = b2t(eqVal(x, e.Value))
						}
						if m == unk {
							return nil, false, updErr{true}
						}
						if m == no {
							out = append(out, x)
						}
					}
					return out, true, nil
				}
				panic(op.Key)
			})
			if err != nil {
				return doc, err
			}
			v = n
		}
	}
	return v.(bson.D), nil
}

// sameDoc compares documents: fields of the original keep their relative order, new fields come after them in any order.
func sameDoc(orig, want, got any) bool {
	w, ok1 := want.(bson.D)
	g, ok2 := got.(bson.D)
	if ok1 != ok2 {
		return false
	}
	if !ok1 {
		wa, ok1 := want.(bson.A)
		ga, ok2 := got.(bson.A)
		if ok1 && ok2 {
			oa, _ := orig.(bson.A)
			if len(wa) != len(ga) {
				return false
			}
			for i := range wa {
				var o any
				if i < len(oa) {
					o = oa[i]
				}
				if !sameDoc(o, wa[i], ga[i]) {
					return false
				}
			}
			return true
		}
		return eqVal(want, got)
	}
	if len(w) != len(g) {
		return false
	}
	o, _ := orig.(bson.D)
	rank := map[string]int{}
	for i, e := range o {
		rank[e.Key] = i
	}
	canon := func(d bson.D) bson.D {
		d = append(bson.D{}, d...)
		n := 0
		for n < len(d) {
			if _, ok := rank[d[n].Key]; !ok {
				break
			}
			n++
		}
		tail := d[n:]
		sort.Slice(tail, func(i, j int) bool { return tail[i].Key < tail[j].Key })
		return d
	}
	w, g = canon(w), canon(g)
	for i := range w {
		ov, _ := get(o, w[i].Key)
		if w[i].Key != g[i].Key || !sameDoc(ov, w[i].Value, g[i].Value) {
			return false
		}
	}
	return true
}

var _ = math.MaxInt32
