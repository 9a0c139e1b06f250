package rt

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type S1 struct {
	A int64
	B string
	C []string
	D *S2
}
type S2 struct{ X map[string]int }
type named string
type iface interface{ Foo() string }
type impl struct{ N int }

func (i impl) Foo() string { return "x" }

var copyTypes = []reflect.Type{
	reflect.TypeFor[int](), reflect.TypeFor[int64](), reflect.TypeFor[int32](), reflect.TypeFor[float64](), reflect.TypeFor[string](), reflect.TypeFor[bool](), reflect.TypeFor[named](),
	reflect.TypeFor[S1](), reflect.TypeFor[S2](), reflect.TypeFor[*S1](), reflect.TypeFor[*int64](), reflect.TypeFor[**string](),
	reflect.TypeFor[any](), reflect.TypeFor[iface](), reflect.TypeFor[impl](), reflect.TypeFor[*impl](), reflect.TypeFor[error](),
	reflect.TypeFor[[]string](), reflect.TypeFor[[]any](), reflect.TypeFor[[]int64](), reflect.TypeFor[[][]string](), reflect.TypeFor[[]S1](), reflect.TypeFor[[]*S1](), reflect.TypeFor[[][]any](), reflect.TypeFor[[]byte](), reflect.TypeFor[[]iface](), reflect.TypeFor[[]map[string]int](),
	reflect.TypeFor[map[string]int](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[string]S1](), reflect.TypeFor[[2]int](), reflect.TypeFor[[2]string](), reflect.TypeFor[func()](), reflect.TypeFor[chan int](),
}

func genVal(t *rapid.T, ty reflect.Type, depth int) reflect.Value {
	v := reflect.New(ty).Elem()
	switch ty.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8:
		n := rapid.IntRange(-3, 120).Draw(t, "n")
		if ty.Kind() == reflect.Uint8 {
			v.SetUint(uint64(n & 0x7f))
		} else {
			v.SetInt(int64(n))
		}
	case reflect.Float64:
		v.SetFloat(float64(rapid.IntRange(-3, 9).Draw(t, "f")) / 2)
	case reflect.String:
		v.SetString(rapid.SampledFrom([]string{"", "a", "bb", "日本"}).Draw(t, "s"))
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "b"))
	case reflect.Struct:
		for i := 0; i < ty.NumField(); i++ {
			if depth > 0 {
				v.Field(i).Set(genVal(t, ty.Field(i).Type, depth-1))
			}
		}
	case reflect.Pointer:
		if depth > 0 && rapid.IntRange(0, 3).Draw(t, "nonnil") > 0 {
			v.Set(reflect.New(ty.Elem()))
			v.Elem().Set(genVal(t, ty.Elem(), depth-1))
		}
	case reflect.Interface:
		if depth > 0 && rapid.IntRange(0, 3).Draw(t, "nonnil") > 0 {
			var opts []reflect.Type
			for _, c := range copyTypes {
				if c.Implements(ty) && c.Kind() != reflect.Interface && c.Kind() != reflect.Func && c.Kind() != reflect.Chan {
					opts = append(opts, c)
				}
			}
			if len(opts) > 0 {
				v.Set(genVal(t, rapid.SampledFrom(opts).Draw(t, "dyn"), depth-1))
			}
		}
	case reflect.Slice:
		if rapid.IntRange(0, 4).Draw(t, "nonnil") > 0 {
			n := rapid.IntRange(0, 3).Draw(t, "len")
			v.Set(reflect.MakeSlice(ty, n, n))
			for i := 0; i < n; i++ {
				v.Index(i).Set(genVal(t, ty.Elem(), depth-1))
			}
		}
	case reflect.Map:
		if rapid.IntRange(0, 4).Draw(t, "nonnil") > 0 {
			v.Set(reflect.MakeMap(ty))
			for i := 0; i < rapid.IntRange(0, 2).Draw(t, "len"); i++ {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", i)), genVal(t, ty.Elem(), depth-1))
			}
		}
	case reflect.Array:
		for i := 0; i < ty.Len(); i++ {
			v.Index(i).Set(genVal(t, ty.Elem(), depth))
		}
	}
	return v
}

type outcome int

const (
	mustCopy outcome = iota
	mustFail
	either // a nil source: copying the destination's nil and refusing are both fine
)

// what CopyResult should do with a source value (dynamic, as seen through any) and a destination type
func spec(src any, dst reflect.Type) (outcome, reflect.Value) {
	if src == nil {
		switch dst.Kind() {
		case reflect.Interface, reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
			return either, reflect.Zero(dst)
		}
		return mustFail, reflect.Value{}
	}
	sv := reflect.ValueOf(src)
	if sv.Kind() == reflect.Slice && dst.Kind() == reflect.Slice {
		out := reflect.MakeSlice(dst, sv.Len(), sv.Len())
		res := mustCopy
		for i := 0; i < sv.Len(); i++ {
			o, v := spec(sv.Index(i).Interface(), dst.Elem())
			if o == mustFail {
				return mustFail, reflect.Value{}
			}
			if o == either {
				res = either
			}
			out.Index(i).Set(v)
		}
		return res, out
	}
	if sv.Type().AssignableTo(dst) {
		out := reflect.New(dst).Elem()
		out.Set(sv)
		return mustCopy, out
	}
	return mustFail, reflect.Value{}
}

// DeepEqual, except that nil and empty slices are interchangeable
func eqv(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqv(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func TestC39_Copy(t *testing.T) {
	h.Check(t, h.Opts{Quick: 60000, Thorough: 3000000, Rule: "a random value of one of 33 type shapes is copied into a destination of the same or another type holding another value; non-trivial = the source is a composite value or the types differ"}, func(t *rapid.T, c *h.Case) {
		st := rapid.SampledFrom(copyTypes).Draw(t, "srctype")
		dt := st
		if rapid.Bool().Draw(t, "othertype") {
			dt = rapid.SampledFrom(copyTypes).Draw(t, "dsttype")
		}
		sv := genVal(t, st, 3)
		src := sv.Interface()
		dv := genVal(t, dt, 2)
		dst := reflect.New(dt)
		dst.Elem().Set(dv)
		c.Logf("copy %v(%#v) into %v(%v)", st, src, dt, dv)
		c.NonTrivial(dt != st || st.Kind() == reflect.Slice || st.Kind() == reflect.Map || st.Kind() == reflect.Struct || st.Kind() == reflect.Pointer)
		want, wv := spec(src, dt)
		var err error
		if p := h.Try(func() { err = backend.CopyResult(src, dst.Interface()) }); p != nil {
			c.Failf("CopyResult panicked: %v", p)
		}
		if err != nil {
			c.Label("refused")
			if want == mustCopy {
				c.Failf("CopyResult refused compatible types: %v", err)
			}
			if dt.Kind() == reflect.Func || dt.Kind() == reflect.Chan {
				return
			}
			if !eqv(dst.Elem(), dv) {
				c.Failf("failed copy changed the destination to %#v", dst.Elem())
			}
			return
		}
		c.Label("copied")
		if want == mustFail {
			c.Failf("CopyResult accepted incompatible types, destination is now %#v", dst.Elem())
		}
		if dt.Kind() != reflect.Func && dt.Kind() != reflect.Chan && !eqv(dst.Elem(), wv) {
			c.Failf("destination is %#v, expected %#v", dst.Elem(), wv)
		}
		if err := backend.SetZero(dst.Interface()); err != nil {
			c.Failf("SetZero failed: %v", err)
		}
		if !dst.Elem().IsZero() {
			c.Failf("SetZero left %#v", dst.Elem())
		}
	})
}

func TestC39_BadDst(t *testing.T) {
	h.Check(t, h.Opts{Quick: 15000, Thorough: 300000, Rule: "CopyResult/SetZero/GetPointerValue on destinations that are not usable pointers (nil, non-pointer, nil pointer) or are pointers; non-trivial = a typed nil pointer or non-pointer composite"}, func(t *rapid.T, c *h.Case) {
		src := genVal(t, rapid.SampledFrom(copyTypes).Draw(t, "srctype"), 2).Interface()
		dt := rapid.SampledFrom(copyTypes).Draw(t, "dsttype")
		var dst any
		usable := false
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			dst = reflect.Zero(reflect.PointerTo(dt)).Interface()
		case 1:
			dst = genVal(t, dt, 2).Interface()
			usable = dst != nil && reflect.TypeOf(dst).Kind() == reflect.Pointer && !reflect.ValueOf(dst).IsNil()
		case 2:
			dst = nil
		}
		c.Logf("src %#v dst %T usable=%v", src, dst, usable)
		c.NonTrivial(dst != nil)
		var err error
		if !usable {
			if p := h.Try(func() { err = backend.CopyResult(src, dst) }); p != nil {
				c.Failf("CopyResult panicked: %v", p)
			}
			if err == nil {
				c.Failf("CopyResult reported success without a usable destination")
			}
			if p := h.Try(func() { err = backend.SetZero(dst) }); p != nil {
				c.Failf("SetZero panicked: %v", p)
			}
			if err == nil {
				c.Failf("SetZero reported success without a usable destination")
			}
		}
		var v any
		if p := h.Try(func() { v, err = backend.GetPointerValue(dst) }); p != nil {
			c.Failf("GetPointerValue panicked: %v", p)
		}
		if (err == nil) != usable {
			c.Failf("GetPointerValue: err=%v for usable=%v", err, usable)
		}
		if usable && !eqv(reflect.ValueOf(&v).Elem(), anyOf(reflect.ValueOf(dst).Elem())) {
			c.Failf("GetPointerValue returned %#v", v)
		}
	})
}

func anyOf(v reflect.Value) reflect.Value {
	var a any = v.Interface()
	return reflect.ValueOf(&a).Elem()
}
