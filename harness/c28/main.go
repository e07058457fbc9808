package main

import (
	"fmt"
	htmpl "html/template"
	"math"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"reflect"
	ttmpl "text/template"
	"time"

	gx "github.com/vipally/gx/reflect"
	"gxv/mc"
)

type (
	myInt    int
	myStr    string
	myFloat  float64
	myBool   bool
	st       struct{ A int }
	st2      struct{ A int }
	empty    struct{}
	iface    interface{ M() }
	impl     struct{ x int }
	gen[T any] struct{ v T }
	alias    = int
	aliasS   = string
	myBytes  []byte
	tree     struct{ l, r *tree }
)

func (impl) M() {}

// types of the same name in different scopes
func local1() (a, b, c, d interface{}) {
	type st struct{ A int }
	type myInt int
	type int alias
	type string aliasS
	return st{1}, myInt(1), int(1), string("x")
}

func local2() (a, b, c, d interface{}) {
	type st struct{ A int }
	type myInt int
	type int alias
	type string aliasS
	return st{2}, myInt(2), int(2), string("y")
}

// sample: two values of the same type; id is assigned by hand.
type sample struct {
	id    int
	v     interface{}
	kind  reflect.Kind
	basic bool // predeclared integer, float or string type
	name  string
}

var all = func() (l []sample) {
	id := 0
	add := func(kind reflect.Kind, basic bool, name string, vs ...interface{}) {
		id++
		for _, v := range vs {
			l = append(l, sample{id, v, kind, basic, name})
		}
	}
	add(reflect.Int, true, "int", 0, 5, -1, alias(9), math.MaxInt64)
	add(reflect.Int8, true, "int8", int8(0), int8(-128))
	add(reflect.Int16, true, "int16", int16(0), int16(7))
	add(reflect.Int32, true, "int32", int32(0), 'x')
	add(reflect.Int64, true, "int64", int64(0), int64(1))
	add(reflect.Uint, true, "uint", uint(0), uint(3))
	add(reflect.Uint8, true, "uint8", uint8(0), byte(255))
	add(reflect.Uint16, true, "uint16", uint16(0), uint16(2))
	add(reflect.Uint32, true, "uint32", uint32(0), uint32(2))
	add(reflect.Uint64, true, "uint64", uint64(0), uint64(2))
	add(reflect.Float32, true, "float32", float32(0), float32(math.NaN()))
	add(reflect.Float64, true, "float64", 0.0, math.NaN(), math.Inf(1))
	add(reflect.String, true, "string", "", "abc")
	add(reflect.Bool, false, "bool", false, true)
	add(reflect.Uintptr, false, "uintptr", uintptr(0), uintptr(1))
	add(reflect.Complex64, false, "complex64", complex64(0), complex64(1i))
	add(reflect.Complex128, false, "complex128", complex128(0), 1i)
	add(reflect.Int, false, "myInt", myInt(0), myInt(4))
	add(reflect.String, false, "myStr", myStr(""), myStr("q"))
	add(reflect.Float64, false, "myFloat", myFloat(0), myFloat(1))
	add(reflect.Bool, false, "myBool", myBool(true))
	add(reflect.Int64, false, "Duration", time.Duration(0), time.Second)
	add(reflect.Int, false, "Month", time.January)
	add(reflect.Struct, false, "st", st{}, st{3})
	add(reflect.Struct, false, "st2", st2{}, st2{3})
	add(reflect.Struct, false, "anon struct", struct{ A int }{}, struct{ A int }{7})
	add(reflect.Struct, false, "anon struct tagged", struct {
		A int `x:"y"`
	}{})
	add(reflect.Struct, false, "anon struct B", struct{ B int }{})
	add(reflect.Struct, false, "empty", empty{})
	add(reflect.Struct, false, "struct{}", struct{}{})
	add(reflect.Ptr, false, "*int", (*int)(nil), new(int))
	add(reflect.Ptr, false, "**int", new(*int))
	add(reflect.Ptr, false, "*st", (*st)(nil), &st{1})
	add(reflect.Ptr, false, "*st2", (*st2)(nil))
	add(reflect.Ptr, false, "*tree", &tree{}, &tree{l: &tree{}})
	add(reflect.Struct, false, "tree", tree{}, tree{r: &tree{}})
	add(reflect.Struct, false, "impl", impl{1}, iface(impl{2}))
	add(reflect.Ptr, false, "*impl", &impl{1}, iface(&impl{2}))
	add(reflect.Ptr, false, "*iface", new(iface))
	add(reflect.Slice, false, "[]int", []int(nil), []int{1, 2})
	add(reflect.Slice, false, "[]byte", []byte(nil), []byte("x"))
	add(reflect.Slice, false, "myBytes", myBytes(nil), myBytes("x"))
	add(reflect.Slice, false, "[]string", []string{})
	add(reflect.Slice, false, "[][]int", [][]int{{1}})
	add(reflect.Slice, false, "[]interface{}", []interface{}{1, "a"})
	add(reflect.Array, false, "[2]int", [2]int{}, [2]int{1, 2})
	add(reflect.Array, false, "[3]int", [3]int{1})
	add(reflect.Array, false, "[0]int", [0]int{})
	add(reflect.Map, false, "map[string]int", map[string]int(nil), map[string]int{"a": 1})
	add(reflect.Map, false, "map[int]string", map[int]string{})
	add(reflect.Chan, false, "chan int", make(chan int), (chan int)(nil))
	add(reflect.Chan, false, "<-chan int", (<-chan int)(nil))
	add(reflect.Chan, false, "chan<- int", (chan<- int)(nil))
	add(reflect.Func, false, "func()", func() {}, (func())(nil))
	add(reflect.Func, false, "func(int) error", func(int) error { return nil })
	add(reflect.Struct, false, "gen[int]", gen[int]{1})
	add(reflect.Struct, false, "gen[string]", gen[string]{"a"})
	add(reflect.Ptr, false, "*error", new(error))
	add(reflect.Struct, false, "Time", time.Time{}, time.Unix(5, 0))
	// the same name, another scope or package
	for i, f := range []func() (a, b, c, d interface{}){local1, local2} {
		a, b, c, d := f()
		n := fmt.Sprintf("local%d ", i+1)
		add(reflect.Struct, false, n+"st", a)
		add(reflect.Int, false, n+"myInt", b)
		add(reflect.Int, false, n+"int", c)
		add(reflect.String, false, n+"string", d)
	}
	add(reflect.Ptr, false, "*html/template.Template", (*htmpl.Template)(nil))
	add(reflect.Ptr, false, "*text/template.Template", (*ttmpl.Template)(nil))
	add(reflect.Ptr, false, "*math/rand.Rand", (*mrand.Rand)(nil))
	add(reflect.Ptr, false, "*math/rand/v2.Rand", (*mrand2.Rand)(nil))
	add(reflect.Map, false, "html/template.FuncMap", htmpl.FuncMap(nil))
	add(reflect.Map, false, "map[string]interface{}", map[string]interface{}(nil))
	add(reflect.Struct, false, "html/template.Error", htmpl.Error{})
	// types built at run time, one per array length
	for i := 4; i < 12; i++ {
		t := reflect.ArrayOf(i, reflect.TypeOf(0))
		add(reflect.Array, false, t.String(), reflect.New(t).Elem().Interface(), reflect.New(t).Elem().Interface())
	}
	return
}()

func isZero(v reflect.Value) bool { return v.IsZero() }

func snap(v interface{}) string { return fmt.Sprintf("%T %#v", v, v) }

func main() {
	mc.Main("C28", func(r *mc.Run) {
		r.Assume = append(r.Assume, "non-nil samples for New and Kind")
		r.Enumerate(mc.Enum{Name: "pairs", Bounds: fmt.Sprintf("all pairs of %d sample values of %d distinct types", len(all), all[len(all)-1].id),
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(all), len(all)) },
			Show: func(c mc.Case) string { return all[c[0]].name + " / " + all[c[1]].name },
			Run: func(c mc.Case, t *mc.T) error {
				a, b := all[c[0]], all[c[1]]
				t.Steps++
				if gx.IsSameType(a.v, b.v) != (a.id == b.id) {
					return fmt.Errorf("IsSameType(%s, %s)=%v", a.name, b.name, a.id != b.id)
				}
				if gx.IsSameType(a.v, nil) || gx.IsSameType(nil, a.v) {
					return fmt.Errorf("IsSameType(%s, nil)", a.name)
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "samples", Bounds: "New (three times, written and compared), Kind and IsCmpableInnterType of every sample and of pointers to it",
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(all), 4) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%s level %d", all[c[0]].name, c[1]) },
			Run: func(c mc.Case, t *mc.T) error {
				s := all[c[0]]
				v, kind, basic := s.v, s.kind, s.basic
				for i := 0; i < c[1]; i++ { // pointers to it, built by New itself
					v, kind, basic = gx.New(v), reflect.Ptr, false
				}
				if gx.Kind(v) != kind {
					return fmt.Errorf("Kind=%v, want %v", gx.Kind(v), kind)
				}
				if gx.IsCmpableInnterType(v) != basic {
					return fmt.Errorf("IsCmpableInnterType=%v", !basic)
				}
				before := snap(v)
				var seen []reflect.Value
				for i := 0; i < 3; i++ {
					n := gx.New(v)
					t.Steps++
					p := reflect.ValueOf(n)
					if p.Kind() != reflect.Ptr || p.IsNil() || p.Type().Elem() != reflect.TypeOf(v) {
						return fmt.Errorf("New(%s) has type %T", s.name, n)
					}
					if !isZero(p.Elem()) {
						return fmt.Errorf("New(%s) is not zero: %#v", s.name, p.Elem().Interface())
					}
					if p.Type().Elem().Size() > 0 {
						for _, q := range seen {
							if q.Pointer() == p.Pointer() {
								return fmt.Errorf("New(%s) returned the same object twice", s.name)
							}
						}
						if vv := reflect.ValueOf(v); vv.Kind() == reflect.Ptr && !vv.IsNil() && vv.Pointer() == p.Pointer() {
							return fmt.Errorf("New(%s) returned the sample", s.name)
						}
					}
					seen = append(seen, p)
					// dirty it: neither the sample nor later results may change
					p.Elem().Set(reflect.ValueOf(v))
					if p.Elem().Kind() == reflect.Int {
						p.Elem().SetInt(77)
					}
				}
				if kind != reflect.Ptr && kind != reflect.Chan && kind != reflect.Func && before != snap(v) {
					return fmt.Errorf("sample modified")
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "nil", Bounds: "nil is no comparable basic type",
			Gen: func(emit func(mc.Case)) { emit(mc.Case{0}) },
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps++
				if gx.IsCmpableInnterType(nil) {
					return fmt.Errorf("nil accepted")
				}
				return nil
			}})
	})
}
