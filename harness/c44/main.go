// C44: the key/value mapping template is a bijection.
package main

import (
	"fmt"
	"reflect"

	"gxs/maps/iface"
	"gxs/maps/ifacego"
	"gxs/maps/intint"
	"gxs/maps/intintgo"
	"gxs/maps/intstr"
	"gxs/maps/intstrgo"
	"gxs/maps/strint"
	"gxs/maps/strintgo"
	"gxs/maps/stru"
	"gxs/maps/strugo"
	"gxv/mc"
)

type mapping[K, V, I any] interface {
	Init()
	Insert(K, V) (I, error)
	RemoveByKey(K) bool
	RemoveByValue(V) bool
	Find(K) (V, bool)
	ReverseFind(V) (K, bool)
	Clear()
}

// sys is one mapping behind key and value numbers.
type sys struct {
	name   string
	nk, nv int
	mk     func(zero bool) *obj
}
type obj struct {
	insert       func(k, v int) (id int, ok bool) // id: number of the key, -1 for another
	byKey, byVal func(int) bool
	find, rev    func(int) (int, bool)
	clear, init  func()
	raw          any
}

func wrap[K, V comparable, I any, M mapping[K, V, I]](name string, mk func() M, keys []K, vals []V) *sys {
	var zk K
	var zv V
	return &sys{name, len(keys), len(vals), func(zero bool) *obj {
		m := mk()
		if zero {
			m = reflect.New(reflect.TypeOf(m).Elem()).Interface().(M)
			m.Init()
		}
		kn := func(k K) int {
			for i := range keys {
				if keys[i] == k {
					return i
				}
			}
			return -1
		}
		return &obj{
			raw: m,
			insert: func(k, v int) (int, bool) {
				id, err := m.Insert(keys[k], vals[v])
				if err != nil {
					return -1, false
				}
				return kn(reflect.ValueOf(id).Convert(reflect.TypeOf(zk)).Interface().(K)), true
			},
			byKey: func(k int) bool { return m.RemoveByKey(keys[k]) },
			byVal: func(v int) bool { return m.RemoveByValue(vals[v]) },
			find: func(k int) (int, bool) {
				x, ok := m.Find(keys[k])
				if !ok {
					if x != zv {
						return -2, false
					}
					return -1, false
				}
				for i := range vals {
					if vals[i] == x {
						return i, true
					}
				}
				return -1, true
			},
			rev: func(v int) (int, bool) {
				x, ok := m.ReverseFind(vals[v])
				if !ok {
					if x != zk {
						return -2, false
					}
					return -1, false
				}
				return kn(x), true
			},
			clear: m.Clear, init: m.Init,
		}
	}}
}

var structK = []stru.K{{}, {"", 1}, {"a", 0}}
var structV = []stru.V{{}, {0, 1}, {1, 0}}
var structKg = []strugo.K{{}, {"", 1}, {"a", 0}}
var structVg = []strugo.V{{}, {0, 1}, {1, 0}}
var any3 = []interface{}{nil, 0, "0"}

var systems = []*sys{
	wrap("string to int", strint.NewXMapping, []string{"", "a", "A"}, []int{0, 1, -1}),
	wrap("int to string", intstr.NewXMapping, []int{0, 1, -1}, []string{"", "a", "a "}),
	wrap("int to int", intint.NewXMapping, []int{0, 1, 2}, []int{0, 1, 2}),
	wrap("struct to array", stru.NewXMapping, structK, structV),
	wrap("byte to interface", iface.NewXMapping, []uint8{0, 1, 255}, any3),
	wrap("string to int (fake go file)", strintgo.NewXMapping, []string{"", "a", "A"}, []int{0, 1, -1}),
	wrap("int to string (fake go file)", intstrgo.NewXMapping, []int{0, 1, -1}, []string{"", "a", "a "}),
	wrap("int to int (fake go file)", intintgo.NewXMapping, []int{0, 1, 2}, []int{0, 1, 2}),
	wrap("struct to array (fake go file)", strugo.NewXMapping, structKg, structVg),
	wrap("byte to interface (fake go file)", ifacego.NewXMapping, []uint8{0, 1, 255}, any3),
}

// state: the object and its model, key number to value number.
type state struct {
	o *obj
	m map[int]int
}

func (s *state) keyOf(v int) (int, bool) {
	for k, x := range s.m {
		if x == v {
			return k, true
		}
	}
	return -1, false
}

// op: 0..8 Insert(k,v), 9..11 RemoveByKey, 12..14 RemoveByValue, 15 Clear, 16 Init
const nops = 17

func opName(op int) string {
	switch {
	case op < 9:
		return fmt.Sprintf("Insert(%d,%d)", op/3, op%3)
	case op < 12:
		return fmt.Sprintf("RemoveByKey(%d)", op-9)
	case op < 15:
		return fmt.Sprintf("RemoveByValue(%d)", op-12)
	case op == 15:
		return "Clear"
	}
	return "Init"
}

func (s *state) step(op int) error {
	switch {
	case op < 9:
		k, v := op/3, op%3
		_, a := s.m[k]
		_, b := s.keyOf(v)
		id, ok := s.o.insert(k, v)
		if ok != (!a && !b) || ok && id != k {
			return fmt.Errorf("%s: id %d, ok %v; the key is used: %v, the value is used: %v", opName(op), id, ok, a, b)
		}
		if ok {
			s.m[k] = v
		}
	case op < 12:
		_, a := s.m[op-9]
		if ok := s.o.byKey(op - 9); ok != a {
			return fmt.Errorf("%s: %v, expected %v", opName(op), ok, a)
		}
		delete(s.m, op-9)
	case op < 15:
		k, a := s.keyOf(op - 12)
		if ok := s.o.byVal(op - 12); ok != a {
			return fmt.Errorf("%s: %v, expected %v", opName(op), ok, a)
		}
		delete(s.m, k)
	case op == 15:
		s.o.clear()
		s.m = map[int]int{}
	default:
		s.o.init()
		s.m = map[int]int{}
	}
	return s.check()
}

func (s *state) check() error {
	for k := 0; k < 3; k++ {
		w, ok := s.m[k]
		if !ok {
			w = -1
		}
		if v, g := s.o.find(k); g != ok || v != w {
			return fmt.Errorf("Find(%d): %d %v, expected %d %v", k, v, g, w, ok)
		}
		w, ok = s.keyOf(k)
		if v, g := s.o.rev(k); g != ok || v != w {
			return fmt.Errorf("ReverseFind(%d): %d %v, expected %d %v", k, v, g, w, ok)
		}
	}
	return nil
}

func main() {
	mc.Main("C44", func(r *mc.Run) {
		n := r.Pick(4, 5)
		for i := range systems {
			s := systems[i]
			r.Enumerate(mc.Enum{Name: s.name, Bounds: fmt.Sprintf("every history of %d of the %d operations on 3 keys and 3 values (the zero values among them), all keys and values looked up after each", n, nops), Gen: func(emit func(mc.Case)) {
				mc.Strings(nops, n, n, func(c mc.Case) { emit(append(mc.Case{0}, c...)); emit(append(mc.Case{1}, c...)) })
			}, Show: func(c mc.Case) string {
				x := []string{"New", "zero value, Init"}[c[0]]
				for _, o := range c[1:] {
					x += " " + opName(o)
				}
				return x
			}, Run: func(c mc.Case, t *mc.T) error {
				st := &state{s.mk(c[0] == 1), map[int]int{}}
				if err := st.check(); err != nil {
					return err
				}
				for _, o := range c[1:] {
					if err := st.step(o); err != nil {
						return err
					}
					t.Steps += 7
				}
				return nil
			}})
			r.Enumerate(mc.Enum{Name: s.name + ", long", Bounds: "every set of pairs of 3 keys and 3 values, reached by insertions in every order, then every word of 3 operations", Gen: func(emit func(mc.Case)) {
				var rec func(c mc.Case, k, v int)
				rec = func(c mc.Case, k, v int) {
					mc.Strings(nops, 3, 3, func(w mc.Case) { emit(append(append(mc.Case{len(c)}, c...), w...)) })
					for i := 0; i < 9; i++ {
						if k>>uint(i/3)&1 == 0 && v>>uint(i%3)&1 == 0 {
							rec(append(append(mc.Case{}, c...), i), k|1<<uint(i/3), v|1<<uint(i%3))
						}
					}
				}
				rec(nil, 0, 0)
			}, Show: func(c mc.Case) string {
				x := ""
				for _, o := range c[1:] {
					x += opName(o) + " "
				}
				return x
			}, Run: func(c mc.Case, t *mc.T) error {
				st := &state{s.mk(false), map[int]int{}}
				for _, o := range c[1:] {
					if err := st.step(o); err != nil {
						return err
					}
					t.Steps += 7
				}
				return nil
			}})
			r.Enumerate(mc.Enum{Name: s.name + ", two", Bounds: "every history of 3 operations on two mappings: no influence on each other", Gen: func(emit func(mc.Case)) {
				mc.Strings(2*nops, 3, 3, emit)
			}, Show: func(c mc.Case) string {
				x := ""
				for _, o := range c {
					x += []string{"a.", "b."}[o%2] + opName(o/2) + " "
				}
				return x
			}, Run: func(c mc.Case, t *mc.T) error {
				st := [2]*state{{s.mk(false), map[int]int{}}, {s.mk(true), map[int]int{}}}
				for _, o := range c {
					if err := st[o%2].step(o / 2); err != nil {
						return err
					}
					if err := st[1-o%2].check(); err != nil {
						return fmt.Errorf("the other mapping: %v", err)
					}
					t.Steps += 14
				}
				return nil
			}})
		}
		r.Enumerate(mc.Enum{Name: "many", Bounds: "int to int: n pairs for every n up to 200 (thorough 1000) and 26 more up to 100000, inserted ascending, descending or interleaved, each then removed by key or value in 3 orders", Gen: func(emit func(mc.Case)) {
			for i := 0; i < r.Pick(200, 1000); i++ {
				for j := 0; j < 6; j++ {
					emit(mc.Case{i, j})
				}
			}
			for _, i := range append(append([]int{}, mc.Large...), mc.Huge...) {
				for j := 0; j < 6; j++ {
					emit(mc.Case{i, j})
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			m := intint.NewXMapping()
			n := c[0]
			for i := 0; i < n; i++ {
				k := i
				if c[1]%3 == 1 {
					k = n - 1 - i
				} else if c[1]%3 == 2 {
					k = i / 2
					if i%2 == 1 {
						k = n - 1 - i/2
					}
				}
				if id, err := m.Insert(k, 7*k+1); err != nil || int(id) != k {
					return fmt.Errorf("Insert(%d): %v %v", k, id, err)
				}
				t.Steps++
			}
			for i := 0; i < n; i++ {
				if v, ok := m.Find(i); !ok || v != 7*i+1 {
					return fmt.Errorf("Find(%d): %d %v", i, v, ok)
				}
				if k, ok := m.ReverseFind(7*i + 1); !ok || k != i {
					return fmt.Errorf("ReverseFind(%d): %d %v", 7*i+1, k, ok)
				}
				t.Steps += 2
			}
			for i := 0; i < n; i++ {
				ok := false
				if c[1] < 3 {
					ok = m.RemoveByKey(i)
				} else {
					ok = m.RemoveByValue(7*i + 1)
				}
				_, a := m.Find(i)
				_, b := m.ReverseFind(7*i + 1)
				if !ok || a || b {
					return fmt.Errorf("remove %d: %v, still there %v %v", i, ok, a, b)
				}
				t.Steps += 3
			}
			return nil
		}})
	})
}
