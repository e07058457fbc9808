package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/vipally/gx/factory"
	"gxv/mc"
)

type result struct{ id, n int }

// creator records its calls.
type creator struct {
	id    int
	calls int
	args  []interface{}
	ret   interface{}
}

func (c *creator) Create(arg ...interface{}) interface{} {
	c.calls++
	c.args = arg
	c.ret = &result{c.id, c.calls}
	if len(arg) == 1 && arg[0] == nil {
		c.ret = nil // a creator may return nil
	}
	return c.ret
}

var arglists = [][]interface{}{{}, {nil}, {1, "two", 3.0}, {[]int{1}, &result{}}}

// fac is one factory with its three operations over type index t.
type fac struct {
	add func(t int, c factory.Creater) error
	rem func(t int) error
	cre func(t int, a ...interface{}) interface{}
	raw interface{}
}

var intTypes = []int{0, 1, -1, 1 << 32}
var strTypes = []string{"", "a", "A", "ab"}
var serial int64
var gmu sync.Mutex // the global factory is not for concurrent use

func makeFac(kind int) fac {
	switch kind {
	case 0:
		f := factory.NewFactoryS()
		return fac{func(t int, c factory.Creater) error { return f.AddCreater(strTypes[t], c) }, func(t int) error { return f.RemoveCreater(strTypes[t]) }, func(t int, a ...interface{}) interface{} { return f.Create(strTypes[t], a...) }, f}
	case 1:
		f := factory.NewFactoryI()
		return fac{func(t int, c factory.Creater) error { return f.AddCreater(intTypes[t], c) }, func(t int) error { return f.RemoveCreater(intTypes[t]) }, func(t int, a ...interface{}) interface{} { return f.Create(intTypes[t], a...) }, f}
	}
	// the global factory: fresh names per instance
	pre := fmt.Sprintf("i%d-", atomic.AddInt64(&serial, 1))
	return fac{func(t int, c factory.Creater) error { return factory.AddCreater(pre+strTypes[t], c) }, func(t int) error { return factory.RemoveCreater(pre + strTypes[t]) }, func(t int, a ...interface{}) interface{} { return factory.Create(pre+strTypes[t], a...) }, nil}
}

type inst struct {
	kinds []int
	nt    int
	f     []fac
	cr    [3]*creator
	m     []map[int]int // factory -> type -> creator
}

func newInst(nt int, kinds ...int) *inst {
	s := &inst{kinds: kinds, nt: nt}
	for i := range s.cr {
		s.cr[i] = &creator{id: i}
	}
	for _, k := range kinds {
		s.f = append(s.f, makeFac(k))
		s.m = append(s.m, map[int]int{})
	}
	return s
}

func (s *inst) Ops() (r []mc.Op) {
	for f := range s.f {
		for t := 0; t < s.nt; t++ {
			for c := range s.cr {
				r = append(r, mc.O("Add", f, t, c))
			}
			r = append(r, mc.O("Remove", f, t))
			for a := range arglists {
				r = append(r, mc.O("Create", f, t, a))
			}
		}
	}
	return
}

func (s *inst) create(f, t, a int) error {
	var before [3]int
	for i, c := range s.cr {
		before[i] = c.calls
		c.args = nil
	}
	got := s.f[f].cre(t, arglists[a]...)
	want, ok := s.m[f][t]
	for i, c := range s.cr {
		n := c.calls - before[i]
		if ok && i == want {
			if n != 1 {
				return fmt.Errorf("creator %d called %d times", i, n)
			}
			if len(c.args) != len(arglists[a]) {
				return fmt.Errorf("creator got %d arguments, want %d", len(c.args), len(arglists[a]))
			}
			for j := range c.args {
				if fmt.Sprintf("%T %p %v", c.args[j], c.args[j], c.args[j]) != fmt.Sprintf("%T %p %v", arglists[a][j], arglists[a][j], arglists[a][j]) {
					return fmt.Errorf("argument %d differs", j)
				}
			}
			if got != c.ret {
				return fmt.Errorf("result of the creator not returned")
			}
		} else if n != 0 {
			return fmt.Errorf("creator %d called %d times although it is not registered for this type", i, n)
		}
	}
	if !ok && got != nil {
		return fmt.Errorf("Create of an unregistered type returned %v", got)
	}
	return nil
}

func (s *inst) Do(o mc.Op) error {
	f, t := o.A[0], o.A[1]
	switch o.N {
	case "Add":
		s.f[f].add(t, s.cr[o.A[2]])
		s.m[f][t] = o.A[2]
	case "Remove":
		s.f[f].rem(t)
		delete(s.m[f], t)
	case "Create":
		return s.create(f, t, o.A[2])
	}
	return nil
}

func (s *inst) Check() error { return nil }

func (s *inst) Drain() error {
	for f := range s.f {
		for t := 0; t < len(strTypes); t++ {
			if err := s.create(f, t, 2); err != nil {
				return fmt.Errorf("factory %d type %d: %v", f, t, err)
			}
		}
	}
	for f := range s.f { // remove all, then nothing may be left
		for t := 0; t < s.nt; t++ {
			s.Do(mc.O("Remove", f, t))
		}
		for t := 0; t < s.nt; t++ {
			if err := s.create(f, t, 0); err != nil {
				return fmt.Errorf("after removing all: %v", err)
			}
		}
	}
	return nil
}

func (s *inst) Key(d *mc.Dump) {
	for _, c := range s.cr { // the call counters are not part of the state
		c.calls, c.args, c.ret = 0, nil, nil
	}
	for f := range s.f {
		if s.f[f].raw != nil {
			d.Val(s.f[f].raw)
		}
		for t := 0; t < s.nt; t++ {
			c, ok := s.m[f][t]
			if !ok {
				c = -1
			}
			d.Int(int64(c))
		}
	}
}

func main() {
	mc.Main("C26", func(r *mc.Run) {
		names := []string{"string factory", "int factory"}
		for k := 0; k < 2; k++ {
			k := k
			r.Explore(mc.Sys{Name: names[k], Bounds: "one factory, 3 types, 3 creators, 4 argument lists, until closure",
				New: func() mc.Inst { return newInst(3, k) }})
			r.Explore(mc.Sys{Name: "two " + names[k], Bounds: "two factories of the same kind, 2 types, until closure",
				New: func() mc.Inst { return newInst(2, k, k) }})
		}
		r.Explore(mc.Sys{Name: "mixed", Bounds: "a string and an int factory, 2 types, until closure", New: func() mc.Inst { return newInst(2, 0, 1) }})
		// unmerged words catch state that the canonical dump might hide
		words := func(name string, kinds ...int) {
			probe := newInst(2, kinds...)
			ops := probe.Ops()
			l := r.Pick(4, 5)
			if len(ops) > 20 {
				l--
			}
			r.Enumerate(mc.Enum{Name: name, Bounds: fmt.Sprintf("every history of %d operations over 2 types, 3 creators (no state merging)", l), Serial: true,
				Gen: func(emit func(mc.Case)) { mc.Strings(len(ops), 0, l, emit) },
				Show: func(c mc.Case) string {
					s := ""
					for _, x := range c {
						s += " " + ops[x].String()
					}
					return s
				},
				Run: func(c mc.Case, t *mc.T) error {
					s := newInst(2, kinds...)
					t.Steps += int64(len(c) + 8)
					for _, x := range c {
						if err := s.Do(ops[x]); err != nil {
							return fmt.Errorf("%s: %v", ops[x], err)
						}
					}
					return s.Drain()
				}})
		}
		words("global words", 2)
		words("global and string words", 2, 0)
		words("string words", 0)
		words("int words", 1)
		r.Enumerate(mc.Enum{Name: "many types", Bounds: "each factory with up to 5000 types: all registered, every second replaced, every third removed, created in between", Small: true,
			Gen: func(emit func(mc.Case)) {
				for _, n := range append([]int{10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}, mc.Large...) {
					for k := 0; k < 3; k++ {
						emit(mc.Case{k, n})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				fs, fi := factory.NewFactoryS(), factory.NewFactoryI()
				pre := fmt.Sprintf("m%d-", atomic.AddInt64(&serial, 1))
				add := func(i int, x factory.Creater) { fs.AddCreater(fmt.Sprint(i), x) }
				rem := func(i int) { fs.RemoveCreater(fmt.Sprint(i)) }
				cre := func(i int) interface{} { return fs.Create(fmt.Sprint(i), i) }
				if c[0] == 1 {
					add = func(i int, x factory.Creater) { fi.AddCreater(i*3-500, x) }
					rem = func(i int) { fi.RemoveCreater(i*3 - 500) }
					cre = func(i int) interface{} { return fi.Create(i*3-500, i) }
				} else if c[0] == 2 {
					add = func(i int, x factory.Creater) { gmu.Lock(); factory.AddCreater(pre+fmt.Sprint(i), x); gmu.Unlock() }
					rem = func(i int) { gmu.Lock(); factory.RemoveCreater(pre + fmt.Sprint(i)); gmu.Unlock() }
					cre = func(i int) interface{} { gmu.Lock(); defer gmu.Unlock(); return factory.Create(pre+fmt.Sprint(i), i) }
				}
				n := c[1]
				want := make([]int, n)
				check := func(when string) error {
					for i := 0; i < n; i++ {
						x, _ := cre(i).(*result)
						t.Steps++
						if (x == nil) != (want[i] < 0) || x != nil && x.id != want[i] {
							return fmt.Errorf("%d types, %s: type %d gives %v, expected creator %d", n, when, i, x, want[i])
						}
					}
					return nil
				}
				for i := 0; i < n; i++ {
					want[i] = -1
				}
				if err := check("none registered"); err != nil {
					return err
				}
				for i := 0; i < n; i++ {
					add(i, &creator{id: i})
					want[i] = i
				}
				if err := check("all registered"); err != nil {
					return err
				}
				for i := 0; i < n; i += 2 {
					add(i, &creator{id: i + n})
					want[i] = i + n
				}
				if err := check("half replaced"); err != nil {
					return err
				}
				for i := 0; i < n; i += 3 {
					rem(i)
					want[i] = -1
				}
				if err := check("a third removed"); err != nil {
					return err
				}
				for i := 0; i < n; i++ {
					rem(i)
					want[i] = -1
				}
				return check("all removed")
			}})
		sn := []string{"", " ", "a", "A", "aa", "a ", " a", "a\x00", "\x00a", "b", "ab", "ba", "typename", "TypeName", "é", "e\u0301", "*main.T", "main.T", strings.Repeat("x", 300), strings.Repeat("x", 301), "0", "1", "-1", "00", "nil"}
		in := []int{0, 1, -1, 2, 7, 8, 255, 256, 257, -256, 1 << 16, 1<<16 + 1, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 32, 1<<32 + 1, 1 << 62, -1 << 63, 1<<63 - 1}
		r.Enumerate(mc.Enum{Name: "exact types", Bounds: "every pair of 25 similar names / 20 similar numbers: registering one does not register the other; all registered together stay apart", Serial: true,
			Gen: func(emit func(mc.Case)) { mc.Product(emit, 3) },
			Run: func(c mc.Case, t *mc.T) error {
				n := len(sn)
				var add func(i int, c factory.Creater) error
				var rem func(i int) error
				var cre func(i int) interface{}
				fresh := func() {
					switch c[0] {
					case 0:
						f := factory.NewFactoryS()
						add = func(i int, c factory.Creater) error { return f.AddCreater(sn[i], c) }
						rem = func(i int) error { return f.RemoveCreater(sn[i]) }
						cre = func(i int) interface{} { return f.Create(sn[i], 5) }
					case 1:
						f := factory.NewFactoryI()
						add = func(i int, c factory.Creater) error { return f.AddCreater(in[i], c) }
						rem = func(i int) error { return f.RemoveCreater(in[i]) }
						cre = func(i int) interface{} { return f.Create(in[i], 5) }
						n = len(in)
					case 2:
						add = func(i int, c factory.Creater) error { return factory.AddCreater(sn[i], c) }
						rem = func(i int) error { return factory.RemoveCreater(sn[i]) }
						cre = func(i int) interface{} { return factory.Create(sn[i], 5) }
					}
				}
				fresh()
				for i := 0; i < n; i++ {
					fresh()
					add(i, &creator{id: i})
					for j := 0; j < n; j++ {
						t.Steps++
						x := cre(j)
						if (x != nil) != (i == j) {
							return fmt.Errorf("type %d registered, Create of type %d gives %v", i, j, x)
						}
					}
					rem(i)
					if cre(i) != nil {
						return fmt.Errorf("type %d still registered", i)
					}
				}
				fresh()
				for i := 0; i < n; i++ {
					add(i, &creator{id: i})
				}
				for k := 0; k < n; k++ { // remove one after the other
					for j := 0; j < n; j++ {
						x, _ := cre(j).(*result)
						if (x != nil) != (j >= k) || x != nil && x.id != j {
							return fmt.Errorf("after %d removals type %d gives %v", k, j, x)
						}
						t.Steps++
					}
					rem(k)
				}
				return nil
			}})
	})
}
