package main

import (
	"fmt"
	"sort"

	"gxt/elem"
	"gxt/greater"
	"gxt/ptr"
	"gxt/str"
	"gxv/c38/api"
	"gxv/lin"
	"gxv/mc"
)

// ordered gives l in the default order of s, equal keys in their old order.
func ordered(s *api.Set, l []int) []int {
	r := append([]int(nil), l...)
	sort.SliceStable(r, func(i, j int) bool {
		if s.Greater {
			return s.Key(r[j]) < s.Key(r[i])
		}
		return s.Key(r[i]) < s.Key(r[j])
	})
	return r
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rev(a []int) []int {
	r := make([]int, len(a))
	for i, v := range a {
		r[len(a)-1-i] = v
	}
	return r
}

type item struct {
	v int
	n api.Node
}

// list is a list in lockstep with a slice of its elements.
type list struct {
	s   *api.Set
	l   *api.List
	mk  func() *api.List
	m   []item
	max int
}

func (x *list) Ops() []mc.Op {
	if x.l == nil {
		x.l = x.mk()
	}
	var r []mc.Op
	var vs []int // the smallest element of every key that is not in the list
	seen := map[int]bool{}
	for _, v := range x.s.Vals {
		used := false
		for _, i := range x.m {
			used = used || i.v == v
		}
		if !used && !seen[v/10] {
			seen[v/10] = true
			vs = append(vs, v)
		}
	}
	if len(x.m) < x.max {
		for _, v := range vs {
			if x.l.PushBack != nil {
				r = append(r, mc.O("PushBack", v))
			}
			r = append(r, mc.O("PushFront", v))
			for i := range x.m {
				r = append(r, mc.O("PushAfter", v, i))
				if x.l.PushBefore != nil {
					r = append(r, mc.O("PushBefore", v, i))
				}
			}
		}
	}
	r = append(r, mc.O("PopFront"), mc.O("Reverse"), mc.O("Sort"), mc.O("Clear"))
	if x.l.PopBack != nil {
		r = append(r, mc.O("PopBack"))
	}
	for i := range x.m {
		r = append(r, mc.O("Remove", i), mc.O("MoveFront", i))
		if x.l.MoveBack != nil {
			r = append(r, mc.O("MoveBack", i))
		}
		if len(vs) > 0 {
			r = append(r, mc.O("Set", i, vs[0]))
		}
		for j := range x.m {
			if i != j {
				r = append(r, mc.O("MoveAfter", i, j))
				if x.l.MoveBefore != nil {
					r = append(r, mc.O("MoveBefore", i, j))
				}
			}
		}
	}
	return r
}

func (x *list) ins(i int, it item) {
	m := append([]item(nil), x.m[:i]...)
	m = append(m, it)
	x.m = append(m, x.m[i:]...)
}

func (x *list) del(i int) item {
	it := x.m[i]
	x.m = append(append([]item(nil), x.m[:i]...), x.m[i+1:]...)
	return it
}

func (x *list) pop(what string, i int, v int, ok bool) error {
	if ok != (len(x.m) > 0) {
		return fmt.Errorf("%s ok=%v with %d elements", what, ok, len(x.m))
	}
	if ok {
		if i < 0 {
			i = len(x.m) - 1
		}
		if it := x.del(i); it.v != v {
			return fmt.Errorf("%s gave element %d, want %d", what, v, it.v)
		}
	}
	return nil
}

func (x *list) Do(o mc.Op) error {
	if x.l == nil {
		x.l = x.mk()
	}
	l := x.l
	switch o.N {
	case "PushBack":
		x.ins(len(x.m), item{o.A[0], l.PushBack(o.A[0])})
	case "PushFront":
		x.ins(0, item{o.A[0], l.PushFront(o.A[0])})
	case "PushAfter":
		x.ins(o.A[1]+1, item{o.A[0], l.PushAfter(o.A[0], x.m[o.A[1]].n)})
	case "PushBefore":
		x.ins(o.A[1], item{o.A[0], l.PushBefore(o.A[0], x.m[o.A[1]].n)})
	case "PopFront":
		v, ok := l.PopFront()
		return x.pop(o.N, 0, v, ok)
	case "PopBack":
		v, ok := l.PopBack()
		return x.pop(o.N, -1, v, ok)
	case "Reverse":
		l.Reverse()
		for i, j := 0, len(x.m)-1; i < j; i, j = i+1, j-1 {
			x.m[i], x.m[j] = x.m[j], x.m[i]
		}
	case "Sort":
		l.Sort()
		x.m = append([]item(nil), x.m...)
		sort.SliceStable(x.m, func(i, j int) bool {
			a, b := x.s.Key(x.m[i].v), x.s.Key(x.m[j].v)
			if x.s.Greater {
				return b < a
			}
			return a < b
		})
	case "Clear":
		l.Clear()
		x.m = nil
	case "Remove":
		it := x.del(o.A[0])
		if !l.Remove(it.n) {
			return fmt.Errorf("Remove does not return the node")
		}
	case "MoveFront":
		it := x.del(o.A[0])
		l.MoveFront(it.n)
		x.ins(0, it)
	case "MoveBack":
		it := x.del(o.A[0])
		l.MoveBack(it.n)
		x.ins(len(x.m), it)
	case "MoveAfter", "MoveBefore":
		i, j := o.A[0], o.A[1]
		k := x.m[j].n
		it := x.del(i)
		if j > i {
			j--
		}
		if o.N == "MoveAfter" {
			l.MoveAfter(it.n, k)
			j++
		} else {
			l.MoveBefore(it.n, k)
		}
		x.ins(j, it)
	case "Set":
		x.m = append([]item(nil), x.m...)
		if g := l.Set(x.m[o.A[0]].n, o.A[1]); g != x.m[o.A[0]].v {
			return fmt.Errorf("Set gave the old element %d, want %d", g, x.m[o.A[0]].v)
		}
		x.m[o.A[0]].v = o.A[1]
	}
	return nil
}

func (x *list) Check() error {
	if x.l == nil {
		return nil
	}
	n := len(x.m)
	w := make([]int, n)
	for i, it := range x.m {
		w[i] = it.v
		if g := x.l.Get(it.n); g != it.v {
			return fmt.Errorf("node %d holds %d, want %d", i, g, it.v)
		}
		if !x.l.Valid(it.n) {
			return fmt.Errorf("node %d is not valid", i)
		}
	}
	if g := x.l.Fwd(n); !same(g, w) {
		return fmt.Errorf("forward %v, want %v", g, w)
	}
	if x.l.Bwd != nil {
		if g := x.l.Bwd(n); !same(g, rev(w)) {
			return fmt.Errorf("backward %v, want the reverse of %v", g, w)
		}
		if g, ok := x.l.BackVal(); ok != (n > 0) || ok && g != w[n-1] {
			return fmt.Errorf("Back %d,%v of %v", g, ok, w)
		}
	}
	if g, ok := x.l.FrontVal(); ok != (n > 0) || ok && g != w[0] {
		return fmt.Errorf("Front %d,%v of %v", g, ok, w)
	}
	if x.l.Len != nil && x.l.Len() != n {
		return fmt.Errorf("Len()=%d, want %d", x.l.Len(), n)
	}
	return nil
}

func (x *list) Drain() error {
	for len(x.m) > 0 {
		if err := x.Do(mc.O("PopFront")); err != nil {
			return err
		}
	}
	return x.Do(mc.O("PopFront"))
}

func (x *list) Key(d *mc.Dump) {
	if x.l == nil {
		d.Int(-1)
		return
	}
	for _, it := range x.m {
		d.Int(int64(it.v))
	}
	d.Val(x.l.Obj)
}

// heap in lockstep with the elements it holds.
type heap struct {
	s   *api.Set
	h   *api.Heap
	c   [3]int
	m   []int
	max int
}

func (x *heap) Ops() []mc.Op {
	if x.h == nil {
		var r []mc.Op
		for _, lim := range []int{0, 1, 3} {
			r = append(r, mc.O("New", 0, lim, 0), mc.O("New", 2, lim, 1))
		}
		return r
	}
	r := []mc.Op{mc.O("Pop")}
	seen := map[int]bool{}
	for _, v := range x.s.Vals {
		used := false
		for _, w := range x.m {
			used = used || v == w
		}
		if !used && !seen[v/10] && len(x.m) < x.max {
			seen[v/10] = true
			r = append(r, mc.O("Push", v))
		}
	}
	return r
}

// better tells whether a comes strictly before b in pop order.
func (x *heap) better(a, b int) bool {
	if x.c[2] == 1 {
		return x.s.Key(a) > x.s.Key(b)
	}
	return x.s.Key(a) < x.s.Key(b)
}

func (x *heap) isTop(v int) bool {
	in := false
	for _, w := range x.m {
		if x.better(w, v) {
			return false
		}
		in = in || w == v
	}
	return in
}

func (x *heap) remove(v int) {
	for i, w := range x.m {
		if w == v {
			x.m = append(append([]int(nil), x.m[:i]...), x.m[i+1:]...)
			return
		}
	}
}

func sorted(a []int) []int { r := append([]int(nil), a...); sort.Ints(r); return r }

func (x *heap) Do(o mc.Op) error {
	switch o.N {
	case "New":
		x.c = [3]int{o.A[0], o.A[1], o.A[2]}
		x.h = x.s.Heap(o.A[0], o.A[1], o.A[2] == 1)
	case "Push":
		v := o.A[0]
		top, had := x.h.Top()
		x.h.Push(v)
		if x.c[1] > 0 && len(x.m) >= x.c[1] {
			if had && x.better(top, v) { // v is further from the top: it replaces the top
				x.remove(top)
				x.m = append(x.m[:len(x.m):len(x.m)], v)
			} else if had && !x.better(v, top) { // the same key: either may stay
				if same(sorted(x.h.Buffer()), sorted(x.m)) {
					return nil
				}
				x.remove(top)
				x.m = append(x.m[:len(x.m):len(x.m)], v)
			}
		} else {
			x.m = append(x.m[:len(x.m):len(x.m)], v)
		}
	case "Pop":
		v, ok := x.h.Pop()
		if ok != (len(x.m) > 0) {
			return fmt.Errorf("Pop ok=%v with %d elements", ok, len(x.m))
		}
		if ok {
			if !x.isTop(v) {
				return fmt.Errorf("Pop gave %d of %v", v, x.m)
			}
			x.remove(v)
		}
	}
	return nil
}

func (x *heap) Check() error {
	if x.h == nil {
		return nil
	}
	n := len(x.m)
	if x.h.Size() != n || x.h.Empty() != (n == 0) {
		return fmt.Errorf("Size %d Empty %v, want %d elements", x.h.Size(), x.h.Empty(), n)
	}
	if v, ok := x.h.Top(); ok != (n > 0) || ok && !x.isTop(v) {
		return fmt.Errorf("Top %d,%v of %v", v, ok, x.m)
	}
	if b := x.h.Buffer(); !same(sorted(b), sorted(x.m)) {
		return fmt.Errorf("elements %v, want %v", b, x.m)
	} else if !x.h.Check(b) {
		return fmt.Errorf("CheckHeap(%v) is false", b)
	}
	return nil
}

func (x *heap) Drain() error {
	if x.h == nil {
		return nil
	}
	for len(x.m) > 0 {
		if err := x.Do(mc.O("Pop")); err != nil {
			return err
		}
	}
	return x.Do(mc.O("Pop"))
}

func (x *heap) Key(d *mc.Dump) {
	if x.h == nil {
		d.Int(-1)
		return
	}
	for _, v := range x.c {
		d.Int(int64(v))
	}
	for _, v := range x.h.Buffer() {
		d.Int(int64(v))
	}
	d.Int(-7)
}

// word maps letters (keys) to distinct elements 11.. 12.. of these keys.
func word(c []int) []int {
	n := map[int]int{}
	r := make([]int, len(c))
	for i, k := range c {
		r[i] = (k+1)*10 + n[k]
		n[k]++
	}
	return r
}

func main() {
	sets := []*api.Set{elem.Set(), ptr.Set(), str.Set(), greater.Set()}
	mc.Main("C38", func(r *mc.Run) {
		for _, s := range sets {
			s := s
			for k, mk := range map[string]func(int) *lin.Impl{"queue": s.Queue, "deque": s.Deque, "stack": s.Stack} {
				r.Explore(mc.Sys{Name: s.Name + " " + k, MaxDepth: r.Pick(8, 10), Bounds: "elements of two equal and one other key, size<=5, buffers {0,2,3}",
					New: func() mc.Inst {
						return &lin.L{Make: mk, NCfg: []int{0, 2, 3}, Max: 5, Alpha: []int{10, 11, 20}, Inits: []int{3}}
					}})
			}
			for k, mk := range map[string]func() *api.List{"list": s.List, "slist": s.SList} {
				r.Explore(mc.Sys{Name: s.Name + " " + k, MaxDepth: r.Pick(5, 6), Bounds: "three keys with equal ones, size<=4, every operation on every node",
					New: func() mc.Inst { return &list{s: s, mk: mk, max: 4} }})
				r.Enumerate(mc.Enum{Name: s.Name + " " + k + " sort", Bounds: "every word over 3 keys up to length 7 (quick) or 9, sorted, used again and sorted again",
					Gen: func(emit func(mc.Case)) { mc.Strings(3, 0, r.Pick(7, 9), emit) },
					Run: func(c mc.Case, t *mc.T) error {
						x := &list{s: s, mk: mk, l: mk()}
						w := word(c)
						for i := len(w) - 1; i >= 0; i-- {
							x.Do(mc.O("PushFront", w[i]))
						}
						t.Steps += int64(len(w) + 4)
						for _, o := range []mc.Op{mc.O("Sort"), mc.O("PushFront", 29), mc.O("Sort"), mc.O("PopFront")} {
							if err := x.Do(o); err != nil {
								return err
							}
							if err := x.Check(); err != nil {
								return fmt.Errorf("after %v: %v", o, err)
							}
						}
						return x.Drain()
					},
					Show: func(c mc.Case) string { return fmt.Sprint("push ", word(c), " sort, push 29, sort, drain") }})
			}
			r.Explore(mc.Sys{Name: s.Name + " heap", Bounds: "three keys with equal ones, size<=6, limits {0,1,3}, both directions, until closure",
				New: func() mc.Inst { return &heap{s: s, max: 6} }})
			r.Enumerate(mc.Enum{Name: s.Name + " heap functions", Bounds: "every word over 3 keys up to length 7 (quick) or 9: MakeHeap, CheckHeap, SortHeap, PushHeap, PopHeap, both directions",
				Gen: func(emit func(mc.Case)) { mc.Strings(3, 0, r.Pick(7, 9), emit) },
				Run: func(c mc.Case, t *mc.T) error {
					w := word(c)
					for d := 0; d < 2; d++ {
						x := &heap{s: s, c: [3]int{0, 0, d}}
						h := s.Heap(0, 0, d == 1)
						ok := true
						for i := 1; i < len(w); i++ {
							ok = ok && !x.better(w[i], w[(i-1)/2])
						}
						if g := h.Check(w); g != ok {
							return fmt.Errorf("CheckHeap(%v)=%v", w, g)
						}
						b := h.Make(w)
						if !h.Check(b) || !same(sorted(b), sorted(w)) {
							return fmt.Errorf("MakeHeap(%v): %v", w, b)
						}
						var p []int
						for _, v := range w {
							if p = h.PushHeap(p, v); !h.Check(p) {
								return fmt.Errorf("PushHeap: %v", p)
							}
						}
						if !same(sorted(p), sorted(w)) {
							return fmt.Errorf("PushHeap of %v: %v", w, p)
						}
						var o []int
						for len(p) > 0 {
							q, v, ok := h.PopHeap(p)
							if !ok || len(q) != len(p)-1 || !h.Check(q) {
								return fmt.Errorf("PopHeap(%v): %v %v", p, q, ok)
							}
							if o, p = append(o, v), q; len(o) > 1 && x.better(v, o[len(o)-2]) {
								return fmt.Errorf("PopHeap order %v of %v", o, w)
							}
						}
						if !same(sorted(o), sorted(w)) {
							return fmt.Errorf("PopHeap gave %v of %v", o, w)
						}
						e := h.SortHeap(b)
						if !same(sorted(e), sorted(w)) {
							return fmt.Errorf("SortHeap of %v: %v", b, e)
						}
						for i := 1; i < len(e); i++ {
							if x.better(e[i-1], e[i]) {
								return fmt.Errorf("SortHeap of %v is not in order: %v", b, e)
							}
						}
						t.Steps += int64(3*len(w) + 4)
					}
					return nil
				},
				Show: func(c mc.Case) string { return fmt.Sprint(word(c)) }})
			r.Enumerate(mc.Enum{Name: s.Name + " comparator", Bounds: "every pair of elements",
				Gen: func(emit func(mc.Case)) {
					for _, a := range s.Vals {
						for _, b := range s.Vals {
							emit(mc.Case{a, b})
						}
					}
				},
				Run: func(c mc.Case, t *mc.T) error {
					a, b := c[0], c[1]
					l, g := s.Key(a) < s.Key(b), s.Key(b) < s.Key(a)
					if s.Cmp(false, a, b) != l || s.CmpName("", a, b) != l || s.CmpName("Lesser", a, b) != l {
						return fmt.Errorf("Lesser(%d,%d) is not %v", a, b, l)
					}
					if s.Cmp(true, a, b) != g || s.CmpName("Greater", a, b) != g {
						return fmt.Errorf("Greater(%d,%d) is not %v", a, b, g)
					}
					t.Steps += 5
					return nil
				},
				Show: func(c mc.Case) string { return fmt.Sprint(c) }})
			r.Enumerate(mc.Enum{Name: s.Name + " sort slice", Bounds: "every word over 3 keys up to length 7 (quick) or 9; insert and remove at every index",
				Gen: func(emit func(mc.Case)) { mc.Strings(3, 0, r.Pick(7, 9), emit) },
				Run: func(c mc.Case, t *mc.T) error {
					w := word(c)
					n := len(w)
					for i := -1; i <= n+1; i++ {
						x := s.Slice(n % 3)
						for k, v := range w {
							if g := x.Push(v); g != k+1 {
								return fmt.Errorf("Push gave %d", g)
							}
						}
						x.Insert(29, i)
						at := i
						if i < 0 || i >= n {
							at = n
						}
						m := append(append(append([]int(nil), w[:at]...), 29), w[at:]...)
						if g := x.Buffer(); !same(g, m) {
							return fmt.Errorf("Insert(29,%d): %v, want %v", i, g, m)
						}
						for k := range m {
							if g, ok := x.Get(k); !ok || g != m[k] {
								return fmt.Errorf("Get(%d)=%d,%v", k, g, ok)
							}
							for j := range m {
								want := s.Key(m[k]) < s.Key(m[j])
								if s.Greater {
									want = s.Key(m[j]) < s.Key(m[k])
								}
								if x.Less(k, j) != want {
									return fmt.Errorf("Less(%d,%d) of %v", k, j, m)
								}
							}
						}
						x.Sort()
						g := x.Buffer()
						o := ordered(s, m)
						if !same(sorted(g), sorted(m)) {
							return fmt.Errorf("Sort of %v: %v", m, g)
						}
						for k := range g {
							if s.Key(g[k]) != s.Key(o[k]) {
								return fmt.Errorf("Sort of %v: %v", m, g)
							}
						}
						g = append([]int(nil), g...)
						v, ok := x.Remove(i)
						if ok != (i >= 0 && i < len(g)) || ok && v != g[i] {
							return fmt.Errorf("Remove(%d) gave %d,%v of %v", i, v, ok, g)
						}
						if ok {
							g = append(g[:i:i], g[i+1:]...)
						}
						if b := x.Buffer(); !same(b, g) {
							return fmt.Errorf("after Remove(%d): %v, want %v", i, b, g)
						}
						for k := len(g) - 1; k >= -1; k-- {
							v, ok := x.Pop()
							if ok != (k >= 0) || ok && v != g[k] {
								return fmt.Errorf("Pop gave %d,%v of %v", v, ok, g[:k+1])
							}
						}
						t.Steps += int64(4*n + 6)
					}
					return nil
				},
				Show: func(c mc.Case) string { return fmt.Sprint(word(c)) }})
			r.Enumerate(mc.Enum{Name: s.Name + " tree", Bounds: "every word over 3 keys up to length 5 (quick) or 6 as children, every way to hang grandchildren; sort, remove, walks",
				Gen: func(emit func(mc.Case)) { mc.Strings(3, 0, r.Pick(5, 6), emit) },
				Run: func(c mc.Case, t *mc.T) error {
					w := word(c)
					n := len(w)
					for mask := 0; mask < 1<<n; mask++ {
						x := s.Tree()
						kids := map[int]int{}
						for i, v := range w {
							ch := x.Add(v, -1)
							if mask>>i&1 == 1 {
								kids[v] = v + 100
								ch.Add(v+100, 0)
							}
						}
						flat := func(m []int) []int {
							r := []int{0}
							for _, v := range m {
								r = append(r, v)
								if k := kids[v]; k != 0 {
									r = append(r, k)
								}
							}
							return r
						}
						check := func(m []int) error {
							f := flat(m)
							if g := x.All(); !same(g, f) {
								return fmt.Errorf("All %v, want %v", g, f)
							}
							if g := x.Fwd(len(f)); !same(g, f) {
								return fmt.Errorf("forward %v, want %v", g, f)
							}
							if g := x.Bwd(len(f)); !same(g, rev(f)) {
								return fmt.Errorf("backward %v, want the reverse of %v", g, f)
							}
							if x.Num() != len(m) {
								return fmt.Errorf("NumChildren %d, want %d", x.Num(), len(m))
							}
							t.Steps += 4
							return nil
						}
						if err := check(w); err != nil {
							return err
						}
						x.Sort()
						// equal keys may come in any order: follow the implementation
						var m []int
						for _, v := range x.All()[1:] {
							if v < 100 {
								m = append(m, v)
							}
						}
						if !same(sorted(m), sorted(w)) {
							return fmt.Errorf("SortChildren of %v: %v", w, m)
						}
						for i := 1; i < n; i++ {
							if s.Key(m[i]) < s.Key(m[i-1]) != s.Greater && s.Key(m[i]) != s.Key(m[i-1]) {
								return fmt.Errorf("SortChildren of %v: %v", w, m)
							}
						}
						if err := check(m); err != nil {
							return fmt.Errorf("sorted: %v", err)
						}
						if n > 0 {
							k := mask % n
							if v, ok := x.Remove(k); !ok || v != m[k] {
								return fmt.Errorf("RemoveChild(%d) of %v: %d %v", k, m, v, ok)
							}
							m = append(m[:k:k], m[k+1:]...)
							if err := check(m); err != nil {
								return fmt.Errorf("after a removal: %v", err)
							}
						}
					}
					return nil
				},
				Show: func(c mc.Case) string { return fmt.Sprint(word(c)) }})
		}
	})
}
