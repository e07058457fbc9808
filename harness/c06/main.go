package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

// api is the common method set of the two sortable slices.
type api[T comparable] interface {
	Init(int)
	Sort()
	Buffer() []T
	Push(T) int
	Insert(T, int) int
	Remove(int) (T, bool)
	Pop() (T, bool)
	Get(int) (T, bool)
	MustGet(int) T
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

// kind tells how to build and read elements.
type kind[T comparable] struct {
	make func(v int) T
	val  func(T) int
	new  func(cfg int) api[T]
}

var ints = kind[int]{
	make: func(v int) int { return v },
	val:  func(v int) int { return v },
	new: func(cfg int) api[int] {
		if cfg < 0 {
			return &stl.IntSortSlice{}
		}
		return stl.NewIntSortSlice(cfg)
	}}

var nodes = kind[*stl.IntTreeNode]{
	make: func(v int) *stl.IntTreeNode {
		var scratch stl.IntTreeNode
		return scratch.AddChild(v, -1)
	},
	val: func(n *stl.IntTreeNode) int { return n.All()[0] },
	new: func(cfg int) api[*stl.IntTreeNode] {
		if cfg < 0 {
			return &stl.IntTreeNodeSortSlice{}
		}
		return stl.NewIntTreeNodeSortSlice(cfg)
	}}

type inst[T comparable] struct {
	k     kind[T]
	cfgs  []int
	max   int
	alpha []int // nil: unique elements, no sorting
	wild  bool  // many invalid indices
	s     api[T]
	m     []T
	n     int
}

func (s *inst[T]) Ops() (r []mc.Op) {
	if s.s == nil {
		for _, c := range s.cfgs {
			r = append(r, mc.O("New", c))
		}
		return
	}
	n := len(s.m)
	vals := []int{0}
	if s.alpha != nil {
		vals = nil
		for i := range s.alpha {
			vals = append(vals, i)
		}
	}
	idx := []int{-1, n, n + 1}
	if s.wild {
		idx = append(idx, -2, n+5, math.MinInt64, math.MaxInt64, math.MaxInt64-1, -n)
	}
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	if n < s.max {
		for _, v := range vals {
			r = append(r, mc.O("Push", v))
			for _, i := range idx {
				r = append(r, mc.O("Insert", v, i))
			}
		}
	}
	for _, i := range idx {
		r = append(r, mc.O("Remove", i))
	}
	r = append(r, mc.O("Pop"), mc.O("Init", 3))
	if s.alpha != nil {
		r = append(r, mc.O("Sort"))
	}
	for i := 0; i < n && n <= 5; i++ {
		r = append(r, mc.O("Swap", i, n-1))
	}
	return
}

func (s *inst[T]) elem(a int) T {
	if s.alpha != nil {
		return s.k.make(s.alpha[a])
	}
	s.n++
	return s.k.make(int(mc.ElemBase) + s.n)
}

func (s *inst[T]) Do(o mc.Op) error {
	n := len(s.m)
	switch o.N {
	case "New":
		s.s = s.k.new(o.A[0])
	case "Init":
		s.s.Init(o.A[0])
		s.m = nil
	case "Push":
		v := s.elem(o.A[0])
		if l := s.s.Push(v); l != n+1 {
			return fmt.Errorf("returned %d, want %d", l, n+1)
		}
		s.m = append(s.m[:n:n], v)
	case "Insert":
		v, i := s.elem(o.A[0]), o.A[1]
		if l := s.s.Insert(v, i); l != n+1 {
			return fmt.Errorf("returned %d, want %d", l, n+1)
		}
		if i < 0 || i >= n {
			i = n
		}
		m := append([]T(nil), s.m[:i]...)
		m = append(m, v)
		s.m = append(m, s.m[i:]...)
	case "Remove":
		i := o.A[0]
		v, ok := s.s.Remove(i)
		if ok != (i >= 0 && i < n) {
			return fmt.Errorf("ok=%v with %d elements", ok, n)
		}
		if ok {
			if v != s.m[i] {
				return fmt.Errorf("returned %v, want %v", v, s.m[i])
			}
			m := append([]T(nil), s.m[:i]...)
			s.m = append(m, s.m[i+1:]...)
		}
	case "Pop":
		v, ok := s.s.Pop()
		if ok != (n > 0) {
			return fmt.Errorf("ok=%v with %d elements", ok, n)
		}
		if ok {
			if v != s.m[n-1] {
				return fmt.Errorf("returned %v, want %v", v, s.m[n-1])
			}
			s.m = s.m[:n-1]
		}
	case "Swap":
		s.s.Swap(o.A[0], o.A[1])
		m := append([]T(nil), s.m...)
		m[o.A[0]], m[o.A[1]] = m[o.A[1]], m[o.A[0]]
		s.m = m
	case "Sort":
		s.s.Sort()
		b := s.s.Buffer()
		if err := s.sorted(b); err != nil {
			return err
		}
		s.m = append([]T(nil), b...) // any sorted permutation is right
	}
	return nil
}

func (s *inst[T]) sorted(b []T) error {
	if len(b) != len(s.m) {
		return fmt.Errorf("Sort changed the length to %d, want %d", len(b), len(s.m))
	}
	cnt := map[T]int{}
	for _, v := range s.m {
		cnt[v]++
	}
	for i, v := range b {
		cnt[v]--
		if cnt[v] < 0 {
			return fmt.Errorf("Sort invented element %v", s.k.val(v))
		}
		if i > 0 && s.k.val(b[i-1]) > s.k.val(v) {
			return fmt.Errorf("not ascending at %d", i)
		}
	}
	return nil
}

func (s *inst[T]) Check() error {
	if s.s == nil {
		return nil
	}
	n := len(s.m)
	if l := s.s.Len(); l != n {
		return fmt.Errorf("Len()=%d, want %d", l, n)
	}
	b := s.s.Buffer()
	if len(b) != n {
		return fmt.Errorf("len(Buffer())=%d, want %d", len(b), n)
	}
	for i := range b {
		if b[i] != s.m[i] {
			return fmt.Errorf("Buffer()[%d] is element %v, want %v", i, s.k.val(b[i]), s.k.val(s.m[i]))
		}
		if v, ok := s.s.Get(i); !ok || v != s.m[i] {
			return fmt.Errorf("Get(%d)=%v,%v", i, v, ok)
		}
		if v := s.s.MustGet(i); v != s.m[i] {
			return fmt.Errorf("MustGet(%d)=%v", i, v)
		}
	}
	for _, i := range []int{-1, n, n + 1, math.MinInt64, math.MaxInt64} {
		if _, ok := s.s.Get(i); ok {
			return fmt.Errorf("Get(%d) ok with %d elements", i, n)
		}
		if !mc.Panics(func() { s.s.MustGet(i) }) {
			return fmt.Errorf("MustGet(%d) does not panic with %d elements", i, n)
		}
	}
	if n <= 6 {
		for i := range b {
			for j := range b {
				if w := s.k.val(b[i]) < s.k.val(b[j]); s.s.Less(i, j) != w {
					return fmt.Errorf("Less(%d,%d)!=%v", i, j, w)
				}
			}
		}
	}
	return nil
}

func (s *inst[T]) Drain() error {
	if s.s == nil {
		return nil
	}
	for {
		e := len(s.m) == 0
		if err := s.Do(mc.O("Pop")); err != nil {
			return fmt.Errorf("Pop: %v", err)
		}
		if err := s.Check(); err != nil {
			return err
		}
		if e {
			return nil
		}
	}
}

func (s *inst[T]) Key(d *mc.Dump) {
	if s.alpha == nil {
		pos := map[int64]int64{}
		for i, v := range s.m {
			pos[int64(s.k.val(v))] = int64(i)
		}
		d.Ren = func(v int64) int64 {
			if i, ok := pos[v]; ok {
				return mc.ElemBase + i
			}
			return 0
		}
	}
	d.Val(s.s)
	d.Val(s.m[:len(s.m):len(s.m)])
}

func run[T comparable](r *mc.Run, name string, k kind[T]) {
	cfgs := []int{-1, 0, 1, 2, 5}
	r.Explore(mc.Sys{Name: name + " histories", MaxDepth: r.Pick(20, 30), Bounds: "unique elements, size<=8 (quick) / 11 (thorough), all valid and many invalid indices",
		New: func() mc.Inst { return &inst[T]{k: k, cfgs: cfgs, max: r.Pick(8, 11), wild: true} }})
	for _, al := range [][]int{{0, 1}, {math.MinInt64, -1, math.MaxInt64}} {
		al := al
		r.Explore(mc.Sys{Name: fmt.Sprintf("%s values %v", name, al), MaxDepth: r.Pick(8, 10), Bounds: "with Sort, size<=5, depth-bounded",
			New: func() mc.Inst { return &inst[T]{k: k, cfgs: []int{0, 2}, max: 5, alpha: al} }})
	}
	r.Explore(mc.Pair(name+" two objects", func() mc.Inst { return &inst[T]{k: k, cfgs: []int{2}, max: 3} }, r.Pick(7, 8), "two slices interleaved"))
	srt := func(c []int, t *mc.T) error {
		s := &inst[T]{k: k, s: k.new(len(c) / 2)}
		for _, v := range c {
			e := k.make(v)
			s.s.Push(e)
			s.m = append(s.m, e)
		}
		t.Steps += int64(len(c) + 1)
		s.s.Sort()
		b := s.s.Buffer()
		if err := s.sorted(b); err != nil {
			return err
		}
		if !sort.IsSorted(s.s) {
			return fmt.Errorf("sort.IsSorted says no")
		}
		return nil
	}
	r.Enumerate(mc.Enum{Name: name + " sort", Bounds: "all slices over {0,1,2} up to length 9/11 and all permutations up to 8/9",
		Gen: func(emit func(mc.Case)) {
			mc.Strings(3, 0, r.Pick(9, 11), emit)
			for n := 2; n <= r.Pick(8, 9); n++ {
				mc.Perms(n, emit)
			}
		},
		Run: func(c mc.Case, t *mc.T) error { return srt(c, t) }})
	r.Enumerate(mc.Enum{Name: name + " long sort", Bounds: "patterns of every length up to 150/600 and 26 lengths up to 100000",
		Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 6, r.Pick(150, 600))
			for _, n := range append(mc.Large[:len(mc.Large):len(mc.Large)], mc.Huge...) {
				for k := 0; k < 6; k++ {
					emit(mc.Case{k, n})
				}
			}
		},
		Run: func(c mc.Case, t *mc.T) error {
			a := make([]int, c[1])
			for i := range a {
				switch c[0] {
				case 0:
					a[i] = i
				case 1:
					a[i] = -i
				case 2:
					a[i] = i % 3
				case 3:
					a[i] = (i * 7919) % 1009
				case 4:
					a[i] = (i%2)*math.MaxInt64 - i
				case 5:
					a[i] = int(uint32(i * 2654435761))
				}
			}
			return srt(a, t)
		}})
	// every insert/remove position at many sizes (growth boundaries)
	r.Enumerate(mc.Enum{Name: name + " positions", Bounds: "size n<=70/300, capacity in {0,n/2,n,n+1}, every index i in -1..n+1: insert or remove at i; 11 positions of 7 sizes up to 1025",
		Gen: func(emit func(mc.Case)) {
			for n := 0; n <= r.Pick(70, 300); n++ {
				for _, c := range []int{0, n / 2, n, n + 1} {
					for i := -1; i <= n+1; i++ {
						emit(mc.Case{n, c, i, 0})
						emit(mc.Case{n, c, i, 1})
					}
				}
			}
			for _, n := range []int{255, 256, 512, 513, 1023, 1024, 1025} {
				for _, c := range []int{0, n / 2, n, n + 1} {
					for _, i := range []int{-1, 0, 1, 255, 256, 257, n / 2, n - 2, n - 1, n, n + 1} {
						emit(mc.Case{n, c, i, 0})
						emit(mc.Case{n, c, i, 1})
					}
				}
			}
		},
		Run: func(c mc.Case, t *mc.T) error {
			s := &inst[T]{k: k, s: k.new(c[1])}
			for i := 0; i < c[0]; i++ {
				s.Do(mc.O("Push", 0))
			}
			op := mc.O("Insert", 0, c[2])
			if c[3] == 1 {
				op = mc.O("Remove", c[2])
			}
			t.Steps += int64(c[0]) + 1
			if err := s.Do(op); err != nil {
				return err
			}
			return s.Check()
		}})
}

func main() {
	mc.Main("C06", func(r *mc.Run) {
		run(r, "int", ints)
		run(r, "node", nodes)
	})
}
