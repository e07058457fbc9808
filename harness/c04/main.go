package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

type cfg struct {
	capacity, limit int
	maxTop          bool
}

type inst struct {
	cfgs  []cfg
	alpha []int
	max   int
	h     *stl.IntHeap
	c     cfg
	m     []int // sorted ascending
}

func (s *inst) Ops() []mc.Op {
	var r []mc.Op
	if s.h == nil {
		for i := range s.cfgs {
			r = append(r, mc.O("New", i), mc.O("ZeroInit", i))
		}
		return r
	}
	if len(s.m) < s.max {
		for i := range s.alpha {
			r = append(r, mc.O("Push", i))
		}
	}
	r = append(r, mc.O("Pop"))
	for i := range s.cfgs {
		if i < 4 {
			r = append(r, mc.O("Init", i))
		}
	}
	return r
}

func (s *inst) top() int {
	if s.c.maxTop {
		return s.m[len(s.m)-1]
	}
	return s.m[0]
}

func (s *inst) del() {
	if s.c.maxTop {
		s.m = s.m[:len(s.m)-1]
	} else {
		s.m = s.m[1:]
	}
}

func (s *inst) ins(v int) {
	m := append(append([]int(nil), s.m...), v)
	sort.Ints(m)
	s.m = m
}

func (s *inst) Do(o mc.Op) error {
	switch o.N {
	case "New":
		s.c = s.cfgs[o.A[0]]
		s.h = stl.NewIntHeap(s.c.capacity, s.c.limit, s.c.maxTop)
	case "ZeroInit":
		s.c = s.cfgs[o.A[0]]
		s.h = &stl.IntHeap{}
		s.h.Init(s.c.capacity, s.c.limit, s.c.maxTop)
	case "Init":
		s.c = s.cfgs[o.A[0]]
		s.h.Init(s.c.capacity, s.c.limit, s.c.maxTop)
		s.m = nil
	case "Push":
		v := s.alpha[o.A[0]]
		s.push(v)
	case "Pop":
		return s.pop()
	}
	return nil
}

func (s *inst) push(v int) {
	s.h.Push(v)
	if s.c.limit > 0 && len(s.m) >= s.c.limit {
		if s.c.maxTop && v < s.top() || !s.c.maxTop && v > s.top() {
			s.del()
			s.ins(v)
		}
	} else {
		s.ins(v)
	}
}

func (s *inst) pop() error {
	v, ok := s.h.Pop()
	if ok != (len(s.m) > 0) {
		return fmt.Errorf("Pop ok=%v with %d elements", ok, len(s.m))
	}
	if ok {
		if v != s.top() {
			return fmt.Errorf("Pop returned %d, want %d of %v", v, s.top(), s.m)
		}
		s.del()
	}
	return nil
}

func (s *inst) Check() error {
	if s.h == nil {
		return nil
	}
	if s.h.Size() != len(s.m) || s.h.Empty() != (len(s.m) == 0) {
		return fmt.Errorf("Size()=%d Empty()=%v, want %d elements", s.h.Size(), s.h.Empty(), len(s.m))
	}
	v, ok := s.h.Top()
	if ok != (len(s.m) > 0) || ok && v != s.top() {
		return fmt.Errorf("Top()=%d,%v with %v", v, ok, s.m)
	}
	b := append([]int(nil), s.h.Buffer()...)
	for i := 1; i < len(b); i++ {
		p := b[(i-1)/2]
		if s.c.maxTop && b[i] > p || !s.c.maxTop && b[i] < p {
			return fmt.Errorf("buffer %v violates heap order at %d", b, i)
		}
	}
	sort.Ints(b)
	if fmt.Sprint(b) != fmt.Sprint([]int(s.m)) && len(b)+len(s.m) > 0 {
		return fmt.Errorf("contents %v, want %v", b, s.m)
	}
	return nil
}

func (s *inst) Drain() error {
	if s.h == nil {
		return nil
	}
	for len(s.m) > 0 {
		if err := s.pop(); err != nil {
			return err
		}
	}
	if err := s.pop(); err != nil {
		return err
	}
	return s.Check()
}

func (s *inst) Key(d *mc.Dump) {
	d.Val(s.h)
	d.Int(int64(s.c.limit))
	if s.c.maxTop {
		d.Int(1)
	}
	for _, v := range s.m {
		d.Int(int64(v))
	}
}

func configs(caps, limits []int) (r []cfg) {
	for _, c := range caps {
		for _, l := range limits {
			r = append(r, cfg{c, l, true}, cfg{c, l, false})
		}
	}
	return
}

// pattern values used for long histories
func pat(kind, i, n int) int {
	switch kind {
	case 0:
		return i
	case 1:
		return -i
	case 2:
		return 7
	case 3:
		return (i * 7919) % 1009
	case 4:
		return (i%2)*1000 + i
	case 5:
		if i < n/2 {
			return i
		}
		return n - i
	}
	return int(uint32(i*2654435761)>>3) - 1<<28
}

func main() {
	mc.Main("C04", func(r *mc.Run) {
		r.Explore(mc.Sys{Name: "small values", MaxDepth: r.Pick(10, 12), Bounds: "alphabet {0,1,2}, size<=7, limits {0,-1,1,2,3,5}, capacities {0,2}, both orders, depth-bounded",
			New: func() mc.Inst {
				return &inst{cfgs: configs([]int{0, 2}, []int{0, -1, 1, 2, 3, 5}), alpha: []int{0, 1, 2}, max: 7}
			}})
		r.Explore(mc.Sys{Name: "extreme values", MaxDepth: r.Pick(8, 10), Bounds: "alphabet {MinInt,-1,0,MaxInt}, size<=6, limits {0,3}, both orders",
			New: func() mc.Inst {
				return &inst{cfgs: configs([]int{0}, []int{0, 3}), alpha: []int{math.MinInt64, -1, 0, math.MaxInt64}, max: 6}
			}})
		r.Explore(mc.Pair("two objects", func() mc.Inst {
			return &inst{cfgs: configs([]int{2}, []int{0, 2}), alpha: []int{1, 2}, max: 3}
		}, r.Pick(7, 8), "two heaps interleaved"))
		n := r.Pick(8, 9)
		r.Enumerate(mc.Enum{Name: "permutations", Bounds: fmt.Sprintf("all permutations of up to %d distinct values pushed, then drained; limits 0,1,3,n/2; both orders", n),
			Gen: func(emit func(mc.Case)) {
				for k := 1; k <= n; k++ {
					for _, l := range []int{0, 1, 3, k / 2} {
						for mt := 0; mt < 2; mt++ {
							mc.Perms(k, func(c mc.Case) { emit(append(mc.Case{l, mt}, c...)) })
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s := &inst{c: cfg{0, c[0], c[1] == 1}}
				s.h = stl.NewIntHeap(0, c[0], c[1] == 1)
				for _, v := range c[2:] {
					s.push(v)
					t.Steps++
					if err := s.Check(); err != nil {
						return err
					}
				}
				t.Steps += int64(len(s.m))
				return s.Drain()
			}})
		r.Enumerate(mc.Enum{Name: "long", Bounds: "7 value patterns, every length 0..260 and 16 lengths up to 5000, limits {0,1,10,64}, both orders, interleaved pops",
			Gen: func(emit func(mc.Case)) {
				for k := 0; k < 7; k++ {
					for n := 0; n <= r.Pick(260, 1100)+len(mc.Large); n++ {
						n := n
						if n > r.Pick(260, 1100) {
							n = mc.Large[n-r.Pick(260, 1100)-1]
						}
						for _, l := range []int{0, 1, 10, 64} {
							for mt := 0; mt < 2; mt++ {
								for pp := 0; pp < 2; pp++ {
									emit(mc.Case{k, n, l, mt, pp})
								}
							}
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s := &inst{c: cfg{c[1] / 2, c[2], c[3] == 1}}
				s.h = stl.NewIntHeap(s.c.capacity, s.c.limit, s.c.maxTop)
				for i := 0; i < c[1]; i++ {
					s.push(pat(c[0], i, c[1]))
					t.Steps++
					if c[4] == 1 && i%3 == 2 {
						if err := s.pop(); err != nil {
							return err
						}
					}
				}
				if err := s.Check(); err != nil {
					return err
				}
				t.Steps += int64(len(s.m))
				return s.Drain()
			}})
	})
}
