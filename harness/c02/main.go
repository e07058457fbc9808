package main

import (
	"math"

	"github.com/vipally/gx/stl"
	"gxv/lin"
	"gxv/mc"
)

const zeroValue = -1000 // configuration: zero-value object, no constructor

func impl(q *stl.IntDeque) *lin.Impl {
	return &lin.Impl{Obj: q, PushB: q.PushBack, PushF: q.PushFront, PopF: q.PopFront, PopB: q.PopBack, Front: q.Front, Back: q.Back,
		Size: q.Size, Empty: q.Empty, Cap: q.Cap, Shrink: q.Shrink, Clear: q.Clear, Init: q.Init}
}

func mk(cfg int) *lin.Impl {
	if cfg == zeroValue {
		return impl(&stl.IntDeque{})
	}
	if cfg <= -100 { // zero value + Init
		q := &stl.IntDeque{}
		q.Init(-100 - cfg)
		return impl(q)
	}
	return impl(stl.NewGOGPDequeNamePrefixDeque(cfg))
}

func main() {
	mc.Main("C02", func(r *mc.Run) {
		cfgs := []int{zeroValue, -100, -104, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 32, 33}
		max := r.Pick(72, 140)
		r.Explore(mc.Sys{Name: "histories", Bounds: "unique elements, size<=72 (quick) or 140 (thorough), every listed construction, until closure",
			New: func() mc.Inst { return &lin.L{Make: mk, NCfg: cfgs, Max: max, Inits: []int{4}} }})
		r.Explore(mc.Sys{Name: "values", MaxDepth: r.Pick(10, 12), Bounds: "elements {0,-1,MaxInt,MinInt}, size<=5, buffers {2,3}, depth-bounded",
			New: func() mc.Inst {
				return &lin.L{Make: mk, NCfg: []int{2, 3}, Max: 5, Alpha: []int{0, -1, math.MaxInt64, math.MinInt64}}
			}})
		r.Explore(mc.Pair("two objects", func() mc.Inst { return &lin.L{Make: mk, NCfg: []int{2, 4}, Max: 4} }, r.Pick(9, 12), "two deques interleaved, size<=4 each"))
		sizes := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 300}
		if r.Thorough() {
			sizes = append(sizes, 5, 6, 10, 11, 23, 24, 25, 47, 48, 255, 256, 257, 511, 512, 513, 1025)
		}
		r.Enumerate(lin.Phases("phases", func() *lin.L { return &lin.L{Make: mk} }, []int{zeroValue, 1, 3, 8, 10, 16, 64}, sizes))
		large := lin.Phases("large phases", func() *lin.L { return &lin.L{Make: mk} }, []int{zeroValue, 3, 1000}, []int{1, 1023, 1024, 1025, 2049})
		large.Small = true
		r.Enumerate(large)
	})
}
