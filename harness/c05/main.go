package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

func isHeap(b []int, maxTop bool) bool {
	for i := 1; i < len(b); i++ {
		p := b[(i-1)/2]
		if maxTop && b[i] > p || !maxTop && b[i] < p {
			return false
		}
	}
	return true
}

func sorted(b []int, maxTop bool) []int {
	c := append([]int(nil), b...)
	sort.Ints(c)
	if !maxTop {
		rev(c)
	}
	return c
}

func rev(c []int) {
	for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
		c[i], c[j] = c[j], c[i]
	}
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const guardVal = -987654321

// guarded copies a into a slice with spare guarded capacity on both sides.
func guarded(a []int) (full, s []int) {
	full = make([]int, len(a)+4)
	for i := range full {
		full[i] = guardVal
	}
	copy(full[2:], a)
	return full, full[2 : 2+len(a)]
}

func intact(full []int) bool {
	n := len(full)
	return full[0] == guardVal && full[1] == guardVal && full[n-1] == guardVal && full[n-2] == guardVal
}

// full tells whether the rest is compared after pop k of n: always for short heaps.
func full(k, n int) bool { return n <= 1100 || k%(n/16) == 0 }

func check(a []int, maxTop bool, extra []int, t *mc.T) error {
	h := stl.NewIntHeap(0, 0, maxTop)
	srt := sorted(a, maxTop)
	t.Steps++
	if got := h.CheckHeap(append([]int(nil), a...)); got != isHeap(a, maxTop) {
		return fmt.Errorf("CheckHeap(%v)=%v (maxTop=%v)", a, got, maxTop)
	}
	// Reverse
	g, s := guarded(a)
	h.Reverse(s)
	w := append([]int(nil), a...)
	rev(w)
	if !same(s, w) || !intact(g) {
		return fmt.Errorf("Reverse(%v) gives %v", a, s)
	}
	// MakeHeap
	g, s = guarded(a)
	h.MakeHeap(s)
	if !isHeap(s, maxTop) || !same(sorted(s, maxTop), srt) || !intact(g) {
		return fmt.Errorf("MakeHeap(%v) gives %v (maxTop=%v)", a, s, maxTop)
	}
	if !h.CheckHeap(s) {
		return fmt.Errorf("CheckHeap rejects MakeHeap result %v", s)
	}
	heap := append([]int(nil), s...)
	// SortHeap
	g, s = guarded(a)
	res := h.SortHeap(s)
	if !same(res, srt) || !same(s, srt) || !intact(g) {
		return fmt.Errorf("SortHeap(%v) gives %v (maxTop=%v)", a, res, maxTop)
	}
	t.Steps += 4
	// PushHeap of every extra value onto the heap
	for _, v := range extra {
		for spare := 0; spare < 2; spare++ {
			b := make([]int, len(heap), len(heap)+spare*3)
			copy(b, heap)
			b = h.PushHeap(b, v)
			t.Steps++
			if !isHeap(b, maxTop) || !same(sorted(b, maxTop), sorted(append(append([]int(nil), heap...), v), maxTop)) {
				return fmt.Errorf("PushHeap(%v,%d) gives %v (maxTop=%v)", heap, v, b, maxTop)
			}
		}
	}
	// PopHeap to exhaustion: the order is srt reversed
	all, b := guarded(heap)
	for k := len(a); k >= 0; k-- {
		nb, top, ok := h.PopHeap(b)
		t.Steps++
		if ok != (k > 0) {
			return fmt.Errorf("PopHeap(%v) ok=%v", b, ok)
		}
		if !ok {
			if len(nb) != 0 {
				return fmt.Errorf("PopHeap of empty returns %v", nb)
			}
			break
		}
		if top != srt[k-1] || len(nb) != k-1 || full(k, len(a)) && (!isHeap(nb, maxTop) || !same(sorted(nb, maxTop), srt[:k-1])) {
			return fmt.Errorf("PopHeap of %d elements of %v returns top=%d rest=%v (maxTop=%v)", k, srt, top, nb, maxTop)
		}
		b = nb
	}
	if !intact(all) {
		return fmt.Errorf("PopHeap wrote outside the slice")
	}
	if h.Size() != 0 || len(h.Buffer()) != 0 {
		return fmt.Errorf("slice algorithms changed the heap object")
	}
	return nil
}

func pat(kind, i, n int) int {
	switch kind {
	case 0:
		return i
	case 1:
		return -i
	case 2:
		return 7
	case 3:
		return (i * 7919) % 1009
	case 4:
		return (i%2)*1000 + i
	case 5:
		if i < n/2 {
			return i
		}
		return n - i
	}
	return int(uint32(i*2654435761)>>3) - 1<<28
}

func main() {
	mc.Main("C05", func(r *mc.Run) {
		alphas := [][]int{{0, 1}, {0, 1, 2}, {-1, 0, 1, 2}, {math.MinInt64, -1, 0, math.MaxInt64}}
		lens := []int{r.Pick(13, 16), r.Pick(9, 11), r.Pick(7, 9), r.Pick(6, 8)}
		for i, al := range alphas {
			al := al
			r.Enumerate(mc.Enum{Name: fmt.Sprintf("alphabet %v", al), Bounds: fmt.Sprintf("every slice over %v of length 0..%d, both orders", al, lens[i]),
				Gen: func(emit func(mc.Case)) { mc.Strings(len(al), 0, lens[i], emit) },
				Run: func(c mc.Case, t *mc.T) error {
					a := make([]int, len(c))
					for j, x := range c {
						a[j] = al[x]
					}
					for _, mt := range []bool{true, false} {
						if err := check(a, mt, al, t); err != nil {
							return err
						}
					}
					return nil
				}})
		}
		n := r.Pick(8, 10)
		r.Enumerate(mc.Enum{Name: "permutations", Bounds: fmt.Sprintf("every permutation of 0..%d distinct values, both orders", n),
			Gen: func(emit func(mc.Case)) {
				for k := 0; k <= n; k++ {
					mc.Perms(k, emit)
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				for _, mt := range []bool{true, false} {
					if err := check(c, mt, []int{-1, len(c) / 2, len(c)}, t); err != nil {
						return err
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "one misplaced pair", Bounds: "slices of 2..300 and of 26 larger lengths up to 100000 that are heaps but for one element better than its parent, at every position (at 200 positions of the larger ones, the first and the last 50 among them), both orders: CheckHeap says no, and yes without it",
			Gen: func(emit func(mc.Case)) {
				for n := 2; n <= 300; n++ {
					for i := 0; i < n; i++ {
						emit(mc.Case{n, i})
					}
				}
				for _, n := range append(mc.Large[:len(mc.Large):len(mc.Large)], mc.Huge...) {
					for k := 0; k < 200 && n > 300; k++ {
						switch i := k; {
						case k < 50:
							emit(mc.Case{n, i})
						case k < 100:
							emit(mc.Case{n, n - 1 - (k - 50)})
						default:
							emit(mc.Case{n, 50 + (n-100)*(k-100)/100})
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				a := make([]int, c[0])
				for _, mt := range []bool{true, false} {
					h := stl.NewIntHeap(0, 0, mt)
					v := -1
					if mt {
						v = 1
					}
					a[c[1]] = v
					t.Steps++
					if got := h.CheckHeap(a); got != (c[1] == 0) {
						return fmt.Errorf("CheckHeap of %d zeros with %d at %d: %v (maxTop=%v)", c[0], v, c[1], got, mt)
					}
					a[c[1]] = 0
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "long", Bounds: "7 value patterns, every length up to 200/700 and 26 lengths up to 100000, both orders",
			Gen: func(emit func(mc.Case)) {
				mc.Product(emit, 7, r.Pick(200, 700))
				for _, n := range append(mc.Large[:len(mc.Large):len(mc.Large)], mc.Huge...) {
					for k := 0; k < 7; k++ {
						emit(mc.Case{k, n})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				a := make([]int, c[1])
				for i := range a {
					a[i] = pat(c[0], i, c[1])
				}
				for _, mt := range []bool{true, false} {
					if err := check(a, mt, []int{-5, 500, 1 << 40}, t); err != nil {
						return err
					}
				}
				return nil
			}})
	})
}
