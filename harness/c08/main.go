package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

type node = stl.IntListNode

func wellFormed(l *stl.IntList, m []*node) error {
	n := len(m)
	if l.Empty() != (n == 0) {
		return fmt.Errorf("Empty()=%v, want %d nodes", l.Empty(), n)
	}
	var got []*node
	for v := l.Visitor(); v.Next(); {
		if got = append(got, v.Get()); len(got) > n {
			break
		}
	}
	if len(got) != n {
		return fmt.Errorf("forward visit sees %d nodes or more, want %d", len(got), n)
	}
	for i := range m {
		if got[i] != m[i] {
			return fmt.Errorf("position %d holds the wrong node (value %d, want %d)", i, got[i].Get(), m[i].Get())
		}
		if m[i].Next() != m[(i+1)%n] || m[i].Prev() != m[(i+n-1)%n] {
			return fmt.Errorf("links around position %d are wrong", i)
		}
	}
	if n > 0 && (l.Front() != m[0] || l.Back() != m[n-1]) {
		return fmt.Errorf("Front/Back wrong")
	}
	k := n
	for v := l.Visitor(); v.Prev(); {
		if k--; k < 0 || v.Get() != m[k] {
			return fmt.Errorf("backward visit wrong at %d", k)
		}
	}
	if k != 0 {
		return fmt.Errorf("backward visit stops early")
	}
	return nil
}

// check sorts vals and then uses the list again.
func check(vals []int, t *mc.T) error {
	l := stl.NewIntList()
	var m []*node
	for _, v := range vals {
		m = append(m, l.PushBack(v))
	}
	verify := func(what string) error {
		before := make([]int, len(m))
		for i, x := range m {
			before[i] = x.Get()
		}
		l.Sort()
		t.Steps++
		sort.SliceStable(m, func(i, j int) bool { return m[i].Get() < m[j].Get() })
		if err := wellFormed(l, m); err != nil {
			return fmt.Errorf("%s of %v: %v", what, before, err)
		}
		return nil
	}
	t.Steps += int64(len(vals))
	want := append([]int(nil), vals...)
	sort.Ints(want)
	if err := verify("Sort"); err != nil {
		return err
	}
	for i := range m {
		if m[i].Get() != want[i] {
			return fmt.Errorf("Sort of %v changed node values", vals)
		}
	}
	// later operations on the sorted list
	n := len(m)
	if n > 0 {
		x := l.Remove(m[n/2])
		if x != m[n/2] {
			return fmt.Errorf("Remove after Sort fails")
		}
		m = append(append([]*node(nil), m[:n/2]...), m[n/2+1:]...)
		if err := wellFormed(l, m); err != nil {
			return fmt.Errorf("Remove after Sort of %v: %v", vals, err)
		}
		l.InsertFront(x)
		m = append([]*node{x}, m...)
	}
	m = append(m, l.PushBack(1))
	m = append([]*node{l.PushFront(2)}, m...)
	if err := wellFormed(l, m); err != nil {
		return fmt.Errorf("pushes after Sort of %v: %v", vals, err)
	}
	l.RotateForward()
	m = append(append([]*node(nil), m[1:]...), m[0])
	return verify("second Sort")
}

func main() {
	mc.Main("C08", func(r *mc.Run) {
		for _, x := range []struct {
			al []int
			n  int
		}{{[]int{0, 1}, r.Pick(14, 18)}, {[]int{0, 1, 2}, r.Pick(9, 12)}, {[]int{-1, 0, 1, 2}, r.Pick(8, 9)}, {[]int{math.MinInt64, -1, 0, math.MaxInt64}, r.Pick(6, 8)}} {
			x := x
			r.Enumerate(mc.Enum{Name: fmt.Sprintf("alphabet %v", x.al), Bounds: fmt.Sprintf("every value sequence of length 0..%d", x.n),
				Gen: func(emit func(mc.Case)) { mc.Strings(len(x.al), 0, x.n, emit) },
				Run: func(c mc.Case, t *mc.T) error {
					v := make([]int, len(c))
					for i := range c {
						v[i] = x.al[c[i]]
					}
					return check(v, t)
				}})
		}
		n := r.Pick(9, 10)
		r.Enumerate(mc.Enum{Name: "permutations", Bounds: fmt.Sprintf("every permutation of up to %d values", n),
			Gen: func(emit func(mc.Case)) {
				for k := 2; k <= n; k++ {
					mc.Perms(k, emit)
				}
			},
			Run: func(c mc.Case, t *mc.T) error { return check(c, t) }})
		r.Enumerate(mc.Enum{Name: "long", Bounds: "7 patterns of every length up to 300/1100 and 26 lengths up to 100000",
			Gen: func(emit func(mc.Case)) {
				mc.Product(emit, 7, r.Pick(301, 1101))
				for _, n := range append(mc.Large[:len(mc.Large):len(mc.Large)], mc.Huge...) {
					for k := 0; k < 7; k++ {
						emit(mc.Case{k, n})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				v := make([]int, c[1])
				for i := range v {
					v[i] = Pat(c[0], i, c[1])
				}
				return check(v, t)
			}})
	})
}

func Pat(kind, i, n int) int {
	switch kind {
	case 0:
		return i
	case 1:
		return -i
	case 2:
		return i % 3
	case 3:
		return (i * 7919) % 1009
	case 4:
		return (i%2)*1000 + i
	case 5:
		if i < n/2 {
			return i
		}
		return n - i
	}
	return int(uint32(i*2654435761)>>3) - 1<<28
}
