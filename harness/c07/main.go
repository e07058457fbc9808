package main

import (
	"fmt"
	"math"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

type node = stl.IntListNode

type inst struct {
	max   int   // total number of nodes
	maxD  int   // removed nodes kept for re-insertion
	alpha []int // nil: unique values
	a, b  *stl.IntList
	ma    []*node
	mb    []*node
	det   []*node
	ghost []*node // nodes of a cleared list (not re-used)
	val   map[*node]int
	n     int
}

func newInst(max, maxD int, alpha []int) *inst {
	return &inst{max: max, maxD: maxD, alpha: alpha, a: stl.NewIntList(), b: stl.NewIntList(), val: map[*node]int{}}
}

func (s *inst) fresh() int {
	s.n++
	if s.alpha != nil {
		return s.alpha[s.n%len(s.alpha)]
	}
	return int(mc.ElemBase) + s.n
}

func (s *inst) Ops() (r []mc.Op) {
	n, m := len(s.ma), len(s.mb)
	room := n+m+len(s.det) < s.max
	if room {
		r = append(r, mc.O("PushFront"), mc.O("PushBack"), mc.O("B.PushBack"), mc.O("B.PushFront"))
	}
	r = append(r, mc.O("Nil", -1))
	for i := 0; i < n; i++ {
		r = append(r, mc.O("Nil", i))
	}
	for d := range s.det {
		r = append(r, mc.O("Gone", d, -1))
		for i := 0; i < n; i++ {
			r = append(r, mc.O("Gone", d, i))
		}
		r = append(r, mc.O("InsertFront", d), mc.O("InsertBack", d))
		for i := 0; i < n; i++ {
			r = append(r, mc.O("InsertBefore", d, i), mc.O("InsertAfter", d, i))
		}
	}
	for i := 0; i < n; i++ {
		if room {
			r = append(r, mc.O("PushBefore", i), mc.O("PushAfter", i))
		}
		r = append(r, mc.O("Remove", i), mc.O("MoveFront", i), mc.O("MoveBack", i), mc.O("Set", i))
		for j := 0; j < n; j++ {
			r = append(r, mc.O("MoveBefore", i, j), mc.O("MoveAfter", i, j))
		}
	}
	return append(r, mc.O("PopFront"), mc.O("PopBack"), mc.O("RemoveFront"), mc.O("RemoveBack"),
		mc.O("RotateForward"), mc.O("RotateBackward"), mc.O("Reverse"), mc.O("Clear"),
		mc.O("InsertFrontList"), mc.O("InsertBackList"), mc.O("B.InsertBackList"), mc.O("B.InsertFrontList"))
}

func ins(l []*node, i int, x ...*node) []*node {
	r := append([]*node(nil), l[:i]...)
	r = append(r, x...)
	return append(r, l[i:]...)
}

func del(l []*node, i int) []*node {
	r := append([]*node(nil), l[:i]...)
	return append(r, l[i+1:]...)
}

// moved judges what a move of x returned: x, if the move changed the order.
func moved(was, now []*node, ret, x *node) error {
	for i := range now {
		if was[i] != now[i] {
			if ret != x {
				return fmt.Errorf("a move that changes the order did not return the node")
			}
			return nil
		}
	}
	if ret != nil && ret != x {
		return fmt.Errorf("returned another node")
	}
	return nil
}

func (s *inst) detach(x *node) {
	if len(s.det) < s.maxD {
		s.det = ins(s.det, len(s.det), x)
	} else {
		s.ghost = []*node{x}
	}
}

func (s *inst) added(n *node, v int) error {
	if n == nil {
		return fmt.Errorf("returned nil node")
	}
	for _, l := range [][]*node{s.ma, s.mb, s.det} {
		for _, x := range l {
			if x == n {
				return fmt.Errorf("returned a node that already exists")
			}
		}
	}
	s.val[n] = v
	return nil
}

func idx(l []*node, x *node) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func (s *inst) Do(o mc.Op) error {
	n := len(s.ma)
	arg := func(i int) int { return o.A[i] }
	removed := func(got *node, i int) error {
		if i < 0 || i >= n {
			if got != nil {
				return fmt.Errorf("returned a node on an empty list")
			}
			return nil
		}
		if got != s.ma[i] {
			return fmt.Errorf("did not return the removed node")
		}
		x := s.ma[i]
		s.ma = del(s.ma, i)
		s.detach(x)
		return nil
	}
	popped := func(v int, ok bool, i int) error {
		if ok != (n > 0) {
			return fmt.Errorf("ok=%v with %d elements", ok, n)
		}
		if ok {
			x := s.ma[i]
			if v != s.val[x] {
				return fmt.Errorf("returned value %d, want %d", v, s.val[x])
			}
			s.ma = del(s.ma, i)
			s.detach(x)
		}
		return nil
	}
	switch o.N {
	case "PushFront":
		v := s.fresh()
		x := s.a.PushFront(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.ma = ins(s.ma, 0, x)
	case "PushBack":
		v := s.fresh()
		x := s.a.PushBack(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.ma = ins(s.ma, n, x)
	case "B.PushBack":
		v := s.fresh()
		x := s.b.PushBack(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.mb = ins(s.mb, len(s.mb), x)
	case "B.PushFront":
		v := s.fresh()
		x := s.b.PushFront(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.mb = ins(s.mb, 0, x)
	case "InsertFront", "InsertBack", "InsertBefore", "InsertAfter":
		x := s.det[arg(0)]
		var got *node
		at := 0
		switch o.N {
		case "InsertFront":
			got = s.a.InsertFront(x)
		case "InsertBack":
			got, at = s.a.InsertBack(x), n
		case "InsertBefore":
			got, at = s.a.InsertBefore(x, s.ma[arg(1)]), arg(1)
		default:
			got, at = s.a.InsertAfter(x, s.ma[arg(1)]), arg(1)+1
		}
		if got != x {
			return fmt.Errorf("did not return the inserted node")
		}
		s.det = del(s.det, arg(0))
		s.ma = ins(s.ma, at, x)
	case "PushBefore", "PushAfter":
		v := s.fresh()
		var x *node
		at := arg(0)
		if o.N == "PushBefore" {
			x = s.a.PushBefore(v, s.ma[arg(0)])
		} else {
			x = s.a.PushAfter(v, s.ma[arg(0)])
			at++
		}
		if err := s.added(x, v); err != nil {
			return err
		}
		s.ma = ins(s.ma, at, x)
	case "Remove":
		return removed(s.a.Remove(s.ma[arg(0)]), arg(0))
	case "RemoveFront":
		return removed(s.a.RemoveFront(), 0)
	case "RemoveBack":
		return removed(s.a.RemoveBack(), n-1)
	case "PopFront":
		v, ok := s.a.PopFront()
		return popped(v, ok, 0)
	case "PopBack":
		v, ok := s.a.PopBack()
		return popped(v, ok, n-1)
	case "MoveFront":
		x := s.ma[arg(0)]
		was, ret := s.ma, s.a.MoveFront(x)
		s.ma = ins(del(s.ma, arg(0)), 0, x)
		return moved(was, s.ma, ret, x)
	case "MoveBack":
		x := s.ma[arg(0)]
		was, ret := s.ma, s.a.MoveBack(x)
		s.ma = ins(del(s.ma, arg(0)), n-1, x)
		return moved(was, s.ma, ret, x)
	case "MoveBefore", "MoveAfter":
		x, y := s.ma[arg(0)], s.ma[arg(1)]
		was := s.ma
		var ret *node
		if o.N == "MoveBefore" {
			ret = s.a.MoveBefore(x, y)
		} else {
			ret = s.a.MoveAfter(x, y)
		}
		if x != y {
			l := del(s.ma, arg(0))
			at := idx(l, y)
			if o.N == "MoveAfter" {
				at++
			}
			s.ma = ins(l, at, x)
		}
		return moved(was, s.ma, ret, x)
	case "Gone": // a removed node cannot be removed or moved
		x, i := s.det[arg(0)], arg(1)
		if i < 0 {
			if s.a.Remove(x) != nil || s.b.Remove(x) != nil {
				return fmt.Errorf("Remove of a removed node reports success")
			}
			if s.a.MoveFront(x) != nil || s.a.MoveBack(x) != nil {
				return fmt.Errorf("MoveFront/MoveBack of a removed node reports success")
			}
			if x.Next() != nil || x.Prev() != nil {
				return fmt.Errorf("a removed node has neighbours")
			}
		} else if s.a.MoveBefore(x, s.ma[i]) != nil || s.a.MoveAfter(x, s.ma[i]) != nil {
			return fmt.Errorf("move of a removed node reports success")
		}
	case "Nil": // nil nodes change nothing
		if i := arg(0); i < 0 {
			if s.a.Remove(nil) != nil || s.a.MoveFront(nil) != nil || s.a.MoveBack(nil) != nil || s.a.InsertFront(nil) != nil || s.a.InsertBack(nil) != nil ||
				s.a.PushBefore(1, nil) != nil || s.a.PushAfter(1, nil) != nil || s.a.MoveBefore(nil, nil) != nil || s.a.MoveAfter(nil, nil) != nil {
				return fmt.Errorf("an operation on nil reports success")
			}
		} else {
			x := s.ma[i]
			if s.a.MoveBefore(nil, x) != nil || s.a.MoveBefore(x, nil) != nil || s.a.MoveAfter(nil, x) != nil || s.a.MoveAfter(x, nil) != nil ||
				s.a.InsertBefore(nil, x) != nil || s.a.InsertAfter(nil, x) != nil {
				return fmt.Errorf("an operation on nil reports success")
			}
		}
	case "Set":
		x := s.ma[arg(0)]
		v := s.fresh()
		if old := x.Set(v); old != s.val[x] {
			return fmt.Errorf("returned %d, want %d", old, s.val[x])
		}
		s.val[x] = v
	case "RotateForward":
		s.a.RotateForward()
		if n > 0 {
			s.ma = ins(s.ma[1:], n-1, s.ma[0])
		}
	case "RotateBackward":
		s.a.RotateBackward()
		if n > 0 {
			s.ma = ins(s.ma[:n-1], 0, s.ma[n-1])
		}
	case "Reverse":
		s.a.Reverse()
		l := make([]*node, n)
		for i, x := range s.ma {
			l[n-1-i] = x
		}
		s.ma = l
	case "Clear":
		s.a.Clear()
		s.ghost = nil
		if n > 0 {
			s.ghost = s.ma[:1]
		}
		s.ma = nil
	case "InsertFrontList", "InsertBackList":
		var ok bool
		at := 0
		if o.N == "InsertFrontList" {
			ok = s.a.InsertFrontList(s.b)
		} else {
			ok, at = s.a.InsertBackList(s.b), n
		}
		if ok != (len(s.mb) > 0) {
			return fmt.Errorf("returned %v with %d nodes to splice", ok, len(s.mb))
		}
		s.ma = ins(s.ma, at, s.mb...)
		s.mb = nil
	case "B.InsertFrontList", "B.InsertBackList":
		var ok bool
		at := 0
		if o.N == "B.InsertFrontList" {
			ok = s.b.InsertFrontList(s.a)
		} else {
			ok, at = s.b.InsertBackList(s.a), len(s.mb)
		}
		if ok != (n > 0) {
			return fmt.Errorf("returned %v with %d nodes to splice", ok, n)
		}
		s.mb = ins(s.mb, at, s.ma...)
		s.ma = nil
	default:
		return fmt.Errorf("unknown op")
	}
	return nil
}

func (s *inst) show(l []*node) string {
	r := ""
	for _, x := range l {
		if s.alpha == nil && x != nil && x.Get() >= int(mc.ElemBase) {
			r += fmt.Sprintf(" #%d", x.Get()-int(mc.ElemBase))
		} else if x != nil {
			r += fmt.Sprintf(" %d", x.Get())
		} else {
			r += " nil"
		}
	}
	return "[" + r + " ]"
}

func (s *inst) seq(name string, l *stl.IntList, m []*node) error {
	n := len(m)
	if l.Empty() != (n == 0) {
		return fmt.Errorf("%s.Empty()=%v, want %d nodes", name, l.Empty(), n)
	}
	var f, b *node
	if n > 0 {
		f, b = m[0], m[n-1]
	}
	if l.Front() != f || l.Back() != b {
		return fmt.Errorf("%s: Front/Back wrong, want nodes %s", name, s.show(m))
	}
	v := l.Visitor()
	for round := 0; round < 2; round++ {
		var got []*node
		for v.Next() {
			got = append(got, v.Get())
			if len(got) > n+1 {
				break
			}
		}
		if !same(got, m) {
			return fmt.Errorf("%s: forward visit %s, want %s", name, s.show(got), s.show(m))
		}
		v.Reset()
		got = nil
		for v.Prev() {
			got = append([]*node{v.Get()}, got...)
			if len(got) > n+1 {
				break
			}
		}
		if !same(got, m) {
			return fmt.Errorf("%s: backward visit gives (reversed) %s, want %s", name, s.show(got), s.show(m))
		}
		v.Reset()
	}
	for i, x := range m {
		if x.Get() != s.val[x] {
			return fmt.Errorf("%s: node %d holds %d, want %d", name, i, x.Get(), s.val[x])
		}
		if x.Next() != m[(i+1)%n] || x.Prev() != m[(i+n-1)%n] {
			return fmt.Errorf("%s: links of node %d of %s wrong", name, i, s.show(m))
		}
		if i > 0 { // step forward to i, then back once
			v := l.Visitor()
			for k := 0; k <= i; k++ {
				v.Next()
			}
			if !v.Prev() || v.Get() != m[i-1] {
				return fmt.Errorf("%s: visitor Prev after %d Next is wrong", name, i+1)
			}
		}
	}
	return nil
}

func same(a, b []*node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *inst) Check() error {
	if err := s.seq("list", s.a, s.ma); err != nil {
		return err
	}
	if err := s.seq("other", s.b, s.mb); err != nil {
		return err
	}
	all := append(append(append(append([]*node(nil), s.ma...), s.mb...), s.det...), s.ghost...)
	for _, x := range all {
		ina, inb := idx(s.ma, x) >= 0, idx(s.mb, x) >= 0
		if s.a.IsValidNode(x) != ina {
			return fmt.Errorf("IsValidNode=%v for a node that is in the list: %v", !ina, ina)
		}
		if s.b.IsValidNode(x) != inb {
			return fmt.Errorf("other.IsValidNode=%v for a node that is in it: %v", !inb, inb)
		}
		for _, y := range probe(all) {
			if ina && s.a.Reachable(x, y) != (idx(s.ma, y) >= 0) {
				return fmt.Errorf("Reachable from a list node to a node in list(%v) is wrong", idx(s.ma, y) >= 0)
			}
		}
	}
	if s.a.IsValidNode(nil) {
		return fmt.Errorf("IsValidNode(nil)")
	}
	for _, x := range s.det {
		if x.Get() != s.val[x] {
			return fmt.Errorf("removed node changed its value")
		}
	}
	return nil
}

// probe takes all nodes of a short list and some of a long one.
func probe(all []*node) []*node {
	n := len(all)
	if n <= 130 {
		return all
	}
	r := append([]*node{all[1]}, all[n-3:]...)
	for i := 0; i < n; i += n / 6 {
		r = append(r, all[i])
	}
	return r
}

func (s *inst) Drain() error {
	for i := 0; ; i++ {
		n := len(s.ma)
		op := mc.O("PopFront")
		if i%2 == 1 {
			op = mc.O("PopBack")
		}
		if err := s.Do(op); err != nil {
			return fmt.Errorf("%s: %v", op, err)
		}
		if err := s.seq("list", s.a, s.ma); err != nil {
			return err
		}
		if n == 0 {
			return nil
		}
	}
}

func (s *inst) Key(d *mc.Dump) {
	all := append(append(append([]*node(nil), s.ma...), s.mb...), s.det...)
	if s.alpha == nil {
		pos := map[int64]int64{}
		for i, x := range all {
			pos[int64(s.val[x])] = int64(i)
		}
		d.Ren = func(v int64) int64 {
			if i, ok := pos[v]; ok {
				return mc.ElemBase + i
			}
			return 0
		}
	} else {
		d.Int(int64(s.n % len(s.alpha)))
	}
	d.Val(s.a)
	d.Val(s.b)
	d.Int(int64(len(s.ma)))
	d.Int(int64(len(s.mb)))
	for _, x := range all {
		d.Val(x)
	}
	d.Int(int64(len(s.ghost)))
}

func main() {
	mc.Main("C07", func(r *mc.Run) {
		n := r.Pick(9, 13)
		r.Explore(mc.Sys{Name: "histories", Bounds: fmt.Sprintf("two lists and removed nodes, at most %d nodes in total, until closure; every node position(s) for every operation", n),
			New: func() mc.Inst { return newInst(n, 2, nil) }})
		r.Explore(mc.Sys{Name: "values", MaxDepth: r.Pick(5, 7), Bounds: "values cycling through {0,0,-1,MinInt,MaxInt}, at most 5 nodes",
			New: func() mc.Inst { return newInst(5, 1, []int{0, 0, -1, math.MinInt64, math.MaxInt64}) }})
		two := []string{"MoveBefore", "MoveAfter"}
		one := []string{"PushBefore", "PushAfter", "Remove", "MoveFront", "MoveBack", "InsertBefore", "InsertAfter"}
		zero := []string{"Reverse", "RotateForward", "RotateBackward", "InsertFrontList", "InsertBackList", "B.InsertFrontList", "B.InsertBackList", "PopFront", "PopBack", "PushFront", "PushBack", "Clear"}
		r.Enumerate(mc.Enum{Name: "big lists", Bounds: "lists of up to 40/70 nodes (second list n/2 nodes): every operation at every position, then full check and drain; lists of 255..1025 nodes: 4 positions",
			Gen: func(emit func(mc.Case)) {
				for n := 0; n <= r.Pick(40, 70); n++ {
					for o := range zero {
						emit(mc.Case{n, 0, o})
					}
					for i := 0; i < n; i++ {
						for o := range one {
							emit(mc.Case{n, 1, o, i})
						}
						for j := 0; j < n; j++ {
							for o := range two {
								emit(mc.Case{n, 2, o, i, j})
							}
						}
					}
				}
				for _, n := range []int{255, 256, 257, 1023, 1024, 1025} {
					at := []int{0, 1, n / 2, n - 1}
					for o := range zero {
						emit(mc.Case{n, 0, o})
					}
					for _, i := range at {
						for o := range one {
							emit(mc.Case{n, 1, o, i})
						}
						for _, j := range at {
							for o := range two {
								emit(mc.Case{n, 2, o, i, j})
							}
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s := newInst(9999, 9999, nil)
				for i := 0; i < c[0]; i++ {
					if err := s.Do(mc.O([]string{"PushBack", "PushFront"}[i%2])); err != nil {
						return err
					}
				}
				for i := 0; i < c[0]/2; i++ {
					if err := s.Do(mc.O("B.PushBack")); err != nil {
						return err
					}
				}
				s.Do(mc.O("PushBack"))
				if err := s.Do(mc.O("RemoveBack")); err != nil {
					return err
				}
				op := mc.Op{N: [][]string{zero, one, two}[c[1]][c[2]], A: c[3:]}
				if c[1] == 1 && op.N[:6] == "Insert" {
					op.A = []int{0, c[3]}
				}
				t.Steps += int64(c[0]*2 + 3)
				if err := s.Do(op); err != nil {
					return fmt.Errorf("%s: %v", op, err)
				}
				if err := s.Check(); err != nil {
					return fmt.Errorf("after %s: %v", op, err)
				}
				if c[0] > 200 {
					return nil
				}
				return s.Drain()
			}})
	})
}
