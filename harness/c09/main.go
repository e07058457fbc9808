package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"unsafe"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

type node = stl.IntSListNode

// tailed is what the list has more when it is generated with GOGP_HasTail (C39).
type tailed interface {
	Back() *node
	PushBack(v int) *node
	PopBack() (int, bool)
	MoveBack(n *node) *node
	PushBackList(o *stl.IntSList)
}

// tail gives the list with its tail operations, if there are any.
func tail(l *stl.IntSList) tailed {
	t, _ := interface{}(l).(tailed)
	return t
}

type inst struct {
	max   int
	maxD  int
	alpha []int
	a, b  *stl.IntSList
	ma    []*node
	mb    []*node
	det   []*node
	val   map[*node]int
	n     int
}

func newInst(max, maxD int, alpha []int) *inst {
	return &inst{max: max, maxD: maxD, alpha: alpha, a: stl.NewIntSList(), b: &stl.IntSList{}, val: map[*node]int{}}
}

func (s *inst) fresh() int {
	s.n++
	if s.alpha != nil {
		return s.alpha[s.n%len(s.alpha)]
	}
	return int(mc.ElemBase) + s.n
}

func (s *inst) Ops() (r []mc.Op) {
	n, m := len(s.ma), len(s.mb)
	room := n+m+len(s.det) < s.max
	if room {
		r = append(r, mc.O("PushFront"), mc.O("B.PushFront"))
	}
	if tail(s.a) != nil {
		if room {
			r = append(r, mc.O("PushBack"), mc.O("B.PushBack"))
		}
		r = append(r, mc.O("PopBack"), mc.O("PushBackList"))
		if s.alpha != nil { // unique elements are renamed by position: their order is lost
			r = append(r, mc.O("Sort"))
		}
		for i := 0; i < n; i++ {
			r = append(r, mc.O("MoveBack", i))
		}
	}
	r = append(r, mc.O("Nil", -1))
	for i := 0; i < n; i++ {
		r = append(r, mc.O("Nil", i))
	}
	for d := range s.det {
		r = append(r, mc.O("Gone", d, -1))
		for i := 0; i < n; i++ {
			r = append(r, mc.O("Gone", d, i))
		}
		r = append(r, mc.O("InsertFront", d))
		for i := 0; i < n; i++ {
			r = append(r, mc.O("InsertAfter", d, i))
		}
	}
	for i := 0; i < n; i++ {
		if room {
			r = append(r, mc.O("PushAfter", i))
		}
		r = append(r, mc.O("Remove", i), mc.O("MoveFront", i), mc.O("Set", i))
		for j := 0; j < n; j++ {
			r = append(r, mc.O("MoveAfter", i, j))
		}
	}
	return append(r, mc.O("PopFront"), mc.O("RemoveFront"), mc.O("Reverse"), mc.O("Clear"), mc.O("PushFrontList"))
}

func ins(l []*node, i int, x ...*node) []*node {
	r := append([]*node(nil), l[:i]...)
	r = append(r, x...)
	return append(r, l[i:]...)
}

func del(l []*node, i int) []*node {
	r := append([]*node(nil), l[:i]...)
	return append(r, l[i+1:]...)
}

// moved judges what a move of x returned: x, if the move changed the order.
func moved(was, now []*node, ret, x *node) error {
	for i := range now {
		if was[i] != now[i] {
			if ret != x {
				return fmt.Errorf("a move that changes the order did not return the node")
			}
			return nil
		}
	}
	if ret != nil && ret != x {
		return fmt.Errorf("returned another node")
	}
	return nil
}

func idx(l []*node, x *node) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func (s *inst) detach(x *node) {
	if len(s.det) < s.maxD {
		s.det = ins(s.det, len(s.det), x)
	}
}

func (s *inst) added(n *node, v int) error {
	if n == nil {
		return fmt.Errorf("returned nil node")
	}
	for _, l := range [][]*node{s.ma, s.mb, s.det} {
		if idx(l, n) >= 0 {
			return fmt.Errorf("returned a node that already exists")
		}
	}
	s.val[n] = v
	return nil
}

func (s *inst) Do(o mc.Op) error {
	n := len(s.ma)
	arg := func(i int) int { return o.A[i] }
	removed := func(got *node, i int) error {
		if i >= n {
			if got != nil {
				return fmt.Errorf("returned a node on an empty list")
			}
			return nil
		}
		if got != s.ma[i] {
			return fmt.Errorf("did not return the removed node")
		}
		x := s.ma[i]
		s.ma = del(s.ma, i)
		s.detach(x)
		return nil
	}
	switch o.N {
	case "PushFront":
		v := s.fresh()
		x := s.a.PushFront(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.ma = ins(s.ma, 0, x)
	case "B.PushFront":
		v := s.fresh()
		x := s.b.PushFront(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.mb = ins(s.mb, 0, x)
	case "PushBack":
		v := s.fresh()
		x := tail(s.a).PushBack(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.ma = ins(s.ma, n, x)
	case "B.PushBack":
		v := s.fresh()
		x := tail(s.b).PushBack(v)
		if err := s.added(x, v); err != nil {
			return err
		}
		s.mb = ins(s.mb, len(s.mb), x)
	case "PopBack":
		v, ok := tail(s.a).PopBack()
		if ok != (n > 0) {
			return fmt.Errorf("ok=%v with %d nodes", ok, n)
		}
		if ok {
			x := s.ma[n-1]
			if v != s.val[x] {
				return fmt.Errorf("returned %d, want %d", v, s.val[x])
			}
			s.ma = del(s.ma, n-1)
			s.detach(x)
		}
	case "MoveBack":
		x := s.ma[arg(0)]
		was, ret := s.ma, tail(s.a).MoveBack(x)
		l := del(s.ma, arg(0))
		s.ma = ins(l, n-1, x)
		return moved(was, s.ma, ret, x)
	case "PushBackList":
		tail(s.a).PushBackList(s.b)
		s.ma = ins(s.ma, n, s.mb...)
		s.mb = nil
	case "Sort":
		s.a.Sort()
		s.ma = ins(s.ma, 0)
		sort.SliceStable(s.ma, func(i, j int) bool { return s.val[s.ma[i]] < s.val[s.ma[j]] })
	case "PushAfter":
		v := s.fresh()
		x := s.a.PushAfter(v, s.ma[arg(0)])
		if err := s.added(x, v); err != nil {
			return err
		}
		s.ma = ins(s.ma, arg(0)+1, x)
	case "InsertFront":
		x := s.det[arg(0)]
		if s.a.InsertFront(x) != x {
			return fmt.Errorf("did not return the inserted node")
		}
		s.det = del(s.det, arg(0))
		s.ma = ins(s.ma, 0, x)
	case "InsertAfter":
		x := s.det[arg(0)]
		if s.a.InsertAfter(x, s.ma[arg(1)]) != x {
			return fmt.Errorf("did not return the inserted node")
		}
		s.det = del(s.det, arg(0))
		s.ma = ins(s.ma, arg(1)+1, x)
	case "Remove":
		return removed(s.a.Remove(s.ma[arg(0)]), arg(0))
	case "RemoveFront":
		return removed(s.a.RemoveFront(), 0)
	case "PopFront":
		v, ok := s.a.PopFront()
		if ok != (n > 0) {
			return fmt.Errorf("ok=%v with %d nodes", ok, n)
		}
		if ok {
			x := s.ma[0]
			if v != s.val[x] {
				return fmt.Errorf("returned %d, want %d", v, s.val[x])
			}
			s.ma = del(s.ma, 0)
			s.detach(x)
		}
	case "MoveFront":
		x := s.ma[arg(0)]
		was, ret := s.ma, s.a.MoveFront(x)
		s.ma = ins(del(s.ma, arg(0)), 0, x)
		return moved(was, s.ma, ret, x)
	case "MoveAfter":
		x, y := s.ma[arg(0)], s.ma[arg(1)]
		was, ret := s.ma, s.a.MoveAfter(x, y)
		if x != y {
			l := del(s.ma, arg(0))
			s.ma = ins(l, idx(l, y)+1, x)
		}
		return moved(was, s.ma, ret, x)
	case "Gone": // a removed node cannot be removed or moved
		x, i := s.det[arg(0)], arg(1)
		if i < 0 {
			if s.a.Remove(x) != nil || s.a.MoveFront(x) != nil {
				return fmt.Errorf("Remove/MoveFront of a removed node reports success")
			}
			if t := tail(s.a); t != nil && t.MoveBack(x) != nil {
				return fmt.Errorf("MoveBack of a removed node reports success")
			}
			if t, k := x.Tail(); x.Next() != nil || t != x || k != 1 {
				return fmt.Errorf("a removed node has a successor")
			}
		} else if s.a.MoveAfter(x, s.ma[i]) != nil {
			return fmt.Errorf("MoveAfter of a removed node reports success")
		}
	case "Nil": // nil nodes change nothing
		if i := arg(0); i < 0 {
			if s.a.Remove(nil) != nil || s.a.MoveFront(nil) != nil || s.a.InsertFront(nil) != nil || s.a.PushAfter(1, nil) != nil || s.a.MoveAfter(nil, nil) != nil || s.a.InsertAfter(nil, nil) != nil {
				return fmt.Errorf("an operation on nil reports success")
			}
			if t := tail(s.a); t != nil && t.MoveBack(nil) != nil {
				return fmt.Errorf("MoveBack(nil) reports success")
			}
		} else if x := s.ma[i]; s.a.MoveAfter(nil, x) != nil || s.a.MoveAfter(x, nil) != nil || s.a.InsertAfter(nil, x) != nil || s.a.InsertAfter(x, nil) != nil || s.a.InsertAfter(x, x) != nil {
			return fmt.Errorf("an operation on nil reports success")
		}
	case "Set":
		x := s.ma[arg(0)]
		v := s.fresh()
		if old := x.Set(v); old != s.val[x] {
			return fmt.Errorf("returned %d, want %d", old, s.val[x])
		}
		s.val[x] = v
	case "Reverse":
		s.a.Reverse()
		l := make([]*node, n)
		for i, x := range s.ma {
			l[n-1-i] = x
		}
		s.ma = l
	case "Clear":
		s.a.Clear()
		s.ma = nil
	case "PushFrontList":
		s.a.PushFrontList(s.b)
		s.ma = ins(s.ma, 0, s.mb...)
		s.mb = nil
		s.b = stl.NewIntSList() // what the source holds afterwards is not specified
	default:
		return fmt.Errorf("unknown op")
	}
	return nil
}

func (s *inst) seq(name string, l *stl.IntSList, m []*node) error {
	n := len(m)
	if l.Empty() != (n == 0) {
		return fmt.Errorf("%s.Empty()=%v, want %d nodes", name, l.Empty(), n)
	}
	x := l.Front()
	for i := 0; i <= n; i++ {
		if i == n {
			if x != nil {
				return fmt.Errorf("%s: chain goes on after %d nodes", name, n)
			}
			break
		}
		if x != m[i] {
			return fmt.Errorf("%s: chain has the wrong node at %d of %d", name, i, n)
		}
		if x.Get() != s.val[x] {
			return fmt.Errorf("%s: node %d holds %d, want %d", name, i, x.Get(), s.val[x])
		}
		x = x.Next()
	}
	if t := tail(l); t != nil {
		if b := t.Back(); (b == nil) != (n == 0) || n > 0 && b != m[n-1] {
			return fmt.Errorf("%s.Back() is not the last of %d nodes", name, n)
		}
	}
	if got := l.Len(); got != n {
		return fmt.Errorf("%s.Len()=%d, want %d", name, got, n)
	}
	v := l.Visitor()
	for i := 0; i <= n; i++ {
		if ok := v.Next(); ok != (i < n) {
			return fmt.Errorf("%s: visitor Next()=%v at %d of %d", name, ok, i, n)
		}
		if i < n && v.Get() != m[i] {
			return fmt.Errorf("%s: visitor gives the wrong node at %d", name, i)
		}
	}
	for i, x := range m {
		if t, k := x.Tail(); t != m[n-1] || k != n-i {
			return fmt.Errorf("%s: Tail of node %d of %d is wrong (size %d)", name, i, n, k)
		}
	}
	if n == 0 {
		if t, k := l.Front().Tail(); t != nil || k != 0 {
			return fmt.Errorf("%s: Tail of no node", name)
		}
	}
	return nil
}

func (s *inst) Check() error {
	if err := s.seq("list", s.a, s.ma); err != nil {
		return err
	}
	if err := s.seq("other", s.b, s.mb); err != nil {
		return err
	}
	all := append(append(append([]*node(nil), s.ma...), s.mb...), s.det...)
	for _, x := range all {
		i := idx(s.ma, x)
		if s.a.IsValidNode(x) != (i >= 0) {
			return fmt.Errorf("IsValidNode wrong for a node at %d", i)
		}
		if s.b.IsValidNode(x) != (idx(s.mb, x) >= 0) {
			return fmt.Errorf("other.IsValidNode wrong")
		}
		if s.a.HasCycle(x) {
			return fmt.Errorf("HasCycle true on a chain")
		}
		for _, y := range probe(all) {
			if j := idx(s.ma, y); i >= 0 && s.a.Reachable(x, y) != (j >= i) {
				return fmt.Errorf("Reachable from %d to %d wrong", i, j)
			}
		}
	}
	if s.a.IsValidNode(nil) || s.a.HasCycle(nil) {
		return fmt.Errorf("nil node is valid or cyclic")
	}
	for _, x := range s.det {
		if x.Get() != s.val[x] {
			return fmt.Errorf("removed node changed its value")
		}
	}
	return nil
}

// probe takes all nodes of a short list and some of a long one.
func probe(all []*node) []*node {
	n := len(all)
	if n <= 130 {
		return all
	}
	r := append([]*node{all[1]}, all[n-3:]...)
	for i := 0; i < n; i += n / 6 {
		r = append(r, all[i])
	}
	return r
}

func (s *inst) Drain() error {
	for {
		n := len(s.ma)
		if err := s.Do(mc.O("PopFront")); err != nil {
			return fmt.Errorf("PopFront: %v", err)
		}
		if err := s.seq("list", s.a, s.ma); err != nil {
			return err
		}
		if n == 0 {
			return nil
		}
	}
}

func (s *inst) Key(d *mc.Dump) {
	all := append(append(append([]*node(nil), s.ma...), s.mb...), s.det...)
	if s.alpha == nil {
		pos := map[int64]int64{}
		for i, x := range all {
			pos[int64(s.val[x])] = int64(i)
		}
		d.Ren = func(v int64) int64 {
			if i, ok := pos[v]; ok {
				return mc.ElemBase + i
			}
			return 0
		}
	} else {
		d.Int(int64(s.n % len(s.alpha)))
	}
	d.Val(s.a)
	d.Val(s.b)
	d.Int(int64(len(s.ma)))
	d.Int(int64(len(s.mb)))
	for _, x := range all {
		d.Val(x)
	}
}

// link makes x.Next()==y by writing the only field of node pointer type.
func link(x, y *node) bool {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(x) {
			*(**node)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = y
			return x.Next() == y
		}
	}
	return false
}

// shape checks HasCycle/Reachable/IsValidNode on prefix p + cycle k (k=0: chain).
func shape(p, k int, t *mc.T) error {
	n := p + k
	l := stl.NewIntSList()
	m := make([]*node, n)
	for i := n - 1; i >= p; i-- {
		m[i] = l.PushFront(i % 3)
	}
	if k > 0 {
		l.PushFrontList(l) // closes the ring: the last node points to the first
		if m[n-1].Next() != m[p] && !link(m[n-1], m[p]) {
			return nil // cannot build the shape
		}
	}
	for i := p - 1; i >= 0; i-- {
		m[i] = l.PushFront(i % 3)
	}
	for i := 0; i+1 < n; i++ {
		if m[i].Next() != m[i+1] {
			return nil // not the intended shape; histories decide the pushes
		}
	}
	if n > 0 && k > 0 && (m[n-1].Next() != m[p] || l.Front() != m[0]) {
		return nil
	}
	out := &node{}
	for i, x := range m {
		t.Steps += 2
		if l.HasCycle(x) != (k > 0) {
			return fmt.Errorf("HasCycle(node %d)=%v with prefix %d, cycle %d", i, k == 0, p, k)
		}
		if !l.IsValidNode(x) {
			return fmt.Errorf("IsValidNode(node %d) false with prefix %d, cycle %d", i, p, k)
		}
		for j, y := range m {
			want := j >= i || j >= p && k > 0
			t.Steps++
			if l.Reachable(x, y) != want {
				return fmt.Errorf("Reachable(%d,%d)=%v with prefix %d, cycle %d", i, j, !want, p, k)
			}
		}
		if l.Reachable(x, out) {
			return fmt.Errorf("foreign node reachable")
		}
	}
	if l.IsValidNode(out) {
		return fmt.Errorf("foreign node valid")
	}
	return nil
}

func main() {
	mc.Main("C09", func(r *mc.Run) {
		n := r.Pick(9, 13)
		r.Explore(mc.Sys{Name: "histories", Bounds: fmt.Sprintf("two lists and removed nodes, at most %d nodes in total, until closure; every node position(s) for every operation", n),
			New: func() mc.Inst { return newInst(n, 2, nil) }})
		r.Explore(mc.Sys{Name: "values", MaxDepth: r.Pick(6, 8), Bounds: "values cycling through {0,0,-1,MinInt,MaxInt}, at most 5 nodes",
			New: func() mc.Inst { return newInst(5, 1, []int{0, 0, -1, math.MinInt64, math.MaxInt64}) }})
		r.Enumerate(mc.Enum{Name: "shapes", Bounds: "every chain / rho shape with prefix<=40 (70), cycle<=40 (70): HasCycle, Reachable, IsValidNode for every node (pair)",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, r.Pick(41, 71), r.Pick(41, 71)) },
			Run: func(c mc.Case, t *mc.T) error { return shape(c[0], c[1], t) }})
		one := []string{"PushAfter", "Remove", "MoveFront", "InsertAfter"}
		zero := []string{"Reverse", "PushFrontList", "PopFront", "PushFront", "RemoveFront", "Clear"}
		if tail(stl.NewIntSList()) != nil {
			one = append(one, "MoveBack")
			zero = append(zero, "PushBackList", "PopBack", "PushBack", "Sort")
		}
		r.Enumerate(mc.Enum{Name: "big lists", Bounds: "lists of up to 40/70 nodes: every operation at every position, then full check and drain; lists of 255..1025 nodes: 4 positions",
			Gen: func(emit func(mc.Case)) {
				for n := 0; n <= r.Pick(40, 70); n++ {
					for o := range zero {
						emit(mc.Case{n, 0, o})
					}
					for i := 0; i < n; i++ {
						for o := range one {
							emit(mc.Case{n, 1, o, i})
						}
						for j := 0; j < n; j++ {
							emit(mc.Case{n, 2, 0, i, j})
						}
					}
				}
				for _, n := range []int{255, 256, 257, 1023, 1024, 1025} {
					at := []int{0, 1, n / 2, n - 1}
					for o := range zero {
						emit(mc.Case{n, 0, o})
					}
					for _, i := range at {
						for o := range one {
							emit(mc.Case{n, 1, o, i})
						}
						for _, j := range at {
							emit(mc.Case{n, 2, 0, i, j})
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s := newInst(9999, 9999, nil)
				for i := 0; i < c[0]; i++ {
					if err := s.Do(mc.O("PushFront")); err != nil {
						return err
					}
				}
				for i := 0; i < c[0]/2; i++ {
					if err := s.Do(mc.O("B.PushFront")); err != nil {
						return err
					}
				}
				s.Do(mc.O("PushFront"))
				if err := s.Do(mc.O("RemoveFront")); err != nil {
					return err
				}
				op := mc.Op{N: [][]string{zero, one, {"MoveAfter"}}[c[1]][c[2]], A: c[3:]}
				if op.N == "InsertAfter" {
					op.A = []int{0, c[3]}
				}
				t.Steps += int64(c[0]*2 + 3)
				if err := s.Do(op); err != nil {
					return fmt.Errorf("%s: %v", op, err)
				}
				if err := s.Check(); err != nil {
					return fmt.Errorf("after %s: %v", op, err)
				}
				if c[0] > 200 {
					return nil
				}
				return s.Drain()
			}})
	})
}
