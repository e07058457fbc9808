package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

type node = stl.IntTreeNode

// mnode is the model of one tree node.
type mnode struct {
	n  *node
	v  int
	ch []*mnode
}

func (m *mnode) pre(l []*mnode) []*mnode {
	l = append(l, m)
	for _, c := range m.ch {
		l = c.pre(l)
	}
	return l
}

// mk makes a fresh node with value v (through the public API only).
func mk(v int) *node {
	var scratch node
	return scratch.AddChild(v, -1)
}

func ins(l []*mnode, i int, x *mnode) []*mnode {
	if i < 0 || i >= len(l) {
		i = len(l)
	}
	r := append([]*mnode(nil), l[:i]...)
	r = append(r, x)
	return append(r, l[i:]...)
}

func del(l []*mnode, i int) []*mnode {
	r := append([]*mnode(nil), l[:i]...)
	return append(r, l[i+1:]...)
}

// checkChildren compares the children observers of one node with the model.
func checkChildren(m *mnode, t *mc.T) error {
	k := len(m.ch)
	if g := m.n.NumChildren(); g != k {
		return fmt.Errorf("NumChildren()=%d, want %d", g, k)
	}
	c := m.n.Children()
	if len(c) != k {
		return fmt.Errorf("len(Children())=%d, want %d", len(c), k)
	}
	for i, x := range m.ch {
		if c[i] != x.n {
			return fmt.Errorf("Children()[%d] is the wrong node", i)
		}
		if g, ok := m.n.GetChild(i); !ok || g != x.n {
			return fmt.Errorf("GetChild(%d) of %d wrong", i, k)
		}
	}
	for _, i := range []int{-1, k, k + 1, math.MinInt64, math.MaxInt64} {
		if g, ok := m.n.GetChild(i); ok || g != nil {
			return fmt.Errorf("GetChild(%d) of %d: ok=%v", i, k, ok)
		}
	}
	t.Steps += int64(k + 7)
	return nil
}

// checkWalks compares All and both traversal directions of a subtree.
func checkWalks(m *mnode, t *mc.T) error {
	seq := m.pre(nil)
	n := len(seq)
	all := m.n.All()
	if len(all) != n {
		return fmt.Errorf("All() has %d values, want %d", len(all), n)
	}
	for i := range seq {
		if all[i] != seq[i].v {
			return fmt.Errorf("All()[%d]=%d, want %d", i, all[i], seq[i].v)
		}
	}
	f, b := m.n.Visitor(), m.n.Visitor()
	for i := 0; i <= n; i++ {
		if ok := f.Next(); ok != (i < n) {
			return fmt.Errorf("Next()=%v at %d of %d", ok, i, n)
		}
		if i < n && f.Get() != seq[i].v {
			return fmt.Errorf("forward value %d is %d, want %d", i, f.Get(), seq[i].v)
		}
		if ok := b.Prev(); ok != (i < n) {
			return fmt.Errorf("Prev()=%v at %d of %d", ok, i, n)
		}
		if i < n && b.Get() != seq[n-1-i].v {
			return fmt.Errorf("backward value %d is %d, want %d", i, b.Get(), seq[n-1-i].v)
		}
	}
	t.Steps += int64(2*n + 3)
	return nil
}

// walk runs one word of moves (0 Next, 1 Prev); the position must follow exactly as
// long as it stays inside; the run ends when it leaves the traversal.
func walk(m *mnode, seq []*mnode, word []int, t *mc.T) error {
	n := len(seq)
	v := m.n.Visitor()
	pos := -2 // not started
	for i, w := range word {
		var ok bool
		if w == 0 {
			ok = v.Next()
			if pos == -2 {
				pos = 0
			} else {
				pos++
			}
		} else {
			ok = v.Prev()
			if pos == -2 {
				pos = n - 1
			} else {
				pos--
			}
		}
		t.Steps++
		in := pos >= 0 && pos < n
		if ok != in {
			return fmt.Errorf("move %d (%s) returned %v at position %d of %d", i, []string{"Next", "Prev"}[w], ok, pos, n)
		}
		if !in {
			return nil
		}
		if v.Get() != seq[pos].v {
			return fmt.Errorf("move %d (%s): value %d at position %d, want %d", i, []string{"Next", "Prev"}[w], v.Get(), pos, seq[pos].v)
		}
	}
	return nil
}

// zigzag tries every pair of turning points.
func zigzag(m *mnode, t *mc.T) error {
	seq := m.pre(nil)
	n := len(seq)
	for i := 0; i < n; i++ {
		for j := 0; j <= i; j++ {
			for d := 0; d < 2; d++ {
				w := make([]int, 0, 3*n)
				for k := 0; k <= i; k++ {
					w = append(w, d)
				}
				for k := 0; k < i-j; k++ {
					w = append(w, 1-d)
				}
				for k := 0; k < n-j; k++ {
					w = append(w, d)
				}
				if err := walk(m, seq, w, t); err != nil {
					return fmt.Errorf("turning at %d and %d: %v", i, j, err)
				}
			}
		}
	}
	return nil
}

type inst struct {
	max   int
	alpha []int
	root  *mnode
	det   []*mnode
}

func newInst(max int, alpha []int) *inst {
	return &inst{max: max, alpha: alpha, root: &mnode{n: mk(7), v: 7}}
}

func (s *inst) Ops() (r []mc.Op) {
	seq := s.root.pre(nil)
	total := len(seq)
	for _, d := range s.det {
		total += len(d.pre(nil))
	}
	for p, m := range seq {
		k := len(m.ch)
		for i := -1; i <= k+1; i++ {
			if total < s.max {
				for a := range s.alpha {
					r = append(r, mc.O("AddChild", p, a, i))
				}
			}
			for d := range s.det {
				r = append(r, mc.O("AddChildNode", p, d, i))
			}
			r = append(r, mc.O("RemoveChild", p, i))
		}
		if k > 1 {
			r = append(r, mc.O("SortChildren", p))
		}
	}
	return
}

func (s *inst) Do(o mc.Op) error {
	m := s.root.pre(nil)[o.A[0]]
	switch o.N {
	case "AddChild":
		v := s.alpha[o.A[1]]
		x := m.n.AddChild(v, o.A[2])
		if x == nil {
			return fmt.Errorf("returned nil")
		}
		for _, y := range s.all() {
			if y.n == x {
				return fmt.Errorf("returned an existing node")
			}
		}
		m.ch = ins(m.ch, o.A[2], &mnode{n: x, v: v})
	case "AddChildNode":
		x := s.det[o.A[1]]
		if m.n.AddChildNode(x.n, o.A[2]) != x.n {
			return fmt.Errorf("did not return the node")
		}
		s.det = del(s.det, o.A[1])
		m.ch = ins(m.ch, o.A[2], x)
	case "RemoveChild":
		i := o.A[1]
		x, ok := m.n.RemoveChild(i)
		if ok != (i >= 0 && i < len(m.ch)) {
			return fmt.Errorf("ok=%v with %d children", ok, len(m.ch))
		}
		if ok {
			if x != m.ch[i].n {
				return fmt.Errorf("returned the wrong node")
			}
			if len(s.det) < 2 {
				s.det = ins(s.det, -1, m.ch[i])
			}
			m.ch = del(m.ch, i)
		}
	case "SortChildren":
		m.n.SortChildren()
		return sorted(m)
	}
	return nil
}

// sorted checks that the children are an ascending permutation, and takes their order.
func sorted(m *mnode) error {
	c := m.n.Children()
	if len(c) != len(m.ch) {
		return fmt.Errorf("SortChildren changed the number of children")
	}
	by := map[*node]*mnode{}
	for _, x := range m.ch {
		by[x.n] = x
	}
	var l []*mnode
	for _, x := range c {
		y := by[x]
		if y == nil {
			return fmt.Errorf("SortChildren lost or duplicated a node")
		}
		delete(by, x)
		l = append(l, y)
	}
	if !sort.SliceIsSorted(l, func(i, j int) bool { return l[i].v < l[j].v }) {
		return fmt.Errorf("children not in ascending order")
	}
	m.ch = l
	return nil
}

func (s *inst) all() []*mnode {
	l := s.root.pre(nil)
	for _, d := range s.det {
		l = d.pre(l)
	}
	return l
}

func (s *inst) Check() error {
	t := &mc.T{}
	for _, m := range s.all() {
		if err := checkChildren(m, t); err != nil {
			return err
		}
		if err := checkWalks(m, t); err != nil {
			return err
		}
	}
	return nil
}

func (s *inst) Drain() error {
	t := &mc.T{}
	for _, m := range s.all() {
		if err := zigzag(m, t); err != nil {
			return err
		}
	}
	return nil
}

func (s *inst) Key(d *mc.Dump) {
	d.Val(s.root.n)
	for _, x := range s.det {
		d.Val(x.n)
	}
	for _, x := range s.all() {
		d.Int(int64(d.ID(x.n)))
		d.Int(int64(len(x.ch)))
	}
}

// tree builds the tree given by a balanced parenthesis word (1 down, 0 up), with the
// preorder number as value; order tells how the children are added.
func tree(par []int, order int) (root *mnode, err error) {
	// par[i] is the parent (preorder number) of node i+1
	n := len(par) + 1
	nodes := make([]*mnode, n)
	ch := make([][]int, n)
	for i, p := range par {
		ch[p] = append(ch[p], i+1)
	}
	nodes[0] = &mnode{n: mk(0), v: 0}
	var build func(i int)
	build = func(i int) {
		m := nodes[i]
		c := ch[i]
		switch order {
		case 0: // append
			for _, j := range c {
				nodes[j] = &mnode{v: j, n: m.n.AddChild(j, -1)}
			}
		case 1: // always in front
			for k := len(c) - 1; k >= 0; k-- {
				nodes[c[k]] = &mnode{v: c[k], n: m.n.AddChild(c[k], 0)}
			}
		case 2: // odd ones first, then the even ones inserted between
			for k := 1; k < len(c); k += 2 {
				nodes[c[k]] = &mnode{v: c[k], n: m.n.AddChild(c[k], k)}
			}
			for k := 0; k < len(c); k += 2 {
				nodes[c[k]] = &mnode{v: c[k], n: m.n.AddChild(c[k], k)}
			}
		}
		for _, j := range c {
			m.ch = append(m.ch, nodes[j])
		}
		for _, j := range c {
			build(j)
		}
	}
	build(0)
	for _, m := range nodes {
		if err := checkChildren(m, &mc.T{}); err != nil {
			return nil, err
		}
	}
	return nodes[0], nil
}

// shapes emits the parent vector of every ordered tree with n nodes.
func shapes(n int, emit func(mc.Case)) {
	par := make(mc.Case, 0, n)
	stack := []int{0}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			emit(par)
			return
		}
		for d := len(stack); d >= 1; d-- {
			old := append([]int(nil), stack...)
			par = append(par, stack[d-1])
			stack = append(stack[:d:d], i)
			rec(i + 1)
			par = par[:len(par)-1]
			stack = old
		}
	}
	rec(1)
}

func main() {
	mc.Main("C11", func(r *mc.Run) {
		n := r.Pick(6, 7)
		r.Explore(mc.Sys{Name: "histories", MaxDepth: r.Pick(7, 9), Bounds: fmt.Sprintf("one tree and removed subtrees, at most %d nodes, child values {3,5}, every node, every index incl. invalid ones; full walks from every node and every pair of turning points", n),
			New: func() mc.Inst { return newInst(n, []int{3, 5}) }})
		r.Explore(mc.Sys{Name: "wide histories", MaxDepth: r.Pick(8, 10), Bounds: "child values {MinInt,-1,0,1,MaxInt}, at most 4 (5) nodes",
			New: func() mc.Inst { return newInst(r.Pick(4, 5), []int{math.MinInt64, -1, 0, 1, math.MaxInt64}) }})
		for ord := 0; ord < 3; ord++ {
			ord := ord
			r.Enumerate(mc.Enum{Name: fmt.Sprintf("shapes order %d", ord), Bounds: fmt.Sprintf("every ordered tree with up to %d nodes, built in order variant %d: children, All, walks from every node and every pair of turning points", r.Pick(11, 13), ord),
				Gen: func(emit func(mc.Case)) {
					for n := 1; n <= r.Pick(11, 13); n++ {
						shapes(n, emit)
					}
				},
				Run: func(c mc.Case, t *mc.T) error {
					m, err := tree(c, ord)
					if err != nil {
						return err
					}
					for _, x := range m.pre(nil) {
						if err := checkWalks(x, t); err != nil {
							return err
						}
					}
					return zigzag(m, t)
				}})
		}
		r.Enumerate(mc.Enum{Name: "visitor words", Bounds: fmt.Sprintf("every ordered tree with up to %d nodes: every word of Next/Prev moves of length 2n+2 until it leaves the traversal", r.Pick(7, 8)),
			Gen: func(emit func(mc.Case)) {
				for n := 1; n <= r.Pick(7, 8); n++ {
					shapes(n, emit)
				}
			},
			Run: func(c mc.Case, t *mc.T) (err error) {
				m, err := tree(c, 0)
				if err != nil {
					return err
				}
				seq := m.pre(nil)
				l := 2*len(seq) + 2
				mc.Strings(2, l, l, func(w mc.Case) {
					if err == nil {
						if e := walk(m, seq, w, t); e != nil {
							err = fmt.Errorf("word %v: %v", w, e)
						}
					}
				})
				return
			}})
		r.Enumerate(mc.Enum{Name: "big trees", Bounds: fmt.Sprintf("chains, stars, combs (left/right) and complete k-ary trees with 1..%d nodes and 6 sizes up to 4097", r.Pick(80, 300)),
			Gen: func(emit func(mc.Case)) {
				for n := 1; n <= r.Pick(80, 300); n++ {
					for k := 0; k < 6; k++ {
						emit(mc.Case{n, k})
					}
				}
				for _, n := range []int{1000, 1023, 1024, 1025, 2000, 4097} {
					for k := 0; k < 6; k++ {
						emit(mc.Case{n, k})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				n, kind := c[0], c[1]
				par := make([]int, n-1)
				for i := range par {
					switch kind {
					case 0:
						par[i] = i // chain
					case 1:
						par[i] = 0 // star
					case 2: // comb: every second node is a leaf
						par[i] = i - i%2
					case 3: // caterpillar: long chain with leaves at the end
						if i < n/2 {
							par[i] = i
						} else {
							par[i] = n - 1 - i
						}
					case 4, 5:
						par[i] = i // replaced below
					}
				}
				if kind >= 4 { // complete (kind-2)-ary trees in preorder
					k := kind - 2
					par = par[:0]
					var rec func(p, lo, cnt int)
					rec = func(p, lo, cnt int) {
						if lo > 0 {
							par = append(par, p)
						}
						rest := cnt - 1
						at := lo + 1
						for j := 0; j < k && rest > 0; j++ {
							sz := rest / (k - j)
							if sz == 0 {
								continue
							}
							rec(lo, at, sz)
							at += sz
							rest -= sz
						}
					}
					rec(0, 0, n)
				}
				m, err := tree(par, n%3)
				if err != nil {
					return err
				}
				if err := checkWalks(m, t); err != nil {
					return err
				}
				if n <= r.Pick(28, 60) {
					return zigzag(m, t)
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "sort children", Bounds: fmt.Sprintf("every sequence over 3 values up to length %d, every permutation up to %d", r.Pick(8, 10), r.Pick(7, 9)),
			Gen: func(emit func(mc.Case)) {
				mc.Strings(3, 0, r.Pick(8, 10), emit)
				for n := 0; n <= r.Pick(7, 9); n++ {
					mc.Perms(n, emit)
				}
				for n := 10; n <= r.Pick(60, 200); n++ { // beyond insertion sort sizes
					c := make(mc.Case, n)
					for _, k := range []int{1, n - 1, 2, 3, 7} {
						for i := range c {
							c[i] = i * k % n
						}
						emit(c)
						for i := range c {
							c[i] = i * k % n / 3
						}
						emit(c)
					}
				}
				for _, n := range []int{1000, 1025, 4097} {
					c := make(mc.Case, n)
					for i := range c {
						c[i] = i * 7919 % n / 3
					}
					emit(c)
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				m := &mnode{n: mk(0)}
				for _, v := range c {
					m.ch = append(m.ch, &mnode{n: m.n.AddChild(v, -1), v: v})
				}
				if len(m.ch) > 0 { // a grandchild travels with its parent
					x := m.ch[0]
					x.ch = append(x.ch, &mnode{n: x.n.AddChild(99, 0), v: 99})
				}
				m.n.SortChildren()
				t.Steps += int64(len(c) + 1)
				if err := sorted(m); err != nil {
					return err
				}
				if err := checkChildren(m, t); err != nil {
					return err
				}
				return checkWalks(m, t)
			}})
	})
}
