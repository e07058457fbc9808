package main

import (
	"fmt"
	"math"

	"github.com/vipally/gx/stl"
	"gxv/mc"
)

// cmpr is the common interface of both comparators, with ints as values.
type cmpr struct {
	name string
	// base gives every comparator object obtainable: index -> (object functions)
	lesser, greater []func(a, b int) bool
	str             func(i, which int) string
}

func values() []int {
	var l []int
	for i := -66; i <= 66; i++ {
		l = append(l, i)
	}
	for k := uint(7); k < 64; k++ {
		for d := -1; d <= 1; d++ {
			l = append(l, int(uint64(1)<<k)+d, -int(uint64(1)<<k)+d)
		}
	}
	l = append(l, math.MinInt64, math.MinInt64+1, math.MaxInt64, math.MaxInt64-1)
	seen := map[int]bool{}
	var r []int
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

func mk(v int) *stl.IntTreeNode {
	var s stl.IntTreeNode
	return s.AddChild(v, -1)
}

// how comparators are obtained
var ways = []string{"constant", "Lesser()/Greater() of Lesser", "Lesser()/Greater() of Greater", "CreateByBool of Lesser", "CreateByBool of Greater", "CreateByName of Lesser", "CreateByName of Greater", "package function", "zero value / empty name", "name from String", "empty name on Greater"}

func ints(w int, g bool) stl.CmpInt {
	b := stl.CmpIntLesser
	if w == 2 || w == 4 || w == 6 || w == 10 {
		b = stl.CmpIntGreater
	}
	name := "Lesser"
	if g {
		name = "Greater"
	}
	switch w {
	case 0:
		if g {
			return stl.CmpIntGreater
		}
		return stl.CmpIntLesser
	case 1, 2:
		if g {
			return b.Greater()
		}
		return b.Lesser()
	case 3, 4:
		return b.CreateByBool(g)
	case 5, 6:
		return b.CreateByName(name)
	case 7:
		return stl.CreateCmpInt(name)
	case 8:
		if g {
			return stl.CMPGreater
		}
		return stl.CreateCmpInt("")
	case 9:
		return b.CreateByName(ints(0, g).String())
	}
	if g {
		return b
	}
	return b.CreateByName("")
}

func nodes(w int, g bool) stl.CmpIntTreeNode {
	b := stl.CmpIntTreeNodeLesser
	if w == 2 || w == 4 || w == 6 || w == 10 {
		b = stl.CmpIntTreeNodeGreater
	}
	name := "Lesser"
	if g {
		name = "Greater"
	}
	switch w {
	case 0:
		if g {
			return stl.CmpIntTreeNodeGreater
		}
		return stl.CmpIntTreeNodeLesser
	case 1, 2:
		if g {
			return b.Greater()
		}
		return b.Lesser()
	case 3, 4:
		return b.CreateByBool(g)
	case 5, 6:
		return b.CreateByName(name)
	case 7:
		return stl.CreateCmpIntTreeNode(name)
	case 8:
		if g {
			return stl.CMPGreater
		}
		return stl.CreateCmpIntTreeNode("")
	case 9:
		return b.CreateByName(nodes(0, g).String())
	}
	if g {
		return b
	}
	return b.CreateByName("")
}

func main() {
	mc.Main("C12", func(r *mc.Run) {
		vals := values()
		if r.Thorough() {
			for i := -1200; i <= 1200; i++ {
				if i < -66 || i > 66 {
					vals = append(vals, i)
				}
			}
		}
		ns := make([]*stl.IntTreeNode, len(vals))
		for i, v := range vals {
			ns[i] = mk(v)
			if i%3 == 0 { // children do not matter for the order
				ns[i].AddChild(-v, -1)
			}
		}
		same := mk(0)
		bounds := fmt.Sprintf("all pairs of %d values (-66..66, every +-2^k+-1, extremes) for every way of obtaining the comparator", len(vals))
		r.Enumerate(mc.Enum{Name: "pairs", Bounds: bounds,
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(ways), 2, len(vals)) },
			Show: func(c mc.Case) string {
				return fmt.Sprintf("%s greater=%v left=%d", ways[c[0]], c[1] == 1, vals[c[2]])
			},
			Run: func(c mc.Case, t *mc.T) error {
				g := c[1] == 1
				ci, cn := ints(c[0], g), nodes(c[0], g)
				a := vals[c[2]]
				for j, b := range vals {
					want := a < b
					if g {
						want = a > b
					}
					if ci.F(a, b) != want {
						return fmt.Errorf("int F(%d,%d)=%v (greater=%v)", a, b, !want, g)
					}
					if cn.F(ns[c[2]], ns[j]) != want {
						return fmt.Errorf("node F(%d,%d)=%v (greater=%v)", a, b, !want, g)
					}
					if (a < b) != ns[c[2]].Less(ns[j]) {
						return fmt.Errorf("node Less(%d,%d)=%v", a, b, a >= b)
					}
					t.Steps += 3
				}
				if a == 0 && cn.F(ns[c[2]], same) {
					return fmt.Errorf("equal nodes ordered")
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "names", Bounds: "String of every comparator however obtained; recreated by its name",
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(ways), 2) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%s greater=%v", ways[c[0]], c[1] == 1) },
			Run: func(c mc.Case, t *mc.T) error {
				g := c[1] == 1
				want := "Lesser"
				if g {
					want = "Greater"
				}
				t.Steps += 4
				if s := ints(c[0], g).String(); s != want {
					return fmt.Errorf("String()=%q, want %q", s, want)
				}
				if s := nodes(c[0], g).String(); s != want {
					return fmt.Errorf("node String()=%q, want %q", s, want)
				}
				if ints(c[0], g) != ints(0, g) || nodes(c[0], g) != nodes(0, g) {
					return fmt.Errorf("not the same comparator")
				}
				return nil
			}})
		alpha := []string{"L", "l", "e", "s", "r", "G", " ", "\x00"}
		var bad []string
		for _, w := range []string{"Lesser", "Greater"} {
			for i := 1; i < len(w); i++ { // prefixes
				bad = append(bad, w[:i], w[i:])
			}
			for i := 0; i <= len(w); i++ {
				for b := 0; b < 256; b++ {
					bad = append(bad, w[:i]+string([]byte{byte(b)})+w[i:])
					if i < len(w) && byte(b) != w[i] {
						bad = append(bad, w[:i]+string([]byte{byte(b)})+w[i+1:])
					}
				}
			}
			bad = append(bad, w+w, "cmp"+w)
		}
		for b := 0; b < 256; b++ {
			bad = append(bad, string([]byte{byte(b)}))
		}
		bad = append(bad, "lesser", "greater", "LESSER", "GREATER", "Less", "Great", "error cmp value", "LesserGreater", "Equal", "0", "1", "true", "false", "<", ">")
		r.Enumerate(mc.Enum{Name: "bad names", Bounds: "every word over {L,l,e,s,r,G,space,NUL} up to length 4/6, every single-byte insertion/replacement and every proper prefix/suffix of the valid names, every one-byte name: all must panic",
			Gen: func(emit func(mc.Case)) {
				for i := range bad {
					emit(mc.Case{-1, i})
				}
				mc.Strings(len(alpha), 1, r.Pick(4, 6), emit)
			},
			Show: func(c mc.Case) string { return fmt.Sprintf("%q", name(c, bad, alpha)) },
			Run: func(c mc.Case, t *mc.T) error {
				s := name(c, bad, alpha)
				if s == "Lesser" || s == "Greater" || s == "" {
					return nil
				}
				t.Steps += 4
				for i, f := range []func(){func() { stl.CreateCmpInt(s) }, func() { stl.CmpIntGreater.CreateByName(s) }, func() { stl.CreateCmpIntTreeNode(s) }, func() { stl.CmpIntTreeNodeGreater.CreateByName(s) }} {
					if !mc.Panics(f) {
						return fmt.Errorf("name %q accepted (constructor %d)", s, i)
					}
				}
				return nil
			}})
	})
}

func name(c mc.Case, bad, alpha []string) string {
	if len(c) > 0 && c[0] < 0 {
		return bad[c[1]]
	}
	s := ""
	for _, i := range c {
		s += alpha[i]
	}
	return s
}
