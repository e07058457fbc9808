// Package lin is the reference model of linear containers (queue, deque, stack).
package lin

import (
	"fmt"

	"gxv/mc"
)

// Impl gives access to a real container; nil functions do not exist.
type Impl struct {
	Obj          interface{}
	PushF, PushB func(int) bool
	PopF, PopB   func() (int, bool)
	Front, Back  func() (int, bool)
	Size         func() int
	Empty        func() bool
	Cap          func() int
	Shrink       func() bool
	Clear        func()
	Init         func(int)
}

// L is a container with its model.
type L struct {
	Make  func(cfg int) *Impl // builds configuration cfg
	NCfg  []int               // configurations to start from
	Max   int                 // size bound
	Alpha []int               // nil: every element is unique
	Inits []int               // arguments for re-Init
	im    *Impl
	m     []int
	n     int
}

func (l *L) Ops() []mc.Op {
	if l.im == nil {
		var r []mc.Op
		for _, c := range l.NCfg {
			r = append(r, mc.O("New", c))
		}
		return r
	}
	var r []mc.Op
	push := func(n string) {
		if len(l.m) >= l.Max {
			return
		}
		if l.Alpha == nil {
			r = append(r, mc.O(n))
		} else {
			for i := range l.Alpha {
				r = append(r, mc.O(n, i))
			}
		}
	}
	if l.im.PushB != nil {
		push("PushB")
	}
	if l.im.PushF != nil {
		push("PushF")
	}
	if l.im.PopF != nil {
		r = append(r, mc.O("PopF"))
	}
	if l.im.PopB != nil {
		r = append(r, mc.O("PopB"))
	}
	if l.im.Shrink != nil {
		r = append(r, mc.O("Shrink"))
	}
	if l.im.Clear != nil {
		r = append(r, mc.O("Clear"))
	}
	for _, i := range l.Inits {
		r = append(r, mc.O("Init", i))
	}
	return r
}

func (l *L) Do(o mc.Op) error {
	val := func() int {
		if l.Alpha != nil {
			return l.Alpha[o.A[0]]
		}
		l.n++
		return int(mc.ElemBase) + l.n
	}
	switch o.N {
	case "New":
		l.im = l.Make(o.A[0])
	case "PushB":
		v := val()
		if !l.im.PushB(v) {
			return fmt.Errorf("push reported failure")
		}
		l.m = append(l.m[:len(l.m):len(l.m)], v)
	case "PushF":
		v := val()
		if !l.im.PushF(v) {
			return fmt.Errorf("push reported failure")
		}
		l.m = append([]int{v}, l.m...)
	case "PopF":
		v, ok := l.im.PopF()
		if ok != (len(l.m) > 0) {
			return fmt.Errorf("ok=%v with %d elements", ok, len(l.m))
		}
		if ok {
			if v != l.m[0] {
				return fmt.Errorf("got element %s, want %s", l.name(v), l.name(l.m[0]))
			}
			l.m = l.m[1:]
		}
	case "PopB":
		v, ok := l.im.PopB()
		if ok != (len(l.m) > 0) {
			return fmt.Errorf("ok=%v with %d elements", ok, len(l.m))
		}
		if ok {
			w := l.m[len(l.m)-1]
			if v != w {
				return fmt.Errorf("got element %s, want %s", l.name(v), l.name(w))
			}
			l.m = l.m[:len(l.m)-1]
		}
	case "Shrink":
		c := l.im.Cap()
		ok := l.im.Shrink()
		if c2 := l.im.Cap(); ok != (c2 < c) {
			return fmt.Errorf("Shrink reported %v but Cap went from %d to %d", ok, c, c2)
		}
	case "Clear":
		l.im.Clear()
		l.m = nil
	case "Init":
		l.im.Init(o.A[0])
		l.m = nil
	default:
		return fmt.Errorf("unknown op")
	}
	return nil
}

func (l *L) name(v int) string {
	if v >= int(mc.ElemBase) && l.Alpha == nil {
		return fmt.Sprintf("#%d", v-int(mc.ElemBase))
	}
	return fmt.Sprint(v)
}

func (l *L) Check() error {
	if l.im == nil {
		return nil
	}
	n := len(l.m)
	if s := l.im.Size(); s != n {
		return fmt.Errorf("Size()=%d, want %d", s, n)
	}
	if e := l.im.Empty(); e != (n == 0) {
		return fmt.Errorf("Empty()=%v with %d elements", e, n)
	}
	if l.im.Cap != nil && l.im.Cap() < n {
		return fmt.Errorf("Cap()=%d with %d elements", l.im.Cap(), n)
	}
	if l.im.Front != nil {
		v, ok := l.im.Front()
		if ok != (n > 0) || ok && v != l.m[0] {
			return fmt.Errorf("Front()=%s,%v with %d elements", l.name(v), ok, n)
		}
	}
	if l.im.Back != nil {
		v, ok := l.im.Back()
		if ok != (n > 0) || ok && v != l.m[n-1] {
			return fmt.Errorf("Back()/Top()=%s,%v with %d elements", l.name(v), ok, n)
		}
	}
	return nil
}

// Drain pops everything and checks that the container then is usable and empty.
func (l *L) Drain() error {
	if l.im == nil {
		return nil
	}
	pop, name := l.im.PopF, "PopF"
	if pop == nil {
		pop, name = l.im.PopB, "PopB"
	}
	for i := 0; ; i++ {
		empty := len(l.m) == 0
		if err := l.Do(mc.O(name)); err != nil {
			return fmt.Errorf("%s number %d: %v", name, i+1, err)
		}
		if empty {
			break
		}
		if err := l.Check(); err != nil {
			return fmt.Errorf("after %s number %d: %v", name, i+1, err)
		}
	}
	return l.Check()
}

func (l *L) Key(d *mc.Dump) {
	if l.im == nil {
		d.Int(-1)
		return
	}
	if l.Alpha == nil {
		pos := map[int64]int64{}
		for i, v := range l.m {
			pos[int64(v)] = int64(i)
		}
		d.Ren = func(v int64) int64 {
			if i, ok := pos[v]; ok {
				return mc.ElemBase + i
			}
			return 0 // dead slot
		}
	}
	d.Val(l.im.Obj)
	for _, v := range l.m {
		if l.Alpha == nil {
			break
		}
		d.Int(int64(v))
	}
	d.Int(int64(len(l.m)))
}

// Phases enumerates long phase-structured histories
// (push a, pop b, push c, [shrink], pop all) far beyond the BFS bound.
func Phases(name string, mk func() *L, cfgs, sizes []int) mc.Enum {
	ends := func(f, b bool) int {
		n := 0
		if f {
			n++
		}
		if b {
			n++
		}
		return n
	}
	p := mk().Make(cfgs[0])
	np, nq := ends(p.PushB != nil, p.PushF != nil), ends(p.PopF != nil, p.PopB != nil)
	return mc.Enum{Name: name,
		Bounds: fmt.Sprintf("push a, pop b<=a, push c, optional shrink, push d, drain; a,c in %v, constructions %v, every end", sizes, cfgs),
		Gen: func(emit func(mc.Case)) {
			for _, cfg := range cfgs {
				for _, a := range sizes {
					for _, b := range append(append([]int(nil), sizes...), a-1) {
						if b > a || b < 0 {
							continue
						}
						for _, c := range sizes {
							mc.Product(func(x mc.Case) {
								emit(mc.Case{cfg, a, b, c, x[0], x[1], x[2], x[3]})
							}, np, nq, np, 2)
						}
					}
				}
			}
		},
		Run: func(c mc.Case, t *mc.T) error {
			l := mk()
			if err := l.Do(mc.O("New", c[0])); err != nil {
				return err
			}
			push := func(end int) string {
				if l.im.PushB != nil && (end == 0 || l.im.PushF == nil) {
					return "PushB"
				}
				return "PushF"
			}
			pop := func(end int) string {
				if l.im.PopF != nil && (end == 0 || l.im.PopB == nil) {
					return "PopF"
				}
				return "PopB"
			}
			rep := func(op string, n int) error {
				for i := 0; i < n; i++ {
					t.Steps++
					if err := l.Do(mc.O(op)); err != nil {
						return fmt.Errorf("%s %d of %d: %v", op, i+1, n, err)
					}
				}
				return l.Check()
			}
			if err := rep(push(c[4]), c[1]); err != nil {
				return err
			}
			if err := rep(pop(c[5]), c[2]); err != nil {
				return err
			}
			if c[7] == 1 && l.im.Shrink != nil {
				if err := rep("Shrink", 2); err != nil {
					return err
				}
			}
			if err := rep(push(c[6]), c[3]); err != nil {
				return err
			}
			t.Steps += int64(len(l.m))
			return l.Drain()
		},
		Show: func(c mc.Case) string {
			return fmt.Sprintf("New(%d) push %d (end %d) pop %d (end %d) shrink=%d push %d (end %d) drain", c[0], c[1], c[4], c[2], c[5], c[7], c[3], c[6])
		}}
}
