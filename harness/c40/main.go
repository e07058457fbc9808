// C40: the lock-free queue template (a stack of PushFront and PopFront) under every
// interleaving.
package main

import (
	"fmt"
	"time"

	"gxs/lfq"
	"gxs/lfqgo"
	"gxv/mc"
	"gxv/sched"
)

type queue interface {
	PushFront(v int) bool
	PopFront() (int, bool)
	Clear()
	Size() int
	Empty() bool
}

func mk(src int) queue {
	if src == 0 {
		return &lfq.IntLFQueue{}
	}
	return &lfqgo.IntLFQueue{}
}

const (
	push = iota
	pop
	empty
	clear
	size
)

var names = []string{"PushFront", "PopFront", "Empty", "Clear", "Size"}

// ev is one operation of a history.
type ev struct {
	op, arg, val int
	ok           bool
	from, to     int
}

func (e ev) String() string {
	return fmt.Sprintf("%s(%d)=%d,%v@%d-%d", names[e.op], e.arg, e.val, e.ok, e.from, e.to)
}

// explains tells whether the history can be put in an order that respects its real-time
// order and is one of a stack starting with st (bottom first).
func explains(h []*ev, done uint, st []int) bool {
	if done == 1<<uint(len(h))-1 {
		return true
	}
	min := int(^uint(0) >> 1)
	for i, e := range h {
		if done>>uint(i)&1 == 0 && e.to < min {
			min = e.to
		}
	}
	for i, e := range h {
		if done>>uint(i)&1 == 1 || e.from > min {
			continue
		}
		n := len(st)
		d := done | 1<<uint(i)
		switch e.op {
		case push:
			if explains(h, d, append(st[:n:n], e.arg)) {
				return true
			}
		case pop:
			if e.ok && n > 0 && st[n-1] == e.val && explains(h, d, st[:n-1]) || !e.ok && n == 0 && explains(h, d, st) {
				return true
			}
		case empty:
			if e.ok == (n == 0) && explains(h, d, st) {
				return true
			}
		}
	}
	return false
}

// a case: source, bound, initial elements, threads, then per thread: count, operations
func explore(c []int, deadline time.Time) *sched.Result {
	src, bound, init, n := c[0], c[1], c[2], c[3]
	th := progs(c)
	clears := false
	for _, t := range th {
		for _, o := range t {
			clears = clears || o == clear
		}
	}
	return sched.Explore(&sched.Prog{Threads: n, New: func() (func(int), func() error) {
		q := mk(src)
		var st []int
		for i := 1; i <= init; i++ {
			q.PushFront(i)
			st = append(st, i)
		}
		tick := 0
		var h []*ev
		return func(t int) {
				for i, o := range th[t] {
					sched.OpBegin()
					tick++
					e := &ev{op: o, arg: 100*(t+1) + i, from: tick}
					switch o {
					case push:
						if e.ok = q.PushFront(e.arg); !e.ok {
							sched.Fail("PushFront reports failure")
						}
					case pop:
						e.val, e.ok = q.PopFront()
					case empty:
						e.ok = q.Empty()
					case clear:
						q.Clear()
					case size:
						q.Size()
					}
					tick++
					e.to = tick
					h = append(h, e)
				}
			}, func() error {
				size0 := q.Size()
				var rest []int
				for len(rest) <= init+16 {
					tick++
					v, ok := q.PopFront()
					h = append(h, &ev{op: pop, val: v, ok: ok, from: tick, to: tick})
					if !ok {
						break
					}
					rest = append(rest, v)
					if q.Size() != size0-len(rest) || q.Empty() != (q.Size() == 0) {
						return fmt.Errorf("at rest, after %d of %d: Size()=%d Empty()=%v; %v", len(rest), size0, q.Size(), q.Empty(), h)
					}
				}
				if size0 != len(rest) {
					return fmt.Errorf("at rest Size()=%d but %d values can be popped: %v", size0, len(rest), h)
				}
				if !clears {
					var k []*ev
					for _, e := range h {
						if e.op != size {
							k = append(k, e)
						}
					}
					if !explains(k, 0, st) {
						return fmt.Errorf("no order of the operations is one of a stack that held %v: %v", st, h)
					}
					return nil
				}
				// with Clear: nothing twice, nothing invented, nothing survives a later Clear
				at := map[int]int{} // value -> end of its push
				for _, v := range st {
					at[v] = 0
				}
				for _, e := range h {
					if e.op == push {
						at[e.arg] = e.to
					}
				}
				seen := map[int]bool{}
				for _, e := range h {
					if e.op == pop && e.ok {
						p, known := at[e.val]
						if !known || seen[e.val] {
							return fmt.Errorf("value %d popped twice or never pushed: %v", e.val, h)
						}
						seen[e.val] = true
						for _, k := range h {
							if k.op == clear && p < k.from && k.to < e.from {
								return fmt.Errorf("value %d survived a Clear: %v", e.val, h)
							}
						}
					}
				}
				return nil
			}
	}}, bound, deadline)
}

func progs(c []int) (th [][]int) {
	for p := c[4:]; len(p) > 0; p = p[1+p[0]:] {
		th = append(th, p[1:1+p[0]])
	}
	return
}

// words are the programs of one thread.
func words(alpha []int, lo, hi int) (r [][]int) {
	mc.Strings(len(alpha), lo, hi, func(c mc.Case) {
		w := make([]int, len(c))
		for i, x := range c {
			w[i] = alpha[x]
		}
		r = append(r, w)
	})
	return
}


func gen(emit func(mc.Case), src, bound int, inits []int, threads int, ws [][]int) {
	var rec func(from int, c mc.Case, n int)
	rec = func(from int, c mc.Case, n int) {
		if n == 0 {
			emit(append(mc.Case(nil), c...))
			return
		}
		for i := from; i < len(ws); i++ {
			rec(i, append(append(c[:len(c):len(c)], len(ws[i])), ws[i]...), n-1)
		}
	}
	for _, in := range inits {
		rec(0, mc.Case{src, bound, in, threads}, threads)
	}
}

func main() {
	sched.Serve(explore)
	mc.Main("C40", func(r *mc.Run) {
		show := func(c mc.Case) string {
			s := fmt.Sprintf("%d elements, preemptions<=%d:", c[2], c[1])
			for _, t := range progs(c) {
				s += " ["
				for _, o := range t {
					s += names[o] + " "
				}
				s += "]"
			}
			return s
		}
		srcs := []int{0, 1}
		r.Enumerate(mc.Enum{Name: "sequential", Bounds: "every history of up to 11 (thorough 13) PushFront/PopFront/Clear",
			Gen: func(emit func(mc.Case)) {
				for _, s := range srcs {
					mc.Strings(3, 0, r.Pick(11, 13), func(c mc.Case) { emit(append(mc.Case{s}, c...)) })
				}
			},
			Show: func(c mc.Case) string { return fmt.Sprint("0 PushFront, 1 PopFront, 2 Clear: ", c[1:]) },
			Run: func(c mc.Case, t *mc.T) error {
				q := mk(c[0])
				var st []int
				for i, o := range c[1:] {
					n := len(st)
					switch o {
					case 0:
						if !q.PushFront(i + 1) {
							return fmt.Errorf("PushFront failed")
						}
						st = append(st, i+1)
					case 1:
						v, ok := q.PopFront()
						if ok != (n > 0) || ok && v != st[n-1] || !ok && v != 0 {
							return fmt.Errorf("step %d: PopFront=%d,%v of %v", i, v, ok, st)
						}
						if ok {
							st = st[:n-1]
						}
					case 2:
						q.Clear()
						st = nil
					}
					if q.Size() != len(st) || q.Empty() != (len(st) == 0) {
						return fmt.Errorf("step %d: Size()=%d Empty()=%v, want %v", i, q.Size(), q.Empty(), st)
					}
					t.Steps += 3
				}
				for n := len(st); n >= 0; n-- {
					v, ok := q.PopFront()
					if ok != (n > 0) || ok && v != st[n-1] {
						return fmt.Errorf("drain: PopFront=%d,%v of %v", v, ok, st[:n])
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "long", Bounds: "n elements for every n up to 100 and 26 more up to 100000: pushed, half popped, as many pushed again, drained (or cleared and used again)", Small: true,
			Gen: func(emit func(mc.Case)) {
				ns := append(append([]int{}, mc.Large...), mc.Huge...)
				for n := 0; n <= 100; n++ {
					ns = append(ns, n)
				}
				for _, n := range ns {
					for _, s := range srcs {
						emit(mc.Case{s, n, 0})
						emit(mc.Case{s, n, 1})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				q, n := mk(c[0]), c[1]
				var st []int
				next := 0
				push := func(k int) {
					for ; k > 0; k-- {
						next++
						q.PushFront(next)
						st = append(st, next)
					}
				}
				pop := func(k int) error {
					for ; k > 0; k-- {
						v, ok := q.PopFront()
						t.Steps++
						if l := len(st); ok != (l > 0) || ok && v != st[l-1] || !ok && v != 0 {
							return fmt.Errorf("PopFront=%d,%v of %d elements", v, ok, l)
						} else if ok {
							st = st[:l-1]
						}
						if q.Size() != len(st) || q.Empty() != (len(st) == 0) {
							return fmt.Errorf("Size()=%d Empty()=%v with %d elements", q.Size(), q.Empty(), len(st))
						}
					}
					return nil
				}
				push(n)
				if q.Size() != n {
					return fmt.Errorf("Size()=%d after %d pushes", q.Size(), n)
				}
				if err := pop(n / 2); err != nil {
					return err
				}
				push(n/2 + 3)
				if c[2] == 1 {
					q.Clear()
					st = nil
					push(n/3 + 2)
				}
				return pop(len(st) + 2)
			}})
		for _, src := range srcs {
			src := src
			tag := []string{"", " (fake go file)"}[src]
			sched.Part(r, "two threads"+tag, "every pair of programs of up to 3 PushFront/PopFront/Empty, 0..2 elements before; preemption bound 3 (thorough 5; fake go file one less)", func(emit func(mc.Case)) {
				gen(emit, src, r.Pick(3, 5)-src, []int{0, 1, 2}, 2, words([]int{push, pop, empty}, 1, 3))
			}, show)
			sched.Part(r, "three threads"+tag, "every three programs of up to 2 PushFront/PopFront, 0..2 elements before; preemption bound 2 (thorough 4; fake go file one less)", func(emit func(mc.Case)) {
				gen(emit, src, r.Pick(2, 4)-src, []int{0, 1, 2}, 3, words([]int{push, pop}, 1, 2))
			}, show)
			sched.Part(r, "clear"+tag, "every pair of programs of up to 3 PushFront/PopFront/Clear/Size, 0 or 2 elements before; preemption bound 3 (thorough 5)", func(emit func(mc.Case)) {
				gen(emit, src, r.Pick(3, 5), []int{0, 2}, 2, words([]int{push, pop, clear, size}, 1, r.Pick(2, 3)))
			}, show)
		}
		r.Assume = append(r.Assume, "sequentially consistent atomics (the Go memory model) and garbage collected nodes")
	})
}
