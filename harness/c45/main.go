// C45: the ring buffer template: a bounded queue for any number of threads.
package main

import (
	"fmt"
	"time"

	ring "gxs/ringgo"
	"gxv/mc"
	"gxv/sched"
)

const (
	push = iota
	pop
	mpush
	mpop
)

var names = []string{"Push", "Pop", "MustPush", "MustPop"}

func mk(n int) *ring.IntRingBuffer {
	q := &ring.IntRingBuffer{}
	q.Init(n)
	return q
}

// room of a ring made with n.
func room(n int) int {
	c := 8
	for c < n {
		c *= 2
	}
	return c
}

func do(q *ring.IntRingBuffer, o, arg int) (int, bool) {
	switch o {
	case push:
		return 0, q.Push(arg)
	case mpush:
		return 0, q.MustPush(arg)
	case pop:
		return q.Pop()
	}
	return q.MustPop()
}

type ev struct {
	op, arg, val int
	ok           bool
	from, to     int
}

func (e *ev) isPush() bool { return e.op == push || e.op == mpush }
func (e *ev) String() string {
	if e.isPush() {
		return fmt.Sprintf("%s(%d)=%v[%d,%d]", names[e.op], e.arg, e.ok, e.from, e.to)
	}
	return fmt.Sprintf("%s=%d,%v[%d,%d]", names[e.op], e.val, e.ok, e.from, e.to)
}

// explains: some order of the successful calls is one of a queue of limited room.
func explains(h []*ev, done uint, st []int, max int) bool {
	if done == 1<<uint(len(h))-1 {
		return true
	}
	min := 1 << 30
	for i, e := range h {
		if done>>uint(i)&1 == 0 && e.to < min {
			min = e.to
		}
	}
	for i, e := range h {
		if done>>uint(i)&1 == 1 || e.from > min {
			continue
		}
		d := done | 1<<uint(i)
		if e.isPush() {
			if len(st) < max && explains(h, d, append(st[:len(st):len(st)], e.arg), max) {
				return true
			}
		} else if len(st) > 0 && st[0] == e.val && explains(h, d, st[1:], max) {
			return true
		}
	}
	return false
}

// excused: a failed call found the ring full or empty, counting the calls in progress.
func excused(h []*ev, f *ev, init, max int) bool {
	for s := f.from; s < f.to; s++ {
		n := init
		for _, e := range h {
			if e == f || !e.ok {
				continue
			}
			switch {
			case f.isPush() && e.isPush() && e.from <= s, !f.isPush() && e.isPush() && e.to <= s:
				n++
			case f.isPush() && !e.isPush() && e.to <= s, !f.isPush() && !e.isPush() && e.from <= s:
				n--
			}
		}
		if f.isPush() && n >= max || !f.isPush() && n <= 0 {
			return true
		}
	}
	return false
}

// a case: bound, offset, elements before, then per thread: count, operations
func explore(c []int, deadline time.Time) *sched.Result {
	bound, off, init := c[0], c[1], c[2]
	th := progs(c)
	max := room(0)
	return sched.Explore(&sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		q := mk(0)
		for i := 0; i < off; i++ {
			q.MustPush(-1)
			q.MustPop()
		}
		var st []int
		for i := 1; i <= init; i++ {
			q.MustPush(i)
			st = append(st, i)
		}
		tick := 0
		var h []*ev
		return func(t int) {
				for i, o := range th[t] {
					sched.OpBegin()
					tick++
					e := &ev{op: o, arg: 100*(t+1) + i, from: tick}
					e.val, e.ok = do(q, o, e.arg)
					if !e.ok && (o == mpush || o == mpop) {
						sched.Fail("%s reports failure", names[o])
					}
					tick++
					e.to = tick
					h = append(h, e)
				}
			}, func() error {
				n := init
				for _, e := range h {
					if e.ok {
						if e.isPush() {
							n++
						} else {
							n--
						}
					}
				}
				for ; ; n-- {
					if q.Size() != n || q.Empty() != (n == 0) || int(q.Cap()) != max {
						return fmt.Errorf("at rest Size()=%d Empty()=%v Cap()=%d, want %d %v %d: %v", q.Size(), q.Empty(), q.Cap(), n, n == 0, max, h)
					}
					tick++
					v, ok := q.Pop()
					if ok != (n > 0) {
						return fmt.Errorf("at rest with %d elements: Pop=%d,%v: %v", n, v, ok, h)
					}
					if !ok {
						break
					}
					h = append(h, &ev{op: pop, val: v, ok: true, from: tick, to: tick})
				}
				var k []*ev
				for _, e := range h {
					if e.ok {
						k = append(k, e)
					} else if !excused(h, e, init, max) {
						return fmt.Errorf("%s failed without reason (%d elements of %d before): %v", e, init, max, h)
					}
				}
				if !explains(k, 0, st, max) {
					return fmt.Errorf("no order of the operations is one of a queue that held %v: %v", st, h)
				}
				// and it still works as a full turn of a queue
				for i := 0; i < max; i++ {
					if !q.Push(1000 + i) {
						return fmt.Errorf("afterwards Push %d of %d fails: %v", i, max, h)
					}
				}
				if q.Push(0) {
					return fmt.Errorf("afterwards Push to a full ring succeeds: %v", h)
				}
				for i := 0; i < max; i++ {
					if v, ok := q.Pop(); !ok || v != 1000+i {
						return fmt.Errorf("afterwards Pop %d gives %d %v: %v", i, v, ok, h)
					}
				}
				return nil
			}
	}}, bound, deadline)
}

func progs(c []int) (th [][]int) {
	for p := c[3:]; len(p) > 0; p = p[1+p[0]:] {
		th = append(th, p[1:1+p[0]])
	}
	return
}

func words(alpha []int, lo, hi int) (r [][]int) {
	mc.Strings(len(alpha), lo, hi, func(c mc.Case) {
		w := make([]int, len(c))
		for i, x := range c {
			w[i] = alpha[x]
		}
		r = append(r, w)
	})
	return
}

// ends: no schedule of the programs can leave a Must call waiting for ever.
func ends(init int, th [][]int) bool {
	pure := true
	var k [4]int
	for _, t := range th {
		for _, o := range t {
			k[o]++
			pure = pure && o&1 == t[0]&1
		}
	}
	if pure {
		return (k[mpop] == 0 || init+k[mpush] >= k[pop]+k[mpop]) && (k[mpush] == 0 || init+k[push]+k[mpush]-k[mpop] <= room(0))
	}
	return (k[mpop] == 0 || init >= k[pop]+k[mpop]) && (k[mpush] == 0 || init+k[push]+k[mpush] <= room(0))
}

func gen(emit func(mc.Case), bound int, inits []int, threads int, ws [][]int) {
	var rec func(from int, c mc.Case, n int)
	rec = func(from int, c mc.Case, n int) {
		if n == 0 {
			if ends(c[2], progs(c)) {
				emit(append(mc.Case(nil), c...))
			}
			return
		}
		for i := from; i < len(ws); i++ {
			rec(i, append(append(c[:len(c):len(c)], len(ws[i])), ws[i]...), n-1)
		}
	}
	for _, in := range inits {
		for _, off := range []int{0, 7} {
			rec(0, mc.Case{bound, off, in}, threads)
		}
	}
}

// seq runs a history in one thread.
type seq struct {
	q   *ring.IntRingBuffer
	st  []int
	n   int
	max int
	t   *mc.T
}

func (s *seq) do(o int) error {
	n := len(s.st)
	if o == mpush && n == s.max || o == mpop && n == 0 {
		return nil // would wait
	}
	s.n++
	v, ok := do(s.q, o, s.n)
	s.t.Steps++
	if o == push || o == mpush {
		if ok != (n < s.max) {
			return fmt.Errorf("call %d: %s=%v with %d of %d elements", s.n, names[o], ok, n, s.max)
		}
		if ok {
			s.st = append(s.st, s.n)
		}
	} else {
		if ok != (n > 0) || ok && v != s.st[0] {
			return fmt.Errorf("call %d: %s=%d,%v of %v", s.n, names[o], v, ok, s.st)
		}
		if ok {
			s.st = s.st[1:]
		}
	}
	if n = len(s.st); s.q.Size() != n || s.q.Empty() != (n == 0) || int(s.q.Cap()) != s.max {
		return fmt.Errorf("call %d: Size()=%d Empty()=%v Cap()=%d, want %d of %d", s.n, s.q.Size(), s.q.Empty(), s.q.Cap(), n, s.max)
	}
	return nil
}

func main() {
	sched.Serve(explore)
	mc.Main("C45", func(r *mc.Run) {
		r.Enumerate(mc.Enum{Name: "words", Bounds: "every history of up to 8 (thorough 10) Push/Pop/MustPush/MustPop of one thread, from 0, 1, 4, 7, 8 elements",
			Gen: func(emit func(mc.Case)) {
				for _, in := range []int{0, 1, 4, 7, 8} {
					mc.Strings(4, 0, r.Pick(8, 10), func(c mc.Case) { emit(append(mc.Case{in}, c...)) })
				}
			},
			Show: func(c mc.Case) string {
				s := fmt.Sprintf("%d elements:", c[0])
				for _, o := range c[1:] {
					s += " " + names[o]
				}
				return s
			},
			Run: func(c mc.Case, t *mc.T) error {
				s := &seq{q: mk(0), max: room(0), t: t}
				for i := 0; i < c[0]; i++ {
					if err := s.do(push); err != nil {
						return err
					}
				}
				for _, o := range c[1:] {
					if err := s.do(o); err != nil {
						return err
					}
				}
				for len(s.st) > 0 {
					if err := s.do(pop); err != nil {
						return err
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "phases", Bounds: "push a, pop b, push c, pop d, all 0..room+2, both kinds of calls, sizes -1..9 (thorough to 17)",
			Gen: func(emit func(mc.Case)) {
				for _, n := range []int{-1, 0, 1, 8, 9, 17}[:r.Pick(5, 6)] {
					m := room(n) + 2
					for a := 0; a <= m; a++ {
						for b := 0; b <= m; b++ {
							for c := 0; c <= m; c++ {
								for d := 0; d <= m; d++ {
									emit(mc.Case{n, a, b, c, d})
								}
							}
						}
					}
				}
			},
			Show: func(c mc.Case) string {
				return fmt.Sprintf("Init(%d), push %d, pop %d, push %d, pop %d", c[0], c[1], c[2], c[3], c[4])
			},
			Run: func(c mc.Case, t *mc.T) error {
				for must := 0; must <= 2; must += 2 {
					s := &seq{q: mk(c[0]), max: room(c[0]), t: t}
					for i, n := range c[1:] {
						for ; n > 0; n-- {
							if err := s.do(i&1 + must); err != nil {
								return err
							}
						}
					}
					for len(s.st) > 0 {
						if err := s.do(pop); err != nil {
							return err
						}
					}
					if err := s.do(pop); err != nil {
						return err
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "sizes", Bounds: "Init of every size -3..1100 and 2^k, 2^k+-1 to 2^20: filled, overfilled and drained",
			Gen: func(emit func(mc.Case)) {
				for n := -3; n <= 1100; n++ {
					emit(mc.Case{n})
				}
				for k := 11; k <= 20; k++ {
					for d := -1; d <= 1; d++ {
						emit(mc.Case{1<<k + d})
					}
				}
			},
			Show: func(c mc.Case) string { return fmt.Sprintf("Init(%d)", c[0]) },
			Run: func(c mc.Case, t *mc.T) error {
				s := &seq{q: mk(c[0]), max: room(c[0]), t: t}
				for turn := 0; turn < 2; turn++ {
					for i := 0; i <= s.max; i++ {
						if err := s.do(push); err != nil {
							return err
						}
					}
					for i := 0; i <= s.max; i++ {
						if err := s.do(pop); err != nil {
							return err
						}
					}
				}
				return nil
			}})
		show := func(c mc.Case) string {
			s := fmt.Sprintf("offset %d, %d elements, preemptions<=%d:", c[1], c[2], c[0])
			for _, t := range progs(c) {
				s += " ["
				for _, o := range t {
					s += names[o] + " "
				}
				s += "]"
			}
			return s
		}
		all := []int{push, pop, mpush, mpop}
		sched.Part(r, "two threads", "every pair of programs of up to 2 calls that must end, 0, 1, 2, 6, 7, 8 elements before at offsets 0 and 7; preemption bound 3 (thorough 5)", func(emit func(mc.Case)) {
			gen(emit, r.Pick(3, 5), []int{0, 1, 2, 6, 7, 8}, 2, words(all, 1, 2))
		}, show)
		sched.Part(r, "two threads, longer", "every pair of programs of 3 Push/Pop, 0, 1, 7, 8 elements before; preemption bound 2 (thorough 4)", func(emit func(mc.Case)) {
			gen(emit, r.Pick(2, 4), []int{0, 1, 7, 8}, 2, words([]int{push, pop}, 3, 3))
		}, show)
		sched.Part(r, "three threads", "every three programs of one call (thorough up to 2), 0, 1, 2, 6, 7, 8 elements before; preemption bound 3", func(emit func(mc.Case)) {
			gen(emit, 3, []int{0, 1, 2, 6, 7, 8}, 3, words(all, 1, r.Pick(1, 2)))
		}, show)
		sched.Part(r, "four threads", "every four programs of one call, 0, 1, 7, 8 elements before; preemption bound 1 (thorough 2)", func(emit func(mc.Case)) {
			gen(emit, r.Pick(1, 2), []int{0, 1, 7, 8}, 4, words(all, 1, 1))
		}, show)
		r.Assume = append(r.Assume, "sequentially consistent atomics (the Go memory model)")
	})
}
