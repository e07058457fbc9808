// C41: the lock-free deque template: a bounded deque for one thread, and a queue between
// one thread at either end.
package main

import (
	"fmt"
	"time"

	"gxs/lfd"
	"gxs/lfdgo"
	"gxv/lin"
	"gxv/mc"
	"gxv/sched"
)

type deque interface {
	PushFront(v int) bool
	PushBack(v int) bool
	PopFront() (int, bool)
	PopBack() (int, bool)
	Init(n int32)
	Clear()
	Cap() uint32
	Size() uint32
	Empty() bool
	Busy() uint64
}

const zero = -1000

func mk(src, n int) deque {
	switch {
	case src == 0 && n == zero:
		return &lfd.IntLFDeque{}
	case src == 0:
		return lfd.NewGOGPDequeNamePrefixLFDeque(int32(n))
	case n == zero:
		return &lfdgo.IntLFDeque{}
	}
	return lfdgo.NewGOGPDequeNamePrefixLFDeque(int32(n))
}

// room of a deque made with n.
func room(n int) int {
	if n <= 0 {
		n = 8
	}
	return n - 1
}

func impl(src, n int) *lin.Impl {
	q := mk(src, n)
	return &lin.Impl{Obj: q, PushF: q.PushFront, PushB: q.PushBack, PopF: q.PopFront, PopB: q.PopBack,
		Size: func() int { return int(q.Size()) }, Empty: q.Empty, Clear: q.Clear, Init: func(n int) { q.Init(int32(n)) }}
}

var names = []string{"PushFront", "PushBack", "PopFront", "PopBack"}

// a case: source, bound, buffer, offset, elements before, pushing end (0 front, 1 back),
// pushes, pops
func explore(c []int, deadline time.Time) *sched.Result {
	src, bound, buf, off, init, end, pushes, pops := c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]
	return sched.Explore(&sched.Prog{Threads: 2, New: func() (func(int), func() error) {
		q := mk(src, buf)
		push, pop := q.PushBack, q.PopFront
		if end == 0 {
			push, pop = q.PushFront, q.PopBack
		}
		for i := 0; i < off; i++ {
			push(-1)
			pop()
		}
		for i := 1; i <= init; i++ {
			push(i)
		}
		began, ended := 0, 0 // pushes
		next := 1            // the value to come out next
		take := func(v int, ok bool, known int) error {
			if !ok {
				if known >= next {
					return fmt.Errorf("empty, but value %d was pushed before", next)
				}
				return nil
			}
			if v != next {
				return fmt.Errorf("got %d, want %d", v, next)
			}
			if v > init+began {
				return fmt.Errorf("got %d before it was pushed", v)
			}
			next++
			return nil
		}
		return func(t int) {
				if t == 0 {
					for i := 1; i <= pushes; i++ {
						sched.OpBegin()
						began++
						if !push(init + i) {
							sched.Fail("push reports failure")
						}
						ended++
					}
					return
				}
				for i := 0; i < pops; i++ {
					for {
						sched.OpBegin()
						known := init + ended
						v, ok := pop()
						if err := take(v, ok, known); err != nil {
							sched.Fail("%v", err)
						}
						if ok || init+pushes <= room(buf) || next > init+pushes {
							break
						}
						// the pusher needs room: this pop has to take something
						sched.Block(func() bool { return init+ended >= next })
					}
				}
			}, func() error {
				if n := init + pushes - next + 1; int(q.Size()) != n || q.Empty() != (n == 0) {
					return fmt.Errorf("at rest Size()=%d Empty()=%v, want %d", q.Size(), q.Empty(), n)
				}
				for next <= init+pushes {
					v, ok := pop()
					if err := take(v, ok, init+pushes); err != nil {
						return fmt.Errorf("at rest: %v", err)
					}
				}
				if _, ok := pop(); ok || !q.Empty() {
					return fmt.Errorf("more values than were pushed")
				}
				return nil
			}
	}}, bound, deadline)
}

func main() {
	sched.Serve(explore)
	mc.Main("C41", func(r *mc.Run) {
		for src := 0; src < 2; src++ {
			src := src
			tag := []string{"", " (fake go file)"}[src]
			for _, n := range []int{zero, 0, 2, 3, 4, 5, 9} {
				n := n
				inits := []int{4}
				if n == zero { // has no buffer yet: Init would choose it
					inits = nil
				}
				r.Explore(mc.Sys{Name: fmt.Sprintf("histories, buffer %d%s", n, tag), Bounds: "unique elements, up to one less than the buffer, until closure",
					New: func() mc.Inst {
						return &lin.L{Make: func(c int) *lin.Impl { return impl(src, c) }, NCfg: []int{n}, Max: room(n), Inits: inits}
					}})
			}
			r.Enumerate(mc.Enum{Name: "big buffers" + tag, Bounds: "buffers 2..70 and 26 more sizes up to 100000: at 4 offsets filled and drained at every combination of ends, twice round the buffer", Small: true, Gen: func(emit func(mc.Case)) {
				ns := append(append([]int{}, mc.Large...), mc.Huge...)
				for n := 2; n <= 70; n++ {
					ns = append(ns, n)
				}
				for _, n := range ns {
					for off := 0; off < 4; off++ {
						for e := 0; e < 4; e++ {
							emit(mc.Case{n, off, e})
						}
					}
				}
			}, Show: func(c mc.Case) string {
				return fmt.Sprintf("buffer %d, offset %d, %s and %s", c[0], c[1]*c[0]/4, names[c[2]%2], names[2+c[2]/2])
			}, Run: func(c mc.Case, t *mc.T) error {
				q := mk(src, c[0])
				for i := c[1] * c[0] / 4; i > 0; i-- {
					q.PushBack(-1)
					q.PopFront()
				}
				push, pop := q.PushBack, q.PopFront
				if c[2]%2 == 0 {
					push = q.PushFront
				}
				if c[2]/2 == 1 {
					pop = q.PopBack
				}
				fifo := c[2] == 1 || c[2] == 2
				if int(q.Cap()) != c[0] {
					return fmt.Errorf("Cap()=%d", q.Cap())
				}
				for round := 0; round < 2; round++ {
					for i := 1; i < c[0]; i++ {
						if !push(i) || int(q.Size()) != i || q.Empty() {
							return fmt.Errorf("push %d: Size()=%d Empty()=%v", i, q.Size(), q.Empty())
						}
					}
					for i := 1; i < c[0]; i++ {
						w := i
						if !fifo {
							w = c[0] - i
						}
						if v, ok := pop(); !ok || v != w || int(q.Size()) != c[0]-1-i {
							return fmt.Errorf("pop %d: %d %v, expected %d; Size()=%d", i, v, ok, w, q.Size())
						}
					}
					if _, ok := pop(); ok || !q.Empty() {
						return fmt.Errorf("not empty at the end")
					}
					t.Steps += int64(2 * c[0])
				}
				return nil
			}})
			sched.Part(r, "one thread per end"+tag, "one thread pushes up to 4 values at one end, another pops up to 4 times at the other; buffers 2..4, every offset, 0..2 elements before; preemption bound 4 (thorough 7)", func(emit func(mc.Case)) {
				for buf := 2; buf <= 4; buf++ {
					for off := 0; off < buf; off++ {
						for in := 0; in <= 2 && in <= room(buf); in++ {
							for end := 0; end < 2; end++ {
								for p := 1; p <= 4; p++ {
									for k := 1; k <= 4; k++ {
										if in+p-k <= room(buf) { // else the pusher waits for ever
											emit(mc.Case{src, r.Pick(4, 7), buf, off, in, end, p, k})
										}
									}
								}
							}
						}
					}
				}
			}, func(c mc.Case) string {
				return fmt.Sprintf("buffer %d, offset %d, %d elements: [%s x%d] [%s x%d], preemptions<=%d", c[2], c[3], c[4], names[c[5]], c[6], names[3-c[5]], c[7], c[1])
			})
		}
		r.Assume = append(r.Assume, "sequentially consistent atomics (the Go memory model)")
	})
}
