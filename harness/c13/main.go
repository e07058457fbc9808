// C13: SpinLock under every interleaving.
package main

import (
	"fmt"
	"strings"
	"time"

	gsync "gxs/sync"
	"gxv/mc"
	"gxv/sched"
)

// A case is: mode, bound, then the program.
//
//	mode 0: per thread the number of critical sections; all schedules
//	mode 1: critical sections on two locks: per thread a list of lock sets
//	mode 2: the contender runs n attempts while the holder stays inside (one schedule)
//	mode 3: handover chain: lock in one thread, unlock in another
//	mode 4: misuse: held at first or not, number of unlockers, of lockers
func explore(c []int, deadline time.Time) *sched.Result {
	mode, bound, prog := c[0], c[1], c[2:]
	switch mode {
	case 0:
		return sched.Explore(sections(prog), bound, deadline)
	case 1:
		return sched.Explore(two(prog), bound, deadline)
	case 2:
		return long(prog[0], prog[1])
	case 3:
		return sched.Explore(handover(prog), bound, deadline)
	case 4:
		return sched.Explore(misuse(prog), bound, deadline)
	}
	panic("mode")
}

func enter(in *int, data *sched.Cell) {
	*in++
	if *in != 1 {
		sched.Fail("two holders: a Lock returned while another thread held the lock")
	}
	v := data.Read()
	data.Write(v + 1)
	sched.Point()
	if *in != 1 {
		sched.Fail("two holders: a Lock returned while another thread held the lock")
	}
	*in--
	sched.OpBegin()
}

func sections(n []int) *sched.Prog {
	return &sched.Prog{Threads: len(n), New: func() (func(int), func() error) {
		var l gsync.SpinLock
		var lk gsync.Locker = &l
		in, total := 0, 0
		var data sched.Cell
		for _, k := range n {
			total += k
		}
		return func(t int) {
				for i := 0; i < n[t]; i++ {
					sched.OpBegin()
					lk.Lock()
					enter(&in, &data)
					lk.Unlock()
				}
			}, func() error {
				if data.V != total {
					return fmt.Errorf("lost update: %d critical sections, counter %d", total, data.V)
				}
				return idle(&l)
			}
	}}
}

// idle checks that a free lock is free and that misuse is detected.
func idle(l *gsync.SpinLock) error {
	for i := 0; i < 2; i++ {
		if !mc.Panics(l.Unlock) {
			return fmt.Errorf("Unlock of a lock that is not held does not panic")
		}
	}
	l.Lock()
	l.Unlock()
	if !mc.Panics(l.Unlock) {
		return fmt.Errorf("Unlock of a lock that is not held does not panic")
	}
	l.Lock()
	l.Unlock()
	return nil
}

func two(prog []int) *sched.Prog {
	// prog: threads, then per thread: count, sets (1: a, 2: b, 3: a then b)
	var th [][]int
	for i, p := 0, prog[1:]; i < prog[0]; i++ {
		th = append(th, p[1:1+p[0]])
		p = p[1+p[0]:]
	}
	return &sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		var a, b gsync.SpinLock
		var ia, ib int
		var da, db sched.Cell
		return func(t int) {
				for _, s := range th[t] {
					sched.OpBegin()
					if s&1 != 0 {
						a.Lock()
						enter(&ia, &da)
					}
					if s&2 != 0 {
						b.Lock()
						enter(&ib, &db)
						b.Unlock()
					}
					if s&1 != 0 {
						v := da.Read()
						da.Write(v)
						a.Unlock()
					}
				}
			}, func() error {
				if err := idle(&a); err != nil {
					return err
				}
				return idle(&b)
			}
	}}
}

// handover: thread i waits for its turn to unlock what thread i-1 locked, while the
// last thread contends with ordinary critical sections.
func handover(n []int) *sched.Prog {
	return &sched.Prog{Threads: 3, New: func() (func(int), func() error) {
		var l gsync.SpinLock
		in := 0
		var data sched.Cell
		state := 0
		return func(t int) {
			switch t {
			case 0:
				for i := 0; i < n[0]; i++ {
					l.Lock()
					in++
					if in != 1 {
						sched.Fail("two holders")
					}
					state = 1
					sched.OpBegin()
					sched.Block(func() bool { return state == 0 })
				}
			case 1:
				for i := 0; i < n[0]; i++ {
					sched.Block(func() bool { return state == 1 })
					if in != 1 {
						sched.Fail("two holders")
					}
					in--
					sched.OpBegin()
					l.Unlock()
					state = 0
				}
			case 2:
				for i := 0; i < n[1]; i++ {
					sched.OpBegin()
					l.Lock()
					enter(&in, &data)
					l.Unlock()
				}
			}
		}, func() error { return idle(&l) }
	}}
}

// misuse: more Unlocks than Locks; each Lock is undone by one Unlock, the others panic.
// prog: held at first, threads that unlock once, threads that lock once, threads that
// lock and unlock.
func misuse(n []int) *sched.Prog {
	return &sched.Prog{Threads: n[1] + n[2] + n[3], New: func() (func(int), func() error) {
		var l gsync.SpinLock
		locks, unlocks := 0, 0
		if n[0] == 1 {
			l.Lock()
			locks++
		}
		return func(t int) {
				sched.OpBegin()
				if t >= n[1] {
					l.Lock()
					locks++
				}
				sched.OpBegin()
				if t < n[1] || t >= n[1]+n[2] {
					if !sched.Panics(l.Unlock) {
						unlocks++
					}
				}
			}, func() error {
				if unlocks > locks {
					return fmt.Errorf("%d Locks were followed by %d Unlocks that did not panic", locks, unlocks)
				}
				if max := n[1] + n[3]; n[2] == 0 && unlocks != min(locks, max) {
					return fmt.Errorf("after %d Locks only %d of %d Unlocks did not panic", locks, unlocks, max)
				}
				if locks-unlocks > 1 {
					return fmt.Errorf("%d Locks succeeded with %d Unlocks", locks, unlocks)
				}
				if p := mc.Panics(l.Unlock); p != (locks == unlocks) {
					return fmt.Errorf("after %d Locks and %d Unlocks another Unlock panics: %v", locks, unlocks, p)
				}
				return idle(&l)
			}
	}}
}

func long(attempts, contenders int) *sched.Result {
	started := false
	p := &sched.Prog{Threads: 1 + contenders, Horizon: 1 << 30, New: func() (func(int), func() error) {
		var l gsync.SpinLock
		in := 0
		var data sched.Cell
		return func(t int) {
			l.Lock()
			if t == 0 {
				started = true
			}
			enter(&in, &data)
			l.Unlock()
		}, func() error { return idle(&l) }
	}}
	return sched.Script(p, func(s *sched.Sched, cur int, en []int) int {
		if !s.Done(0) {
			if !started { // the holder gets the lock
				return 0
			}
			for k := 1; k <= contenders; k++ {
				if !s.Done(k) && s.Atomics(k) < attempts {
					return k
				}
			}
			return 0
		}
		return en[len(en)-1]
	})
}

func main() {
	sched.Serve(explore)
	mc.Main("C13", func(r *mc.Run) {
		show := func(c mc.Case) string {
			return fmt.Sprintf("%s, preemptions<=%d, program %v", []string{"critical sections per thread", "two locks", "holder stays inside for n attempts of k contenders", "handover", "held at first, unlockers, lockers, lock+unlock"}[c[0]], c[1], []int(c[2:]))
		}
		gen0 := func(emit func(mc.Case), threads, lo, hi, bound int) {
			mc.Product(func(c mc.Case) {
				n := append(mc.Case{0, bound}, make([]int, threads)...)
				for i := range c {
					n[2+i] = lo + c[i]
					if i > 0 && n[2+i] < n[1+i] {
						return // threads are symmetric
					}
				}
				emit(n)
			}, times(threads, hi-lo+1)...)
		}
		sched.Part(r, "long wait", "a contender makes 2^k-1, 2^k, 2^k+1 attempts, k=0..19, and 2^20-1, while the holder is inside", func(emit func(mc.Case)) {
			for k := uint(0); k < 20; k++ {
				for d := -1; d <= 1; d++ {
					for n := 1; n <= 2; n++ {
						emit(mc.Case{2, 0, 1<<k + d, n})
					}
				}
			}
			emit(mc.Case{2, 0, 1<<20 - 1, 1})
		}, show)
		hist(r)
		sched.Part(r, "critical sections", "2 threads x 1..4, 3 threads x 1..2, 4 threads x 1 critical sections; preemption bounds 4/3/2 (thorough 6/4/3)", func(emit func(mc.Case)) {
			gen0(emit, 2, 1, 4, r.Pick(4, 6))
			gen0(emit, 3, 1, 2, r.Pick(3, 4))
			gen0(emit, 4, 1, 1, r.Pick(2, 3))
		}, show)
		sched.Part(r, "two locks", "2..3 threads, each up to 2 (3 threads: 1) of {lock a, lock b, a then b nested}; preemption bound 3 (thorough 4)", func(emit func(mc.Case)) {
			var progs [][]int
			for a := 1; a <= 3; a++ {
				progs = append(progs, []int{1, a})
				for b := 1; b <= 3; b++ {
					progs = append(progs, []int{2, a, b})
				}
			}
			for _, x := range progs {
				for _, y := range progs {
					emit(append(append(mc.Case{1, r.Pick(3, 4), 2}, x...), y...))
				}
			}
			for a := 1; a <= 3; a++ {
				for b := a; b <= 3; b++ {
					for c := b; c <= 3; c++ {
						emit(mc.Case{1, r.Pick(2, 4), 3, 1, a, 1, b, 1, c})
					}
				}
			}
		}, show)
		sched.Part(r, "handover", "a lock taken by one thread and released by another, 1..2 times, against 1..2 critical sections of a third; preemption bound 3 (thorough 5)", func(emit func(mc.Case)) {
			for a := 1; a <= 2; a++ {
				for b := 1; b <= 2; b++ {
					emit(mc.Case{3, r.Pick(3, 5), a, b})
				}
			}
		}, show)
		sched.Part(r, "misuse", "a lock held at first or not, 1..3 (thorough 4) threads that unlock once, at most one that locks or at most 2 that lock and unlock, 4 in all; preemption bound 4, 2 for 4 threads (thorough 6/3): every Lock is undone by exactly one Unlock, all others panic", func(emit func(mc.Case)) {
			for held := 0; held < 2; held++ {
				for u := 1; u <= r.Pick(3, 4); u++ {
					for lk := 0; lk <= held; lk++ {
						for b := 0; b < 3; b++ {
							if u+lk+b < 2 || u+lk+b > 4 || lk > 0 && b > 0 { // (a locker may keep the lock from the others for ever)
								continue
							}
							bound := r.Pick(4, 6)
							if u+lk+b == 4 {
								bound = r.Pick(2, 3)
							}
							emit(mc.Case{4, bound, held, u, lk, b})
						}
					}
				}
			}
		}, show)
		r.Enumerate(mc.Enum{Name: "very long wait", Bounds: "a held lock: another Lock may panic or wait for the release, but not return", Small: true,
			Gen: func(emit func(mc.Case)) { emit(mc.Case{0}) },
			Run: func(c mc.Case, t *mc.T) error {
				var l gsync.SpinLock
				l.Lock()
				done := make(chan bool, 1)
				go func() { done <- mc.Panics(l.Lock) }()
				t.Steps++
				select {
				case p := <-done:
					if !p {
						return fmt.Errorf("a Lock returned while another goroutine held the lock")
					}
				case <-time.After(10 * time.Second):
				}
				if mc.Panics(l.Unlock) {
					return fmt.Errorf("Unlock of a held lock panics")
				}
				return nil
			}})
		r.Assume = append(r.Assume, "sequentially consistent atomics (the Go memory model); happens-before through the atomic operations is tracked, so unsynchronised handover of data is reported")
	})
}

func times(n, v int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, v)
	}
	return
}

// hist: every sequential history of Lock (when free), Unlock and misuse.
func hist(r *mc.Run) {
	r.Enumerate(mc.Enum{Name: "sequential", Bounds: "every history of up to 12 (thorough 16) Lock/Unlock calls of one goroutine on a zero lock, Lock only when free", Gen: func(emit func(mc.Case)) {
		mc.Strings(2, 1, r.Pick(12, 16), emit)
	}, Show: func(c mc.Case) string {
		return strings.NewReplacer("0", "Lock", "1", "Unlock").Replace(fmt.Sprint([]int(c)))
	}, Run: func(c mc.Case, t *mc.T) error {
		var l gsync.SpinLock
		held := false
		for _, o := range c {
			if o == 0 {
				if held {
					continue
				}
				l.Lock()
				held = true
			} else {
				if p := mc.Panics(l.Unlock); p == held {
					return fmt.Errorf("Unlock: panic=%v while held=%v", p, held)
				}
				held = false
			}
			t.Steps++
		}
		if held {
			l.Unlock()
		}
		return idle(&l)
	}})
}
