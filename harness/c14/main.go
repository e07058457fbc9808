// C14: RWSpinLock under every interleaving.
package main

import (
	"fmt"
	"strings"
	"time"

	gsync "gxs/sync"
	"gxv/mc"
	"gxv/sched"
)

// Operations of a thread: 0 write section, 1 read section, 2 two nested read sections
// (only in programs without writers: a pending writer may hold back the second).
// A case is: mode, bound, program.
func explore(c []int, deadline time.Time) *sched.Result {
	mode, bound, prog := c[0], c[1], c[2:]
	switch mode {
	case 0:
		return sched.Explore(sections(prog), bound, deadline)
	case 1:
		return sched.Explore(together(prog), bound, deadline)
	case 2:
		return long(prog[0], prog[1])
	case 3:
		return many(prog[0], prog[1])
	case 4:
		return sched.Explore(misuse(prog), bound, deadline)
	}
	panic("mode")
}

type world struct {
	l    gsync.RWSpinLock
	w, r int
	data sched.Cell
}

func (x *world) check() {
	if x.w > 1 {
		sched.Fail("two writers hold the lock")
	}
	if x.w > 0 && x.r > 0 {
		sched.Fail("a reader and a writer hold the lock together")
	}
}

func (x *world) write() {
	sched.OpBegin()
	x.l.Lock()
	x.w++
	x.check()
	v := x.data.Read()
	x.data.Write(v + 1)
	sched.Point()
	x.check()
	x.w--
	sched.OpBegin()
	x.l.Unlock()
}

func (x *world) rlock() {
	sched.OpBegin()
	x.l.RLock()
	x.r++
	x.check()
}

func (x *world) runlock() {
	x.check()
	x.r--
	sched.OpBegin()
	x.l.RUnlock()
}

func (x *world) read() {
	x.rlock()
	a := x.data.Read()
	if b := x.data.Read(); a != b {
		sched.Fail("data changed under a read lock")
	}
	x.runlock()
}

// idle checks a lock nobody holds: it works, and misuse is detected.
func (x *world) idle() error {
	l := &x.l
	for i := 0; i < 2; i++ {
		l.Lock()
		l.Unlock()
		l.RLock()
		l.RLock()
		l.RUnlock()
		l.RUnlock()
	}
	if x.data.V%2 == 0 { // the lock need not be usable after a misuse
		if !mc.Panics(l.Unlock) {
			return fmt.Errorf("Unlock of a lock nobody holds does not panic")
		}
	} else if !mc.Panics(l.RUnlock) {
		return fmt.Errorf("RUnlock of a lock nobody holds does not panic")
	}
	return nil
}

func split(prog []int) (th [][]int) {
	for p := prog; len(p) > 0; {
		th = append(th, p[1:1+p[0]])
		p = p[1+p[0]:]
	}
	return
}

func sections(prog []int) *sched.Prog {
	th := split(prog)
	return &sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		x := &world{}
		writes := 0
		for _, t := range th {
			for _, o := range t {
				if o == 0 {
					writes++
				}
			}
		}
		return func(t int) {
				for _, o := range th[t] {
					switch o {
					case 0:
						x.write()
					case 1:
						x.read()
					case 2:
						x.rlock()
						x.read()
						x.data.Read()
						x.runlock()
					}
				}
			}, func() error {
				if x.data.V != writes {
					return fmt.Errorf("lost update: %d write sections, counter %d", writes, x.data.V)
				}
				return x.idle()
			}
	}}
}

// together: after a sequential history, k readers must be able to hold the lock at once.
func together(prog []int) *sched.Prog {
	k, h := prog[0], prog[1:]
	return &sched.Prog{Threads: k, New: func() (func(int), func() error) {
		x := &world{}
		for _, o := range h {
			switch o {
			case 0:
				x.write()
			case 1:
				x.read()
			case 2:
				x.rlock()
				x.read()
				x.runlock()
			}
		}
		x.data = sched.Cell{}
		arrived := 0
		return func(t int) {
				x.rlock()
				arrived++
				sched.OpBegin()
				sched.Block(func() bool { return arrived == k }) // ends only if all get in
				x.data.Read()
				x.runlock()
			}, func() error {
				return x.idle()
			}
	}}
}

// long: kind 0 writer waits for writer, 1 writer for reader, 2 reader for writer.
func long(attempts, kind int) *sched.Result {
	held := false
	p := &sched.Prog{Threads: 2, Horizon: 1 << 30, New: func() (func(int), func() error) {
		x := &world{}
		op := func(w bool) {
			if w {
				x.l.Lock()
				x.w++
			} else {
				x.l.RLock()
				x.r++
			}
			x.check()
			held = true
			sched.Point()
			x.check()
			if w {
				x.w--
				x.l.Unlock()
			} else {
				x.r--
				x.l.RUnlock()
			}
		}
		return func(t int) {
			op(kind == 0 || kind == 1 && t == 1 || kind == 2 && t == 0)
		}, x.idle
	}}
	return sched.Script(p, func(s *sched.Sched, cur int, en []int) int {
		if s.Done(0) || s.Done(1) {
			return en[0]
		}
		if held && s.Atomics(1) < attempts {
			return 1
		}
		return 0
	})
}

// misuse: the lock is held by a writer (readers=0) or by some readers; the releases of
// the holders and one release too many run at the same time.
func misuse(prog []int) *sched.Prog {
	readers, odd := prog[0], prog[1] // odd: 0 Unlock, 1 RUnlock
	n := readers
	if n == 0 {
		n = 1
	}
	return &sched.Prog{Threads: n + 1, New: func() (func(int), func() error) {
		x := &world{}
		if readers == 0 {
			x.l.Lock()
		}
		for i := 0; i < readers; i++ {
			x.l.RLock()
		}
		panics, wrong := 0, false
		return func(t int) {
				sched.OpBegin()
				w := readers == 0
				if t == n {
					w = odd == 0
				}
				f := x.l.RUnlock
				if w {
					f = x.l.Unlock
				}
				if sched.Panics(f) {
					panics++
					wrong = wrong || t == n
				}
			}, func() error {
				if same := (readers == 0) == (odd == 0); same && panics != 1 {
					return fmt.Errorf("%d holders, %d releases at the same time: %d of them panicked", n, n+1, panics)
				} else if !same && !wrong {
					return fmt.Errorf("the release of a kind that nobody holds did not panic")
				}
				return nil
			}
	}}
}

// many: n readers hold the lock (taken by one thread), a writer waits; readers leave
// one by one (the writer is tried after each of the last few, and at powers of two);
// how=1: another n readers' worth of enter/leave first.
func many(n, how int) *sched.Result {
	phase, in := 0, 0
	p := &sched.Prog{Threads: 2, Horizon: 1 << 30, New: func() (func(int), func() error) {
		x := &world{}
		return func(t int) {
			if t == 0 {
				if how == 1 {
					for i := 0; i < n; i++ {
						x.l.RLock()
					}
					for i := 0; i < n; i++ {
						x.l.RUnlock()
					}
				}
				for i := 0; i < n; i++ {
					x.l.RLock()
					x.r++
				}
				phase = 1
				sched.Point()
				for i := n; i > 0; i-- {
					x.check()
					x.r--
					x.l.RUnlock()
					if i < 6 || i&(i-1) == 0 {
						phase++
						sched.Point()
					}
				}
				return
			}
			x.l.Lock()
			x.w++
			x.check()
			in++
			sched.Point()
			x.w--
			x.l.Unlock()
		}, x.idle
	}}
	last, start := 0, 0
	return sched.Script(p, func(s *sched.Sched, cur int, en []int) int {
		if s.Done(0) {
			return 1
		}
		if s.Done(1) {
			return 0
		}
		if phase == 0 {
			return 0
		}
		if phase != last { // give the writer 20 attempts
			last, start = phase, s.Atomics(1)
		}
		if in == 0 && s.Atomics(1)-start < 20 {
			return 1
		}
		return 0
	})
}

func main() {
	sched.Serve(explore)
	mc.Main("C14", func(r *mc.Run) {
		show := func(c mc.Case) string {
			return fmt.Sprintf("%s, preemptions<=%d, program %s",
				[]string{"sections (per thread: count, then 0 write, 1 read, 2 nested read)", "readers together (count, history)", "long wait (attempts, kind)", "many readers (count, kind)", "one release too many (readers, or 0 for a writer; 0 Unlock 1 RUnlock)"}[c[0]],
				c[1], strings.Trim(fmt.Sprint([]int(c[2:])), "[]"))
		}
		hist(r)
		sched.Part(r, "long wait", "a contender makes 2^k-1..2^k+1 attempts, k=0..19, and 2^20-1, while the holder stays: writer/writer, writer behind reader, reader behind writer", func(emit func(mc.Case)) {
			for kind := 0; kind < 3; kind++ {
				for k := uint(0); k < 20; k++ {
					for d := -1; d <= 1; d++ {
						emit(mc.Case{2, 0, 1<<k + d, kind})
					}
				}
				emit(mc.Case{2, 0, 1<<20 - 1, kind})
			}
		}, show)
		sched.Part(r, "many readers", "2^k-1..2^k+1 simultaneous readers, k=0..17 (thorough 22), leave one by one while a writer waits", func(emit func(mc.Case)) {
			for k := uint(0); k < uint(r.Pick(18, 23)); k++ {
				for d := -1; d <= 1; d++ {
					for how := 0; how < 2; how++ {
						if n := 1<<k + d; n > 0 {
							emit(mc.Case{3, 0, n, how})
						}
					}
				}
			}
		}, show)
		sched.Part(r, "readers together", "after every history of up to 3 of {write, read, nested read}, 2..4 readers must be inside at once; preemption bound 3 (thorough 5)", func(emit func(mc.Case)) {
			for k := 2; k <= 4; k++ {
				mc.Strings(3, 0, 3, func(c mc.Case) {
					emit(append(mc.Case{1, r.Pick(3, 5) - (k-2)/2, k}, c...))
				})
			}
		}, show)
		var one [][]int // thread programs
		for _, n := range []int{1, 2, 3} {
			mc.Strings(2, n, n, func(c mc.Case) { one = append(one, append([]int{n}, c...)) })
		}
		sched.Part(r, "2 threads", "2 threads, each every program of 1..3 write/read sections; preemption bound 3 (thorough 5)", func(emit func(mc.Case)) {
			for i := range one {
				for j := i; j < len(one); j++ {
					emit(append(append(mc.Case{0, r.Pick(3, 5)}, one[i]...), one[j]...))
				}
			}
		}, show)
		sched.Part(r, "3 threads", "3 threads, programs of 1..2 write/read sections, at most 4 (thorough 5) sections in all; preemption bound 2, 3 for 1 section each (thorough 3/4)", func(emit func(mc.Case)) {
			for i := 0; i < 6; i++ {
				for j := i; j < 6; j++ {
					for k := j; k < 6; k++ {
						n := one[i][0] + one[j][0] + one[k][0]
						if n > r.Pick(4, 5) {
							continue
						}
						b := r.Pick(2, 3)
						if n == 3 {
							b = r.Pick(3, 4)
						}
						emit(append(append(append(mc.Case{0, b}, one[i]...), one[j]...), one[k]...))
					}
				}
			}
		}, show)
		sched.Part(r, "4 threads", "4 threads, one write or read section each; preemption bound 2 (thorough 3)", func(emit func(mc.Case)) {
			for w := 0; w <= 4; w++ {
				c := mc.Case{0, r.Pick(2, 3)}
				for i := 0; i < 4; i++ {
					k := 1
					if i < w {
						k = 0
					}
					c = append(c, 1, k)
				}
				emit(c)
			}
		}, show)
		sched.Part(r, "nested readers", "2..3 threads of nested and plain read sections; preemption bound 3 (thorough 4)", func(emit func(mc.Case)) {
			for _, c := range []mc.Case{{1, 2, 1, 2}, {1, 2, 2, 1, 2}, {1, 2, 1, 1, 1, 1}, {1, 2, 1, 2, 1, 1}, {2, 2, 1, 2, 1, 2}} {
				emit(append(mc.Case{0, r.Pick(3, 4)}, c...))
			}
		}, show)
		sched.Part(r, "misuse", "a lock held by a writer or 1..3 readers, all releases and one release too many (of either kind) at the same time; preemption bound 4 (thorough 6): exactly one of the same kind panics, one of the other kind always", func(emit func(mc.Case)) {
			for n := 0; n <= 3; n++ {
				for o := 0; o < 2; o++ {
					emit(mc.Case{4, r.Pick(4, 6), n, o})
				}
			}
		}, show)
		r.Enumerate(mc.Enum{Name: "very long wait", Bounds: "a lock held by a writer or by 1..2 readers: a conflicting Lock or RLock may panic or wait for the release, but not return", Small: true,
			Gen: func(emit func(mc.Case)) {
				for i := 0; i < 4; i++ {
					emit(mc.Case{i})
				}
			}, Show: func(c mc.Case) string {
				return []string{"writer, Lock", "reader, Lock", "2 readers, Lock", "writer, RLock"}[c[0]]
			},
			Run: func(c mc.Case, t *mc.T) error {
				var l gsync.RWSpinLock
				if c[0]%3 == 0 {
					l.Lock()
				}
				for i := 0; i < c[0]%3; i++ {
					l.RLock()
				}
				f := l.Lock
				if c[0] == 3 {
					f = l.RLock
				}
				done := make(chan bool, 1)
				go func() { done <- mc.Panics(f) }()
				t.Steps++
				select {
				case p := <-done:
					if !p {
						return fmt.Errorf("it returned while the lock was held")
					}
				case <-time.After(10 * time.Second):
					if c[0]%3 == 0 { // let the waiting goroutine end
						l.Unlock()
					}
					for i := 0; i < c[0]%3; i++ {
						l.RUnlock()
					}
				}
				return nil
			}})
		r.Assume = append(r.Assume, "sequentially consistent atomics (the Go memory model); happens-before through the atomic operations is tracked, so unsynchronised handover of data is reported")
	})
}

// hist: every sequential history of the four calls that would not wait, and misuse at
// every point of it.
func hist(r *mc.Run) {
	names := []string{"Lock", "Unlock", "RLock", "RUnlock"}
	r.Enumerate(mc.Enum{Name: "sequential", Bounds: "every history of up to 9 (thorough 12) calls of one goroutine on a zero lock that do not wait; every misuse (Unlock without writer, RUnlock without reader) must panic", Gen: func(emit func(mc.Case)) {
		mc.Strings(4, 1, r.Pick(9, 12), func(c mc.Case) {
			w, n := 0, 0
			for i, o := range c {
				switch {
				case o == 0 && w == 0 && n == 0:
					w = 1
				case o == 1 && w == 1:
					w = 0
				case o == 2 && w == 0:
					n++
				case o == 3 && n > 0:
					n--
				case i == len(c)-1 && (o == 1 || o == 3):
				default:
					return
				}
			}
			emit(c)
		})
	}, Show: func(c mc.Case) string {
		var s []string
		for _, o := range c {
			s = append(s, names[o])
		}
		return strings.Join(s, " ")
	}, Run: func(c mc.Case, t *mc.T) error {
		x := &world{}
		w, n := 0, 0
		for _, o := range c {
			t.Steps++
			bad := false
			var f func()
			switch o {
			case 0:
				f = x.l.Lock
				w++
			case 1:
				f = x.l.Unlock
				bad = w == 0
				w--
			case 2:
				f = x.l.RLock
				n++
			case 3:
				f = x.l.RUnlock
				bad = n == 0
				n--
			}
			if p := mc.Panics(f); p != bad {
				return fmt.Errorf("%s: panic=%v, expected %v", names[o], p, bad)
			}
			if bad {
				return nil
			}
		}
		for ; w > 0; w-- {
			x.l.Unlock()
		}
		for ; n > 0; n-- {
			x.l.RUnlock()
		}
		return x.idle()
	}})
}
