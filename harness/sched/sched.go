// Package sched is a controlled scheduler: threads of a small driver program run one
// at a time, every Point is a scheduling decision, and Explore runs all schedules
// with a bounded number of preemptions.  Waiting is handled as in fair stateless model
// checking: a thread that makes steps without any effect on shared state is not
// scheduled again until something changed, and if nobody can change anything any
// more the execution is reported as a livelock.
//
// Happens-before is tracked with vector clocks through the atomic operations and
// locks, so that unsynchronised accesses to driver data are reported as well.
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

const maxThreads = 6

// VC is a vector clock.
type VC [maxThreads]uint32

func (a *VC) join(b *VC) {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool // true while it cannot run
	idle    int         // own points since the shared state last changed
	run     int         // own points since its operation began or it was rotated out
	lazy    byte        // 0 normal, 1 idle spinner, 2 overlong operation
	seen    uint64      // version when it became lazy
	others  int         // points of others when it became lazy
	atomics int
	clock   VC
	err     error
}

type choice struct {
	n, at int
	free  bool // alternatives cost no preemption
	ids   [maxThreads]int8
}

// Sched is one execution.
type Sched struct {
	ths     []*thread
	cur     *thread
	version uint64
	steps   int
	stuck   int
	trail   []choice // prefix to follow, then extended
	pos     int
	bound   int
	used    int
	abort   bool
	err     error
	fin     chan struct{}
	vars    map[unsafe.Pointer]*VC
	policy  func(s *Sched, cur int, enabled []int) int
	horizon int
	log     []byte
	globals map[unsafe.Pointer]*Cell
}

// S is the active execution (nil: scheduling points do nothing).
var S *Sched

const (
	idleMax  = 6
	runMax   = 400
	stuckMax = 300000
)

type abortT struct{}

// Point is a scheduling point.
func Point() {
	s := S
	if s == nil {
		return
	}
	s.point()
}

func (s *Sched) point() {
	t := s.cur
	if s.abort {
		panic(abortT{})
	}
	s.steps++
	t.idle++
	t.run++
	if s.steps > s.horizon {
		s.fail(fmt.Errorf("no end after %d steps", s.steps))
		panic(abortT{})
	}
	if t.lazy == 0 {
		if t.idle >= idleMax {
			t.lazy, t.seen = 1, s.version
		} else if t.run >= runMax {
			t.lazy, t.others = 2, s.steps
		}
	}
	s.next(t)
}

// next picks who goes on and hands over.
func (s *Sched) next(t *thread) {
	n := s.pick(t)
	if n == nil {
		panic(abortT{})
	}
	if n != t {
		s.cur = n
		n.wake <- struct{}{}
		<-t.wake
		if s.abort {
			panic(abortT{})
		}
	}
}

func (s *Sched) enabled(t *thread) bool {
	return !t.done && (t.blocked == nil || !t.blocked())
}

// pick decides; t is the running thread (possibly done or blocked).
func (s *Sched) pick(t *thread) *thread {
	if s.policy != nil {
		var en [maxThreads]int
		k := 0
		for _, u := range s.ths {
			if s.enabled(u) {
				en[k] = u.id
				k++
			}
		}
		if k == 0 {
			s.deadlock()
			return nil
		}
		return s.ths[s.policy(s, t.id, en[:k])]
	}
	var c choice
	runs := false
	if t.lazy == 0 && s.enabled(t) {
		c.ids[0] = int8(t.id)
		c.n = 1
		runs = true
	}
	for _, u := range s.ths {
		if u == t || !s.enabled(u) {
			continue
		}
		if u.lazy != 0 {
			if u.lazy == 1 && u.seen != s.version || u.lazy == 2 && s.steps-u.others > runMax {
				u.lazy, u.idle, u.run = 0, 0, 0
			} else {
				continue
			}
		}
		c.ids[c.n] = int8(u.id)
		c.n++
	}
	if c.n == 0 {
		// only waiting threads: let them go round, fairly
		var f, g *thread
		for i := 1; i <= len(s.ths); i++ {
			u := s.ths[(t.id+i)%len(s.ths)]
			if s.enabled(u) {
				f = u
				break
			}
		}
		_ = g
		if f == nil {
			s.deadlock()
			return nil
		}
		s.stuck++
		if s.stuck > stuckMax {
			s.fail(fmt.Errorf("livelock: every thread waits, nothing changes: %s", s.where()))
			return nil
		}
		return f
	}
	if c.n == 1 {
		return s.ths[c.ids[0]]
	}
	c.free = !runs
	if s.pos < len(s.trail) {
		p := &s.trail[s.pos]
		if p.n != c.n || p.free != c.free || p.ids != c.ids {
			s.fail(fmt.Errorf("harness error: replay of a schedule diverges"))
			return nil
		}
		c.at = p.at
	} else {
		s.trail = append(s.trail, c)
	}
	s.pos++
	if c.at > 0 && !c.free {
		s.used++
	}
	return s.ths[c.ids[c.at]]
}

func (s *Sched) where() string {
	var b strings.Builder
	for _, t := range s.ths {
		fmt.Fprintf(&b, "T%d:", t.id)
		switch {
		case t.done:
			b.WriteString("done ")
		case t.blocked != nil:
			b.WriteString("blocked ")
		default:
			b.WriteString("waiting ")
		}
	}
	return b.String()
}

func (s *Sched) deadlock() { s.fail(fmt.Errorf("deadlock: no thread can go on: %s", s.where())) }

func (s *Sched) fail(err error) {
	if s.err == nil {
		s.err = err
	}
	if !s.abort {
		s.abort = true
		close(s.fin)
	}
}

// Changed tells that shared state changed.
func Changed() {
	if s := S; s != nil {
		s.version++
		s.stuck = 0
		s.cur.idle = 0
	}
}

// OpBegin marks an operation boundary of the running thread.
func OpBegin() {
	if s := S; s != nil {
		s.version++
		s.stuck = 0
		s.cur.idle, s.cur.run = 0, 0
	}
}

// Me is the running thread.
func Me() int {
	if S == nil {
		return -1
	}
	return S.cur.id
}

// Block waits until cond is true.
func Block(cond func() bool) {
	s := S
	if s == nil {
		if !cond() {
			panic("sched: blocked outside an execution")
		}
		return
	}
	t := s.cur
	for !cond() {
		t.blocked = func() bool { return !cond() }
		s.steps++
		s.next(t)
		t.blocked = nil
		t.idle, t.run = 0, 0
	}
}

// Yield is a voluntary switch (Gosched, Sleep): the thread lets others go first.
func Yield() {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	t.lazy, t.others, t.seen = 1, s.steps, s.version
	s.point()
	t.lazy = 0
}

// Fail reports a violation from driver code.
func Fail(format string, a ...interface{}) {
	if S == nil {
		panic(fmt.Sprintf(format, a...))
	}
	S.fail(fmt.Errorf(format, a...))
	panic(abortT{})
}

// Panics runs f in a thread of the program and tells whether it panicked.
func Panics(f func()) (p bool) {
	p = true // panic(nil) counts, too
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortT); ok {
				panic(e)
			}
		}
	}()
	f()
	return false
}

// Acquire and Release order the running thread after / before the variable.
func Acquire(p unsafe.Pointer) {
	s := S
	if s == nil {
		return
	}
	if v := s.vars[p]; v != nil {
		s.cur.clock.join(v)
	}
}

func Release(p unsafe.Pointer) {
	s := S
	if s == nil {
		return
	}
	v := s.vars[p]
	if v == nil {
		v = &VC{}
		s.vars[p] = v
	}
	t := s.cur
	v.join(&t.clock)
	t.clock[t.id]++
}

// Atomic is called before every atomic operation.
func Atomic() {
	s := S
	if s == nil {
		return
	}
	s.cur.atomics++
	s.point()
}

// Rd and Wr report accesses to package variables of the code under test.
func Rd[T any](p *T) {
	if S != nil {
		S.global(unsafe.Pointer(p)).read()
	}
}

func Wr[T any](p *T) {
	if S != nil {
		S.global(unsafe.Pointer(p)).write()
	}
}

// RdF and WrF report accesses to fields; the function gives the address.
func RdF(f func() interface{}) {
	if S != nil {
		if p := addr(f); p != nil {
			S.global(p).read()
		}
	}
}

func WrF(f func() interface{}) {
	if S != nil {
		if p := addr(f); p != nil {
			S.global(p).write()
		}
	}
}

// Noted runs f and gives true.
func Noted(f func()) bool {
	f()
	return true
}

func addr(f func() interface{}) (p unsafe.Pointer) {
	defer func() { recover() }()
	x := f()
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

func (s *Sched) global(p unsafe.Pointer) *Cell {
	c := s.globals[p]
	if c == nil {
		if s.globals == nil {
			s.globals = map[unsafe.Pointer]*Cell{}
		}
		c = &Cell{}
		s.globals[p] = c
	}
	return c
}

// Cell is driver data whose accesses must be ordered by the code under test.
type Cell struct {
	V     int
	w     int
	wc    uint32
	reads VC
	init  bool
}

func (c *Cell) Read() int {
	if S != nil {
		Point()
		c.read()
	}
	return c.V
}

func (c *Cell) read() {
	t := S.cur
	if c.init && c.w != t.id && c.wc > t.clock[c.w] {
		Fail("data race: a read is not ordered after the previous write")
	}
	c.reads[t.id] = t.clock[t.id]
}

func (c *Cell) Write(v int) {
	if S != nil {
		Point()
		c.write()
	}
	c.V = v
}

func (c *Cell) write() {
	t := S.cur
	if c.init && c.w != t.id && c.wc > t.clock[c.w] {
		Fail("data race: a write is not ordered after the previous write")
	}
	for i := range c.reads {
		if i != t.id && c.reads[i] > t.clock[i] {
			Fail("data race: a write is not ordered after a previous read")
		}
	}
	c.init, c.w, c.wc = true, t.id, t.clock[t.id]
}

// Atomics tells how many atomic operations thread i has made.
func (s *Sched) Atomics(i int) int { return s.ths[i].atomics }

// Done tells whether thread i ended.
func (s *Sched) Done(i int) bool { return s.ths[i].done }

// Prog is a driver program: New builds a fresh instance, its threads and its final check.
type Prog struct {
	Threads int
	New     func() (body func(tid int), end func() error)
	Horizon int
}

// Result of an exploration.
type Result struct {
	Schedules, Steps int64
	Choices          int64
	MaxPre           int
	Err              string
	Trail            []int
	Exhaustive       bool
	Outcomes         int
}

func execute(p *Prog, trail []choice, policy func(*Sched, int, []int) int) *Sched {
	s := &Sched{trail: trail, fin: make(chan struct{}), vars: map[unsafe.Pointer]*VC{}, policy: policy, horizon: p.Horizon}
	if s.horizon == 0 {
		s.horizon = 3000000
	}
	body, end := p.New()
	for i := 0; i < p.Threads; i++ {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		t.clock[i] = 1
		s.ths = append(s.ths, t)
	}
	for _, t := range s.ths {
		go func(t *thread) {
			ended := false
			defer func() {
				if e := recover(); e != nil || !ended { // panic(nil) counts, too
					if _, ok := e.(abortT); ok {
						return
					}
					if !s.abort {
						st := string(debug.Stack())
						if i := strings.Index(st, "panic("); i >= 0 {
							st = st[i:]
						}
						if len(st) > 900 {
							st = st[:900]
						}
						s.fail(fmt.Errorf("thread %d panics: %v\n%s", t.id, e, st))
					}
				}
			}()
			<-t.wake
			if s.abort {
				ended = true
				return
			}
			body(t.id)
			ended = true
			t.done = true
			s.version++
			s.stuck = 0
			for _, u := range s.ths {
				if !u.done {
					if n := s.pick(t); n != nil {
						s.cur = n
						n.wake <- struct{}{}
					}
					return
				}
			}
			close(s.fin)
		}(t)
	}
	S = s
	// the first thread to run is a free choice
	s.cur = &thread{id: 0, done: true}
	if n := s.pick(s.cur); n != nil {
		s.cur = n
		n.wake <- struct{}{}
		<-s.fin
	}
	S = nil
	if s.err != nil {
		// let the remaining threads end
		for _, t := range s.ths {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
		return s
	}
	if end != nil {
		if err := end(); err != nil {
			s.err = err
		}
	}
	return s
}

// Explore runs every schedule with at most bound preemptions.
func Explore(p *Prog, bound int, deadline time.Time) *Result {
	r := &Result{Exhaustive: true, MaxPre: bound}
	var trail []choice
	for {
		s := execute(p, trail, nil)
		r.Schedules++
		r.Steps += int64(s.steps)
		r.Choices += int64(len(s.trail))
		trail = s.trail
		if s.err != nil {
			r.Err = s.err.Error()
			r.Exhaustive = false
			for _, c := range trail {
				r.Trail = append(r.Trail, int(c.ids[c.at]))
			}
			return r
		}
		// preemptions used before each choice
		used := 0
		for _, c := range trail {
			if c.at > 0 && !c.free {
				used++
			}
		}
		i := len(trail) - 1
		for ; i >= 0; i-- {
			c := &trail[i]
			if c.at > 0 && !c.free {
				used--
			}
			if c.at+1 < c.n && (c.free || used+1 <= bound) {
				c.at++
				break
			}
		}
		if i < 0 {
			return r
		}
		trail = append([]choice(nil), trail[:i+1]...)
		if r.Schedules%256 == 0 && time.Now().After(deadline) {
			r.Exhaustive = false
			return r
		}
	}
}

// Script runs one schedule chosen by policy.
func Script(p *Prog, policy func(s *Sched, cur int, enabled []int) int) *Result {
	s := execute(p, nil, policy)
	r := &Result{Schedules: 1, Steps: int64(s.steps), Exhaustive: true}
	if s.err != nil {
		r.Err = s.err.Error()
	}
	return r
}

// Sleep stands in for time.Sleep.
func Sleep(time.Duration) { Yield() }

// Steps tells the number of scheduling points passed.
func (s *Sched) Steps() int { return s.steps }
