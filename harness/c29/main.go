// C29: random generators.
package main

import (
	"fmt"
	"strings"
	"time"

	grand "github.com/vipally/gx/math/rand"
	srand "gxs/math/rand"
	"gxv/mc"
	"gxv/sched"
)

// gen is one generator, 32 or 64 bit.
type gen interface {
	Rand() uint64
	Range(a, b uint64) uint64
	Max(n uint64) uint64
	Seed() uint64
	Srand(s uint64) uint64
}

type g32 struct{ *grand.Rand32T }

func (g g32) Rand() uint64             { return uint64(g.Rand32T.Rand()) }
func (g g32) Range(a, b uint64) uint64 { return uint64(g.RandRange(uint32(a), uint32(b))) }
func (g g32) Max(n uint64) uint64      { return uint64(g.RandMax(uint32(n))) }
func (g g32) Seed() uint64             { return uint64(g.Rand32T.Seed()) }
func (g g32) Srand(s uint64) uint64    { return uint64(g.Rand32T.Srand(uint32(s))) }

type g64 struct{ *grand.Rand64T }

func (g g64) Range(a, b uint64) uint64 { return g.RandRange(a, b) }
func (g g64) Max(n uint64) uint64      { return g.RandMax(n) }

type s32 struct{ *srand.Rand32T }

func (g s32) Rand() uint64             { return uint64(g.Rand32T.Rand()) }
func (g s32) Range(a, b uint64) uint64 { return uint64(g.RandRange(uint32(a), uint32(b))) }
func (g s32) Max(n uint64) uint64      { return uint64(g.RandMax(uint32(n))) }
func (g s32) Seed() uint64             { return uint64(g.Rand32T.Seed()) }
func (g s32) Srand(s uint64) uint64    { return uint64(g.Rand32T.Srand(uint32(s))) }

type s64 struct{ *srand.Rand64T }

func (g s64) Range(a, b uint64) uint64 { return g.RandRange(a, b) }
func (g s64) Max(n uint64) uint64      { return g.RandMax(n) }

func mk(bits int, seed uint64) gen {
	if bits == 32 {
		return g32{grand.NewRand32S(uint32(seed))}
	}
	return g64{grand.NewRand64S(seed)}
}

func smk(bits int, seed uint64) gen {
	if bits == 32 {
		return s32{srand.NewRand32S(uint32(seed))}
	}
	return s64{srand.NewRand64S(seed)}
}

// model is the reference.
type model struct {
	bits int
	x    uint64
}

func (m *model) Rand() uint64 {
	if m.bits == 32 {
		m.x = uint64(uint32(m.x)*7368787 + 2750159)
	} else {
		m.x = m.x*4294955897 + 4094975977
	}
	return m.x
}

func (m *model) Range(a, b uint64) uint64 {
	if b < a {
		a, b = b, a
	}
	r := m.Rand()
	d := b - a + 1
	if d == 0 || m.bits == 32 && d == 1<<32 {
		return r
	}
	return a + r%d
}
func (m *model) Max(n uint64) uint64 { return m.Range(0, n-1) }
func (m *model) Seed() uint64        { return m.x }
func (m *model) Srand(s uint64) (o uint64) {
	o, m.x = m.x, s
	return
}

// operations of a driver thread
var ops = []struct {
	n string
	f func(g gen) uint64
}{
	{"Rand", func(g gen) uint64 { return g.Rand() }},
	{"Srand(7)", func(g gen) uint64 { return g.Srand(7) }},
	{"RandRange(10,15)", func(g gen) uint64 { return g.Range(10, 15) }},
	{"Seed", func(g gen) uint64 { return g.Seed() }},
	{"RandMax(1000)", func(g gen) uint64 { return g.Max(1000) }},
}

type call struct {
	op         int
	res        uint64
	begin, end int
}

// linearizable: some order of the calls that respects their real-time order gives the
// same results and the same final seed on the model.
func linearizable(calls []call, m model, final uint64) bool {
	n := len(calls)
	var try func(used int, m model) bool
	try = func(used int, m model) bool {
		if used == 1<<uint(n)-1 {
			return m.x == final
		}
	next:
		for i, c := range calls {
			if used>>uint(i)&1 == 1 {
				continue
			}
			for j, d := range calls {
				if j != i && used>>uint(j)&1 == 0 && d.end < c.begin {
					continue next
				}
			}
			mm := m
			if ops[c.op].f(&mm) == c.res && try(used|1<<uint(i), mm) {
				return true
			}
		}
		return false
	}
	return try(0, m)
}

// A case is: bits, bound, then per thread: count, ops.
func explore(c []int, deadline time.Time) *sched.Result {
	bits, bound := c[0], c[1]
	var th [][]int
	for p := c[2:]; len(p) > 0; {
		th = append(th, p[1:1+p[0]])
		p = p[1+p[0]:]
	}
	const seed = 12345
	return sched.Explore(&sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		g := smk(bits, seed)
		clock := 0
		res := make([][]call, len(th))
		return func(t int) {
				for _, o := range th[t] {
					sched.OpBegin()
					clock++
					k := call{op: o, begin: clock}
					k.res = ops[o].f(g)
					sched.OpBegin()
					clock++
					k.end = clock
					res[t] = append(res[t], k)
				}
			}, func() error {
				var all []call
				for _, r := range res {
					all = append(all, r...)
				}
				if !linearizable(all, model{bits, seed}, g.Seed()) {
					var s []string
					for t, r := range res {
						for _, k := range r {
							s = append(s, fmt.Sprintf("T%d:%s=%d[%d,%d]", t, ops[k.op].n, k.res, k.begin, k.end))
						}
					}
					return fmt.Errorf("not the results of any sequential order (final seed %d): %s", g.Seed(), strings.Join(s, " "))
				}
				return nil
			}
	}}, bound, deadline)
}

func main() {
	sched.Serve(explore)
	mc.Main("C29", func(r *mc.Run) {
		for _, bits := range []int{32, 64} {
			seq(r, bits)
			conc(r, bits)
		}
		r.Assume = append(r.Assume, "sequentially consistent atomics (the Go memory model)")
	})
}

func show(c mc.Case) string {
	s := fmt.Sprintf("%d bit, preemptions<=%d:", c[0], c[1])
	for p := c[2:]; len(p) > 0; {
		s += " ["
		for _, o := range p[1 : 1+p[0]] {
			s += " " + ops[o].n
		}
		s += " ]"
		p = p[1+p[0]:]
	}
	return s
}

func conc(r *mc.Run, bits int) {
	var one []mc.Case
	for n := 1; n <= 3; n++ {
		mc.Strings(len(ops), n, n, func(c mc.Case) {
			if n == 3 && !r.Thorough() {
				for _, o := range c {
					if o > 1 {
						return
					}
				}
			}
			one = append(one, append(mc.Case{n}, c...))
		})
	}
	sched.Part(r, fmt.Sprintf("%d: 2 threads", bits), "2 threads, every program of up to 2 of {Rand, Srand, RandRange, Seed, RandMax} (3 of {Rand, Srand}; thorough 3 of all); preemption bound 4 (thorough 5); every history linearizable", func(emit func(mc.Case)) {
		for i := range one {
			for j := i; j < len(one); j++ {
				emit(append(append(mc.Case{bits, r.Pick(4, 5)}, one[i]...), one[j]...))
			}
		}
	}, show)
	sched.Part(r, fmt.Sprintf("%d: 3 threads", bits), "3 threads, programs of 1 operation of all kinds, or 1..2 of {Rand, Srand}; preemption bound 3 (thorough 4)", func(emit func(mc.Case)) {
		var small []mc.Case
		for _, c := range one {
			if c[0] == 1 || c[0] == 2 && c[1] < 2 && c[2] < 2 {
				small = append(small, c)
			}
		}
		for i := range small {
			for j := i; j < len(small); j++ {
				for k := j; k < len(small); k++ {
					emit(append(append(append(mc.Case{bits, r.Pick(3, 4)}, small[i]...), small[j]...), small[k]...))
				}
			}
		}
	}, show)
	sched.Part(r, fmt.Sprintf("%d: 4 threads", bits), "4 threads, one Rand or Srand each; preemption bound 3 (thorough 4)", func(emit func(mc.Case)) {
		for w := 0; w <= 4; w++ {
			c := mc.Case{bits, r.Pick(3, 4)}
			for i := 0; i < 4; i++ {
				k := 0
				if i < w {
					k = 1
				}
				c = append(c, 1, k)
			}
			emit(c)
		}
	}, show)
}

func seq(r *mc.Run, bits int) {
	top := uint64(1)<<32 - 1
	if bits == 64 {
		top = 1<<64 - 1
	}
	var vals []uint64
	add := func(v uint64) {
		v &= top
		for _, x := range vals {
			if x == v {
				return
			}
		}
		vals = append(vals, v)
	}
	for v := uint64(0); v < 12; v++ {
		add(v)
		add(top - v)
	}
	for k := uint(0); k < uint(bits); k++ {
		add(1 << k)
		add(1<<k - 1)
		add(1<<k + 1)
	}
	add(1000)
	add(999999937)
	name := func(s string) string { return fmt.Sprintf("%d: %s", bits, s) }
	seeds := []uint64{0, 1, 2, 3, 4, 5, 77, top, top - 1, top / 2, top/2 + 1, 12345678901234567 & top}
	r.Enumerate(mc.Enum{Name: name("ranges"), Bounds: fmt.Sprintf("RandRange of all pairs of %d boundary values, RandMax of all of them, %d seeds, 3 draws each", len(vals), len(seeds)), Gen: func(emit func(mc.Case)) {
		mc.Product(emit, len(vals), len(vals), len(seeds))
	}, Show: func(c mc.Case) string {
		return fmt.Sprintf("RandRange(%d,%d) seed %d", vals[c[0]], vals[c[1]], seeds[c[2]])
	}, Run: func(c mc.Case, t *mc.T) error {
		a, b, s := vals[c[0]], vals[c[1]], seeds[c[2]]
		g, m := mk(bits, s), &model{bits, s}
		lo, hi := a, b
		if hi < lo {
			lo, hi = hi, lo
		}
		for i := 0; i < 3; i++ {
			v := g.Range(a, b)
			t.Steps++
			if v < lo || v > hi {
				return fmt.Errorf("draw %d: %d is outside", i, v)
			}
			if w := m.Range(a, b); v != w {
				return fmt.Errorf("draw %d: %d, expected %d", i, v, w)
			}
			if c[1] == 0 && a > 0 {
				v := g.Max(a)
				if w := m.Max(a); v >= a || v != w {
					return fmt.Errorf("RandMax(%d) gives %d, expected %d", a, v, w)
				}
				t.Steps++
			}
		}
		if g.Seed() != m.Seed() {
			return fmt.Errorf("the calls consumed another number of elements: seed %d, expected %d", g.Seed(), m.Seed())
		}
		return nil
	}})
	r.Enumerate(mc.Enum{Name: name("small ranges"), Bounds: "every range width 1..64 at 6 offsets: over seeds 0..4095 every value and no other is drawn", Gen: func(emit func(mc.Case)) {
		mc.Product(emit, 64, 6, 2)
	}, Run: func(c mc.Case, t *mc.T) error {
		w := uint64(c[0]) + 1
		a := []uint64{0, 1, 100, top / 2, top - w, top - w + 1}[c[1]]
		b := a + w - 1
		if c[2] == 1 {
			a, b = b, a
		}
		seen := map[uint64]bool{}
		for s := uint64(0); s < 4096; s++ {
			v := mk(bits, s).Range(a, b)
			t.Steps++
			if m := (&model{bits, s}); v != m.Range(a, b) {
				return fmt.Errorf("RandRange(%d,%d) with seed %d gives %d", a, b, s, v)
			}
			seen[v] = true
		}
		if uint64(len(seen)) != w {
			return fmt.Errorf("RandRange(%d,%d) draws only %d of %d values", a, b, len(seen), w)
		}
		return nil
	}})
	r.Explore(mc.Sys{Name: name("histories"), New: func() mc.Inst { return &inst{bits: bits} }, MaxDepth: r.Pick(5, 7), Bounds: "every history of up to 5 (thorough 7) of New(seed), Rand, Srand(seed), RandRange, RandMax, Seed, from 5 seeds, results and seed compared with the model"})
	r.Enumerate(mc.Enum{Name: name("long sequences"), Bounds: "20000 elements from every boundary seed, and the same again after Srand", Gen: func(emit func(mc.Case)) {
		for i := range vals {
			emit(mc.Case{i})
		}
	}, Run: func(c mc.Case, t *mc.T) error {
		s := vals[c[0]]
		g, m := mk(bits, s), &model{bits, s}
		for k := 0; k < 2; k++ {
			for i := 0; i < 20000; i++ {
				if v, w := g.Rand(), m.Rand(); v != w {
					return fmt.Errorf("element %d of seed %d is %d, expected %d", i, s, v, w)
				}
			}
			t.Steps += 20000
			if a, b := g.Srand(s), m.Srand(s); a != b {
				return fmt.Errorf("Srand returns %d, expected %d", a, b)
			}
		}
		return nil
	}})
	r.Enumerate(mc.Enum{Name: name("package functions"), Serial: true, Bounds: "Rand, RandMax, RandRange of the shared generator and NewRand: ranges hold for all boundary values", Gen: func(emit func(mc.Case)) {
		mc.Product(emit, len(vals), len(vals))
	}, Run: func(c mc.Case, t *mc.T) error {
		a, b := vals[c[0]], vals[c[1]]
		lo, hi := a, b
		if hi < lo {
			lo, hi = hi, lo
		}
		var v, w uint64
		var n gen
		t.Steps += 3
		if bits == 32 {
			v = uint64(grand.RandRange32(uint32(a), uint32(b)))
			grand.Rand32()
			if a > 0 {
				w = uint64(grand.RandMax32(uint32(a)))
			}
			n = g32{grand.NewRand32()}
		} else {
			v = grand.RandRange64(a, b)
			grand.Rand64()
			if a > 0 {
				w = grand.RandMax64(a)
			}
			n = g64{grand.NewRand64()}
		}
		if v < lo || v > hi || a > 0 && w >= a {
			return fmt.Errorf("RandRange(%d,%d) gives %d, RandMax(%d) gives %d", a, b, v, a, w)
		}
		m := &model{bits, n.Seed()}
		if x := n.Rand(); x != m.Rand() {
			return fmt.Errorf("a generator with a generated seed leaves the sequence of its seed")
		}
		return nil
	}})
}

type inst struct {
	bits int
	g    gen
	m    model
}

var hs = []uint64{0, 1, 99, 1<<31 + 5, 1<<32 - 1}

func (x *inst) Ops() (o []mc.Op) {
	if x.g == nil {
		for i := range hs {
			o = append(o, mc.O("New", i))
		}
		return
	}
	o = append(o, mc.O("Rand"), mc.O("Seed"), mc.O("RandMax", 10), mc.O("RandRange", 5, 3), mc.O("RandRange", 0, 1<<32-1))
	for i := range hs {
		o = append(o, mc.O("Srand", i))
	}
	return
}

func (x *inst) Do(o mc.Op) error {
	var a, b uint64
	switch o.N {
	case "New":
		x.g, x.m = mk(x.bits, hs[o.A[0]]), model{x.bits, hs[o.A[0]]}
	case "Rand":
		a, b = x.g.Rand(), x.m.Rand()
	case "Seed":
		a, b = x.g.Seed(), x.m.Seed()
	case "RandMax":
		a, b = x.g.Max(uint64(o.A[0])), x.m.Max(uint64(o.A[0]))
	case "RandRange":
		a, b = x.g.Range(uint64(o.A[0]), uint64(o.A[1])), x.m.Range(uint64(o.A[0]), uint64(o.A[1]))
	case "Srand":
		a, b = x.g.Srand(hs[o.A[0]]), x.m.Srand(hs[o.A[0]])
	}
	if a != b {
		return fmt.Errorf("%v returns %d, expected %d", o, a, b)
	}
	return nil
}

func (x *inst) Check() error {
	if x.g != nil && x.g.Seed() != x.m.x {
		return fmt.Errorf("seed %d, expected %d", x.g.Seed(), x.m.x)
	}
	return nil
}
func (x *inst) Drain() error {
	for i := 0; i < 3 && x.g != nil; i++ {
		if a, b := x.g.Rand(), x.m.Rand(); a != b {
			return fmt.Errorf("next element %d, expected %d", a, b)
		}
	}
	return nil
}
func (x *inst) Key(d *mc.Dump) {
	if x.g != nil {
		d.Val(x.g)
	}
	d.Int(int64(x.m.x))
}
