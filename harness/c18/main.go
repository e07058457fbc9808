package main

import (
	"fmt"
	"math"
	"math/big"

	gx "github.com/vipally/gx/math"
	"gxv/mc"
)

// num is the uniform view of both ranged integer types.
type num interface {
	Init(v, lo, hi uint64) error
	Reset() bool
	ResetR() bool
	Set(v uint64) (uint64, error)
	Inc() (uint64, error)
	Dec(v uint64) (uint64, error)
	Arith(op int, v uint64) (uint64, error)
	Get() (a, b, c uint64)
	Val() uint64
	Min() uint64
	Max() uint64
	InRange(v uint64) bool
	InCurrentRange(v uint64) bool
	Raw() interface{}
}

type n32 struct{ r *gx.RangeUint32 }
type n64 struct{ r *gx.RangeUInt64 }

func u(a uint32, e error) (uint64, error) { return uint64(a), e }

func (n n32) Init(v, lo, hi uint64) error       { return n.r.Init(uint32(v), uint32(lo), uint32(hi)) }
func (n n32) Reset() bool                       { return n.r.Reset() }
func (n n32) ResetR() bool                      { return n.r.ResetR() }
func (n n32) Set(v uint64) (uint64, error)      { return u(n.r.Set(uint32(v))) }
func (n n32) Inc() (uint64, error)              { return u(n.r.Inc()) }
func (n n32) Dec(v uint64) (uint64, error)      { return u(n.r.Dec(uint32(v))) }
func (n n32) Get() (a, b, c uint64) {
	x, y, z := n.r.Get()
	return uint64(x), uint64(y), uint64(z)
}
func (n n32) Val() uint64                  { return uint64(n.r.Val()) }
func (n n32) Min() uint64                  { return uint64(n.r.Min()) }
func (n n32) Max() uint64                  { return uint64(n.r.Max()) }
func (n n32) InRange(v uint64) bool        { return n.r.InRange(uint32(v)) }
func (n n32) InCurrentRange(v uint64) bool { return n.r.InCurrentRange(uint32(v)) }
func (n n32) Raw() interface{}             { return n.r }
func (n n32) Arith(op int, v uint64) (uint64, error) {
	w := uint32(v)
	switch op {
	case 0:
		return u(n.r.Add(w))
	case 1:
		return u(n.r.Sub(w))
	case 2:
		return u(n.r.Mul(w))
	case 3:
		return u(n.r.Div(w))
	}
	return u(n.r.Mod(w))
}

func (n n64) Init(v, lo, hi uint64) error  { return n.r.Init(v, lo, hi) }
func (n n64) Reset() bool                  { return n.r.Reset() }
func (n n64) ResetR() bool                 { return n.r.ResetR() }
func (n n64) Set(v uint64) (uint64, error) { return n.r.Set(v) }
func (n n64) Inc() (uint64, error)         { return n.r.Inc() }
func (n n64) Dec(v uint64) (uint64, error) { return n.r.Dec(v) }
func (n n64) Get() (a, b, c uint64)        { return n.r.Get() }
func (n n64) Val() uint64                  { return n.r.Val() }
func (n n64) Min() uint64                  { return n.r.Min() }
func (n n64) Max() uint64                  { return n.r.Max() }
func (n n64) InRange(v uint64) bool        { return n.r.InRange(v) }
func (n n64) InCurrentRange(v uint64) bool { return n.r.InCurrentRange(v) }
func (n n64) Raw() interface{}             { return n.r }
func (n n64) Arith(op int, v uint64) (uint64, error) {
	switch op {
	case 0:
		return n.r.Add(v)
	case 1:
		return n.r.Sub(v)
	case 2:
		return n.r.Mul(v)
	case 3:
		return n.r.Div(v)
	}
	return n.r.Mod(v)
}

// mkNum constructs through the constructor; nil when it reports an error.
func mkNum(bits int, v, lo, hi uint64) (num, error) {
	if bits == 32 {
		r, err := gx.NewRangeUint32(uint32(v), uint32(lo), uint32(hi))
		if err != nil {
			if r != nil {
				panic("a failed construction gives an object")
			}
			return nil, err
		}
		if r == nil {
			return nil, fmt.Errorf("nil object without error")
		}
		return n32{r}, nil
	}
	r, err := gx.NewRangeUInt64(v, lo, hi)
	if err != nil {
		if r != nil {
			panic("a failed construction gives an object")
		}
		return nil, err
	}
	if r == nil {
		return nil, fmt.Errorf("nil object without error")
	}
	return n64{r}, nil
}

func zero(bits int) num {
	if bits == 32 {
		return n32{&gx.RangeUint32{}}
	}
	return n64{&gx.RangeUInt64{}}
}

var arith = []string{"Add", "Sub", "Mul", "Div", "Mod"}

// exact gives the mathematical result; ok=false when undefined.
func exact(op int, a, b uint64) (*big.Int, bool) {
	x, y := new(big.Int).SetUint64(a), new(big.Int).SetUint64(b)
	switch op {
	case 0:
		return x.Add(x, y), true
	case 1:
		return x.Sub(x, y), true
	case 2:
		return x.Mul(x, y), true
	}
	if b == 0 {
		return nil, false
	}
	if op == 3 {
		return x.Div(x, y), true
	}
	return x.Mod(x, y), true
}

type model struct{ v, lo, hi uint64 }

func same(n num, m model) error {
	a, b, c := n.Get()
	if a != m.v || b != m.lo || c != m.hi {
		return fmt.Errorf("Get()=%d,%d,%d want %d,%d,%d", a, b, c, m.v, m.lo, m.hi)
	}
	if n.Val() != m.v || n.Min() != m.lo || n.Max() != m.hi {
		return fmt.Errorf("Val/Min/Max=%d,%d,%d want %d,%d,%d", n.Val(), n.Min(), n.Max(), m.v, m.lo, m.hi)
	}
	if n.Val() < n.Min() || n.Val() > n.Max() {
		return fmt.Errorf("value %d left the range [%d,%d]", n.Val(), n.Min(), n.Max())
	}
	return nil
}

// ops checks every pure operation of n with operand v.
func pure(n num, m model, v uint64) error {
	for op := range arith {
		got, err := n.Arith(op, v)
		want, def := exact(op, m.v, v)
		ok := def && want.Sign() >= 0 && want.IsUint64() && want.Uint64() >= m.lo && want.Uint64() <= m.hi
		if ok != (err == nil) {
			return fmt.Errorf("%s(%d) on %v: error %v, exact result %v", arith[op], v, m, err, want)
		}
		if ok && got != want.Uint64() {
			return fmt.Errorf("%s(%d) on %v = %d, want %v", arith[op], v, m, got, want)
		}
	}
	if n.InRange(v) != (v >= m.lo && v <= m.hi) || n.InCurrentRange(v) != (v >= m.lo && v <= m.v) {
		return fmt.Errorf("InRange/InCurrentRange(%d) on %v wrong", v, m)
	}
	return same(n, m)
}

type inst struct {
	bits  int
	vals  []uint64
	trip  [][3]int // constructions
	n     num
	m     model
	extra []uint64
}

func (s *inst) Ops() (r []mc.Op) {
	for i, t := range s.trip {
		if s.n == nil {
			r = append(r, mc.O("New", i))
		} else if legal(s.vals, t) || i%7 == 0 {
			r = append(r, mc.O("Init", i))
		}
	}
	if s.n == nil {
		return append(r, mc.O("Zero"))
	}
	for i := range s.vals {
		r = append(r, mc.O("Set", i))
	}
	return append(r, mc.O("Inc"), mc.O("Dec", 0), mc.O("Dec", len(s.vals)-1), mc.O("Reset"), mc.O("ResetR"))
}

func legal(vals []uint64, t [3]int) bool {
	return vals[t[1]] <= vals[t[0]] && vals[t[0]] <= vals[t[2]]
}

func (s *inst) try(err error, want bool, m model, old, ret uint64, checkRet bool) error {
	if (err == nil) != want {
		return fmt.Errorf("error %v, want success=%v (state %v)", err, want, s.m)
	}
	if want {
		if checkRet && ret != old {
			return fmt.Errorf("returned %d, want the previous value %d", ret, old)
		}
		s.m = m
	}
	return nil
}

func (s *inst) Do(o mc.Op) error {
	m := s.m
	switch o.N {
	case "New":
		t := s.trip[o.A[0]]
		n, err := mkNum(s.bits, s.vals[t[0]], s.vals[t[1]], s.vals[t[2]])
		if legal(s.vals, t) != (err == nil) {
			return fmt.Errorf("New(%d,%d,%d): error %v", s.vals[t[0]], s.vals[t[1]], s.vals[t[2]], err)
		}
		if err == nil {
			s.n, s.m = n, model{s.vals[t[0]], s.vals[t[1]], s.vals[t[2]]}
		}
	case "Zero":
		s.n, s.m = zero(s.bits), model{}
	case "Init":
		t := s.trip[o.A[0]]
		err := s.n.Init(s.vals[t[0]], s.vals[t[1]], s.vals[t[2]])
		return s.try(err, legal(s.vals, t), model{s.vals[t[0]], s.vals[t[1]], s.vals[t[2]]}, 0, 0, false)
	case "Set":
		v := s.vals[o.A[0]]
		ret, err := s.n.Set(v)
		return s.try(err, v >= m.lo && v <= m.hi, model{v, m.lo, m.hi}, m.v, ret, true)
	case "Inc":
		ret, err := s.n.Inc()
		return s.try(err, m.v < m.hi, model{m.v + 1, m.lo, m.hi}, m.v, ret, true)
	case "Dec":
		ret, err := s.n.Dec(s.vals[o.A[0]])
		return s.try(err, m.v > m.lo, model{m.v - 1, m.lo, m.hi}, m.v, ret, true)
	case "Reset":
		if !s.n.Reset() {
			return fmt.Errorf("reports failure")
		}
		s.m.v = m.lo
	case "ResetR":
		if !s.n.ResetR() {
			return fmt.Errorf("reports failure")
		}
		s.m.v = m.hi
	}
	return nil
}

func (s *inst) Check() error {
	if s.n == nil {
		return nil
	}
	return same(s.n, s.m)
}

func (s *inst) Drain() error {
	if s.n == nil {
		return nil
	}
	for _, v := range append(s.vals, s.extra...) {
		if err := pure(s.n, s.m, v); err != nil {
			return err
		}
	}
	return nil
}

func (s *inst) Key(d *mc.Dump) {
	if s.n == nil {
		d.Int(-1)
		return
	}
	d.Val(s.n.Raw())
	d.Int(int64(s.m.v))
}

func values(bits int, big bool) []uint64 {
	top := uint64(math.MaxUint64)
	if bits == 32 {
		top = math.MaxUint32
	}
	l := []uint64{0, 1, 2, 5, top / 2, top/2 + 1, top - 2, top - 1, top}
	if big {
		l = append(l, 3, 10, 1<<16-1, 1<<16, 1<<16+1, 1<<31-1, 1<<31, top/3, top-7)
		if bits == 64 {
			l = append(l, 1<<32-1, 1<<32, 1<<32+1)
		}
	}
	return l
}

func trips(n int) (r [][3]int) {
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				r = append(r, [3]int{a, b, c})
			}
		}
	}
	return
}

func main() {
	mc.Main("C18", func(r *mc.Run) {
		for _, bits := range []int{32, 64} {
			bits := bits
			vals := values(bits, r.Thorough())
			extra := values(bits, true)
			tr := trips(len(vals))
			r.Explore(mc.Sys{Name: fmt.Sprintf("histories uint%d", bits), MaxDepth: r.Pick(5, 5), Bounds: fmt.Sprintf("all constructions over %d boundary values (valid and invalid), every history up to the depth of Set/Inc/Dec/Reset/ResetR/Init; in every state Add/Sub/Mul/Div/Mod/InRange/InCurrentRange with %d operands against exact arithmetic", len(vals), len(vals)+len(extra)),
				New: func() mc.Inst { return &inst{bits: bits, vals: vals, trip: tr, extra: extra} }})
			// small dense domain: full closure
			var dense []uint64
			for i := 0; i <= r.Pick(6, 9); i++ {
				dense = append(dense, uint64(i))
			}
			dt := trips(len(dense))
			r.Explore(mc.Sys{Name: fmt.Sprintf("dense uint%d", bits), Bounds: fmt.Sprintf("all values 0..%d, until closure", len(dense)-1),
				New: func() mc.Inst { return &inst{bits: bits, vals: dense, trip: dt, extra: extra} }})
			ops := values(bits, true)
			top := ops[8]
			for k := uint(2); k < uint(bits); k++ {
				ops = append(ops, uint64(1)<<k, uint64(1)<<k-1, uint64(1)<<k+1)
			}
			ops = append(ops, top/2-1, top/3+1, top/5, top/7, 1000003, 641, 6700417&top)
			r.Enumerate(mc.Enum{Name: fmt.Sprintf("arithmetic uint%d", bits), Bounds: fmt.Sprintf("all value x operand pairs of %d boundary values, on the full range, the half-open ranges and the one-point range", len(ops)),
				Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(ops), 4) },
				Show: func(c mc.Case) string { return fmt.Sprintf("value %d range kind %d", ops[c[0]], c[1]) },
				Run: func(c mc.Case, t *mc.T) error {
					v := ops[c[0]]
					m := [][2]uint64{{0, top}, {0, v}, {v, top}, {v, v}}[c[1]]
					n, err := mkNum(bits, v, m[0], m[1])
					if err != nil {
						return fmt.Errorf("construction failed: %v", err)
					}
					for _, w := range ops {
						t.Steps += 7
						if err := pure(n, model{v, m[0], m[1]}, w); err != nil {
							return err
						}
					}
					return nil
				}})
		}
	})
}
