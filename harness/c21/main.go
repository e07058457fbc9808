package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	gx "github.com/vipally/gx/math"
	"github.com/vipally/gx/math/cplx"
	"gxv/mc"
)

func acc(v, idx uint32) error {
	b, eb := gx.GetBit(v, idx)
	y, ey := gx.GetByte(v, idx)
	w, ew := gx.GetWord(v, idx)
	if idx < 32 {
		if eb != nil || b != v>>idx&1 {
			return fmt.Errorf("GetBit(%#x,%d)=%d,%v", v, idx, b, eb)
		}
	} else if eb == nil || b != 0 {
		return fmt.Errorf("GetBit(%#x,%d)=%d,%v out of range", v, idx, b, eb)
	}
	if idx < 4 {
		if ey != nil || y != v>>(8*idx)&0xff {
			return fmt.Errorf("GetByte(%#x,%d)=%d,%v", v, idx, y, ey)
		}
	} else if ey == nil || y != 0 {
		return fmt.Errorf("GetByte(%#x,%d)=%d,%v out of range", v, idx, y, ey)
	}
	if idx < 2 {
		if ew != nil || w != v>>(16*idx)&0xffff {
			return fmt.Errorf("GetWord(%#x,%d)=%d,%v", v, idx, w, ew)
		}
	} else if ew == nil || w != 0 {
		return fmt.Errorf("GetWord(%#x,%d)=%d,%v out of range", v, idx, w, ew)
	}
	return nil
}

// valid checks every valid index of v without the error paths.
func valid(v uint32) error {
	for i := uint32(0); i < 32; i++ {
		if b, err := gx.GetBit(v, i); err != nil || b != v>>i&1 {
			return fmt.Errorf("GetBit(%#x,%d)=%d,%v", v, i, b, err)
		}
	}
	for i := uint32(0); i < 4; i++ {
		if b, err := gx.GetByte(v, i); err != nil || b != v>>(8*i)&0xff {
			return fmt.Errorf("GetByte(%#x,%d)=%d,%v", v, i, b, err)
		}
	}
	for i := uint32(0); i < 2; i++ {
		if b, err := gx.GetWord(v, i); err != nil || b != v>>(16*i)&0xffff {
			return fmt.Errorf("GetWord(%#x,%d)=%d,%v", v, i, b, err)
		}
	}
	return nil
}

func comma(v uint64) string {
	s := strconv.FormatUint(v, 10)
	var b strings.Builder
	for i, c := range s {
		if i > 0 && (len(s)-i)%3 == 0 {
			b.WriteByte(',')
		}
		b.WriteRune(c)
	}
	return b.String()
}

func checkComma(v uint64) error {
	if g, w := gx.Uint64(v).CommaString(), comma(v); g != w {
		return fmt.Errorf("CommaString(%d)=%q, want %q", v, g, w)
	}
	return nil
}

// f32/f64 boundary values
var specials = func() (l []float64) {
	for _, b := range []float64{0, 1e-6, 2e-6, 5e-7, 1e-7, 1, 2, 0.1, 100, 1e6, 1e9, 1e10, 1e15, 1e16, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, 123456.789, 1 << 53} {
		x, y := b, b
		l = append(l, b, -b)
		for i := 0; i < 3; i++ {
			x, y = math.Nextafter(x, math.Inf(1)), math.Nextafter(y, math.Inf(-1))
			l = append(l, x, y, -x, -y)
		}
	}
	return append(l, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1))
}()

func eq(a, b float64) error {
	if math.IsInf(a, 0) && a == b {
		return nil // the difference of equal infinities is undefined
	}
	got := gx.Equal(a, b)
	want := math.Abs(a-b) < 0.000001
	if !math.IsNaN(a) && !math.IsNaN(b) && !math.IsInf(a, 0) && !math.IsInf(b, 0) {
		// exact difference; where rounding decides, both answers are accepted
		d := new(big.Float).SetPrec(3000).Sub(new(big.Float).SetPrec(3000).SetFloat64(a), new(big.Float).SetPrec(3000).SetFloat64(b))
		ex := d.Abs(d).Cmp(big.NewFloat(0.000001)) < 0
		if ex != want {
			return nil
		}
	}
	if got != want {
		return fmt.Errorf("Equal(%v,%v)=%v", a, b, got)
	}
	return nil
}

func main() {
	mc.Main("C21", func(r *mc.Run) {
		if r.Thorough() {
			r.Range("bits all uint32", "every uint32 value with every valid index", 0, 1<<32-1, func(i uint64) error { return valid(uint32(i)) })
		} else {
			r.Range("bits halves", "every 16-bit pattern in the low half, the high half, both halves, complemented, times every valid index", 0, 1<<16-1, func(i uint64) error {
				w := uint32(i)
				for _, v := range []uint32{w, w << 16, w<<16 | w, ^w, w | 0xffff0000, w<<16 | 0xffff, w << 8, w<<8 | 0xff0000ff, w<<16 | ^w&0xffff, w * 0x9E3779B1} {
					if err := valid(v); err != nil {
						return err
					}
				}
				return nil
			})
		}
		var idx []uint32
		for i := uint32(0); i < 300; i++ {
			idx = append(idx, i)
		}
		for k := uint(9); k < 32; k++ {
			for d := uint32(0); d < 36; d++ {
				idx = append(idx, 1<<k+d-1)
			}
		}
		for d := uint32(0); d < 40; d++ {
			idx = append(idx, math.MaxUint32-d)
		}
		r.Enumerate(mc.Enum{Name: "indices", Bounds: fmt.Sprintf("%d indices (0..299, around every power of two, the largest 40) x 130 values", len(idx)),
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(idx), 130) },
			Show: func(c mc.Case) string { return fmt.Sprintf("index %d value number %d", idx[c[0]], c[1]) },
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps += 3
				v := uint32(c[1])
				if c[1] >= 64 && c[1] < 96 {
					v = 1 << uint(c[1]-64)
				} else if c[1] >= 96 {
					v = ^uint32(0) >> uint(c[1]-96)
				}
				return acc(v, idx[c[0]])
			}})
		r.Range("comma small", "every number up to the bound", 0, uint64(r.Pick(5000000, 300000000)), checkComma)
		g := []uint64{0, 1, 9, 10, 99, 100, 101, 999}
		r.Enumerate(mc.Enum{Name: "comma groups", Bounds: "every number whose 3-digit groups are in {0,1,9,10,99,100,101,999} (6 groups and a leading group up to 18)",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(g), len(g), len(g), len(g), len(g), len(g), 4) },
			Run: func(c mc.Case, t *mc.T) error {
				v := []uint64{0, 1, 9, 18}[c[6]]
				for i := 5; i >= 0; i-- {
					v = v*1000 + g[c[i]]
				}
				t.Steps++
				if v/1000000000000000000 != []uint64{0, 1, 9, 18}[c[6]] {
					return nil // beyond 64 bits
				}
				return checkComma(v)
			}})
		r.Enumerate(mc.Enum{Name: "comma powers", Bounds: "2^k+-20, 10^k+-20 and the largest 1000 uint64",
			Gen: func(emit func(mc.Case)) {
				mc.Product(emit, 64, 41)
				for i := 0; i < 1000; i++ {
					emit(mc.Case{-1, i})
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				if c[0] < 0 {
					return checkComma(math.MaxUint64 - uint64(c[1]))
				}
				t.Steps += 2
				if err := checkComma(uint64(1)<<uint(c[0]) + uint64(c[1]) - 20); err != nil {
					return err
				}
				p := uint64(1)
				for i := 0; i < c[0]%20; i++ {
					p *= 10
				}
				return checkComma(p + uint64(c[1]) - 20)
			}})
		r.Enumerate(mc.Enum{Name: "bool", Bounds: "true/false; every int in [-70000,70000], +-2^k+-1",
			Gen: func(emit func(mc.Case)) {
				for i := -70000; i <= 70000; i++ {
					emit(mc.Case{i})
				}
				for k := uint(16); k < 64; k++ {
					for d := -1; d <= 1; d++ {
						emit(mc.Case{int(uint64(1)<<k) + d})
						emit(mc.Case{-int(uint64(1)<<k) + d})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps += 5
				if gx.ItoB(c[0]) != (c[0] != 0) {
					return fmt.Errorf("ItoB(%d)=%v", c[0], c[0] == 0)
				}
				if gx.BToI(true) != 1 || gx.BToI(false) != 0 || gx.Bool(true).I() != 1 || gx.Bool(false).I() != 0 {
					return fmt.Errorf("bool to int")
				}
				return nil
			}})
		deltas := []float64{0, 1e-6, 5e-7, 9.99e-7, 9.999999e-7, 1.0000001e-6, 1.1e-6, 2e-6, 1e-9, 1e-5, 1e-4, 0.5, 1, 1e-300}
		r.Enumerate(mc.Enum{Name: "float Equal", Bounds: fmt.Sprintf("all pairs of %d special values, and a with a+-d for %d distances", len(specials), len(deltas)),
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(specials)) },
			Show: func(c mc.Case) string { return fmt.Sprint(specials[c[0]]) },
			Run: func(c mc.Case, t *mc.T) error {
				a := specials[c[0]]
				for _, b := range specials {
					if err := eq(a, b); err != nil {
						return err
					}
				}
				for _, d := range deltas {
					for _, b := range []float64{a + d, a - d, math.Nextafter(a+d, 0), math.Nextafter(a+d, 1e308), math.Nextafter(a-d, 0)} {
						if err := eq(a, b); err != nil {
							return err
						}
						if err := eq(b, a); err != nil {
							return err
						}
					}
				}
				t.Steps += int64(len(specials) + 10*len(deltas))
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "complex", Bounds: "all pairs of special values as parts, both widths, bit-exact",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(specials), len(specials)) },
			Run: func(c mc.Case, t *mc.T) error {
				a, b := specials[c[0]], specials[c[1]]
				z := cplx.Cplx128(complex(a, b))
				if math.Float64bits(z.Real()) != math.Float64bits(a) || math.Float64bits(z.Imag()) != math.Float64bits(b) {
					return fmt.Errorf("Cplx128(%v,%v) parts %v,%v", a, b, z.Real(), z.Imag())
				}
				x, y := float32(a), float32(b)
				w := cplx.Cplx64(complex(x, y))
				if math.Float32bits(w.Real()) != math.Float32bits(x) || math.Float32bits(w.Imag()) != math.Float32bits(y) {
					return fmt.Errorf("Cplx64(%v,%v) parts %v,%v", x, y, w.Real(), w.Imag())
				}
				t.Steps += 4
				return nil
			}})
	})
}
