package main

import (
	"fmt"

	"github.com/vipally/gx/math/prime"
	"gxv/mc"
)

// own table of primes below 2^16+..., by a plain sieve
var small = func() (l []uint64) {
	const n = 1<<17 + 100
	c := make([]bool, n)
	for i := 2; i < n; i++ {
		if !c[i] {
			l = append(l, uint64(i))
			for j := i * i; j < n; j += i {
				c[j] = true
			}
		}
	}
	return
}()

const blk = 1 << 17

// block compares IsPrime with a segmented sieve on [lo,lo+blk).
func block(lo uint64, t *mc.T) error {
	comp := make([]bool, blk)
	hi := lo + blk
	for _, p := range small {
		if p*p >= hi {
			break
		}
		s := (lo + p - 1) / p * p
		if s < p*p {
			s = p * p
		}
		for j := s; j < hi; j += p {
			comp[j-lo] = true
		}
	}
	for i := uint64(0); i < blk; i++ {
		n := lo + i
		if n >= 1<<32 {
			break
		}
		want := n >= 2 && !comp[i]
		if prime.IsPrime(uint32(n)) != want {
			return fmt.Errorf("IsPrime(%d)=%v", n, !want)
		}
	}
	t.Steps += blk
	return nil
}

func trial(n uint64) bool {
	if n < 2 {
		return false
	}
	for _, p := range small {
		if p*p > n {
			break
		}
		if n%p == 0 {
			return false
		}
	}
	return true
}

func main() {
	mc.Main("C19", func(r *mc.Run) {
		top := uint64(1) << uint(r.Pick(30, 32))
		show := func(c mc.Case) string { return fmt.Sprintf("every n in [%d,%d)", c[0], c[0]+blk) }
		run := func(c mc.Case, t *mc.T) error { return block(uint64(c[0]), t) }
		r.Enumerate(mc.Enum{Name: "semiprimes", Bounds: "p*q<2^32 for every prime p<2^16 with q=p, the next 24 primes, and the 12 largest primes and numbers q with p*q<2^32; and both neighbours",
			Gen: func(emit func(mc.Case)) {
				for i := range small {
					if small[i] < 1<<16 {
						emit(mc.Case{i})
					}
				}
			},
			Show: func(c mc.Case) string { return fmt.Sprintf("multiples of %d", small[c[0]]) },
			Run: func(c mc.Case, t *mc.T) error {
				p := small[c[0]]
				try := func(n uint64) error {
					for d := uint64(0); d < 3; d++ {
						m := n + d - 1
						if m >= 1<<32 {
							continue
						}
						t.Steps++
						if prime.IsPrime(uint32(m)) != trial(m) {
							return fmt.Errorf("IsPrime(%d)=%v", m, !trial(m))
						}
					}
					return nil
				}
				for k := 0; k < 25; k++ {
					q := small[c[0]+k]
					if p*q < 1<<32 {
						if err := try(p * q); err != nil {
							return err
						}
					}
				}
				for k := uint64(0); k < 12; k++ {
					if q := (1<<32-1)/p - k; q >= 2 {
						if err := try(p * q); err != nil {
							return err
						}
					}
				}
				return nil
			}})
		// numbers that deceive probabilistic tests: factors with p-1 (or p+1) in small ratios
		r.Enumerate(mc.Enum{Name: "pseudoprimes", Bounds: "p*q<2^32 for every prime p<2^16 and q-1=(p-1)a/b or q+1=(p+1)a/b with a,b<=40; p*q*s with q-1, s-1 small multiples of p-1 (all Carmichael numbers of Chernick's form among them)",
			Gen: func(emit func(mc.Case)) {
				for i := range small {
					if small[i] < 1<<16 && i > 0 {
						emit(mc.Case{i})
					}
				}
			},
			Show: func(c mc.Case) string { return fmt.Sprintf("multiples of %d", small[c[0]]) },
			Run: func(c mc.Case, t *mc.T) error {
				p := small[c[0]]
				try := func(n uint64) error {
					if n < 1<<32 {
						t.Steps++
						if prime.IsPrime(uint32(n)) { // a product
							return fmt.Errorf("IsPrime(%d)=true", n)
						}
					}
					return nil
				}
				for a := uint64(1); a <= 40; a++ {
					for b := uint64(1); b <= 40 && b <= a; b++ {
						if (p-1)*a%b == 0 && (p-1)*a/b > 1 {
							q := (p-1)*a/b + 1
							if err := try(p * q); err != nil {
								return err
							}
							for k := uint64(1); b == 1 && k <= 120 && p*q < 1<<32; k++ {
								if err := try(p * q * ((p-1)*k + 1)); err != nil {
									return err
								}
							}
						}
						if (p+1)*a%b == 0 && (p+1)*a/b > 2 {
							if err := try(p * ((p+1)*a/b - 1)); err != nil {
								return err
							}
						}
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "range", Bounds: fmt.Sprintf("every n in [0,2^%d), compared with a segmented sieve", r.Pick(30, 32)), Show: show, Run: run,
			Gen: func(emit func(mc.Case)) {
				for lo := uint64(0); lo < top; lo += blk {
					emit(mc.Case{int(lo)})
				}
			}})
		if !r.Thorough() {
			r.Enumerate(mc.Enum{Name: "windows", Bounds: "windows of 2^17 numbers at the top, around every 2^k (k>=30), 3*2^k, and spread over the range", Show: show, Run: run,
				Gen: func(emit func(mc.Case)) {
					for k := uint64(1); k < 16; k++ {
						emit(mc.Case{int(k<<28 - blk)})
						emit(mc.Case{int(k << 28)})
						emit(mc.Case{int(k<<28 + 12345*k)})
					}
					for k := uint64(1); k <= 8; k++ {
						emit(mc.Case{int(1<<32 - k*blk)})
					}
				}})
		}
	})
}
