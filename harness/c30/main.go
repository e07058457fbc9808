// C30: extended durations.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	xtime "github.com/vipally/gx/time"
	"gxv/mc"
)

const day = 24 * int64(time.Hour)

func expect(d int64) string {
	if d < day {
		return time.Duration(d).String()
	}
	return strconv.FormatInt(d/day, 10) + "d" + time.Duration(d%day).String()
}

// near tells whether got is d/unit up to rounding.
func near(got float64, d, unit int64) bool {
	q := new(big.Rat).SetFrac64(d, unit)
	g := new(big.Rat).SetFloat64(got)
	if g == nil {
		return false
	}
	diff := new(big.Rat).Sub(q, g)
	diff.Abs(diff)
	lim := new(big.Rat).Abs(q)
	lim.Mul(lim, new(big.Rat).SetFrac64(1, 1<<50))
	return diff.Cmp(lim) <= 0
}

func strs(d int64) error {
	x := xtime.Duration(d)
	if s := x.String(); s != expect(d) {
		return fmt.Errorf("String of %d: %q, expected %q", d, s, expect(d))
	}
	return nil
}

// back reads a printed duration independently of the package.
func back(s string) (int64, bool) {
	var days int64
	if i := strings.IndexByte(s, 'd'); i >= 0 {
		n, err := strconv.ParseInt(s[:i], 10, 64)
		if err != nil {
			return 0, false
		}
		days, s = n, s[i+1:]
	}
	d, err := time.ParseDuration(s)
	return days*day + int64(d), err == nil
}

func check(d int64) error {
	x := xtime.Duration(d)
	if err := strs(d); err != nil {
		return err
	}
	if v, ok := back(x.String()); !ok || v != d {
		return fmt.Errorf("the printed form %q of %d reads as %d", x.String(), d, v)
	}
	if s := fmt.Sprint(x); s != expect(d) {
		return fmt.Errorf("Sprint of %d: %q, expected %q", d, s, expect(d))
	}
	if int64(x.Std()) != d {
		return fmt.Errorf("Std of %d: %d", d, x.Std())
	}
	for _, c := range []struct {
		n    string
		v    float64
		unit int64
	}{{"Weeks", x.Weeks(), 7 * day}, {"Days", x.Days(), day}, {"Hours", x.Hours(), day / 24}, {"Minutes", x.Minutes(), day / 24 / 60}, {"Seconds", x.Seconds(), 1e9}} {
		if !near(c.v, d, c.unit) {
			return fmt.Errorf("%s of %d: %v", c.n, d, c.v)
		}
	}
	return nil
}

func main() {
	mc.Main("C30", func(r *mc.Run) {
		r.Enumerate(mc.Enum{Name: "constants", Bounds: "every exported unit", Gen: func(emit func(mc.Case)) { emit(mc.Case{0}) }, Run: func(c mc.Case, t *mc.T) error {
			for _, u := range []struct {
				n    string
				v    xtime.Duration
				want time.Duration
			}{{"Nanosecond", xtime.Nanosecond, 1}, {"Microsecond", xtime.Microsecond, 1000}, {"Millisecond", xtime.Millisecond, 1e6}, {"Second", xtime.Second, 1e9},
				{"Minute", xtime.Minute, 60e9}, {"Hour", xtime.Hour, 3600e9}, {"Day", xtime.Day, 86400e9}, {"Week", xtime.Week, 7 * 86400e9}} {
				t.Steps++
				if u.v.Std() != u.want {
					return fmt.Errorf("%s is %d", u.n, u.v)
				}
			}
			return nil
		}})
		// remainders around every unit boundary
		var rem []int64
		for _, u := range []int64{1, 999, 1e3, 1e6, 1e9, 60e9, 3600e9, 86400e9} {
			for _, k := range []int64{1, 2, 9, 10, 11, 59, 60} {
				for _, e := range []int64{-1, 0, 1} {
					if v := u*k + e; v >= 0 && v < day {
						rem = append(rem, v)
					}
				}
			}
		}
		rem = append(rem, 0, day-1, day/2, 1500000000, 1001001001, 90061000000001, 123456789)
		r.Range("days", "every whole number of days 0..106751 with remainders around every unit boundary, both signs", 0, 106751, func(i uint64) error {
			for _, x := range rem {
				d := int64(i)*day + x
				if d < 0 { // beyond the type
					continue
				}
				if err := strs(d); err != nil {
					return err
				}
			}
			return check(int64(i)*day + rem[i%uint64(len(rem))])
		})
		r.Enumerate(mc.Enum{Name: "boundaries", Bounds: "every +-(2^k+-1), +-(10^k+-1), unit multiples +-2 and the extremes: String, Sprint, reading back, unit conversions", Gen: func(emit func(mc.Case)) {
			both := func(v int64) { emit(mc.Case{int(v)}); emit(mc.Case{int(-v)}) }
			for k := uint(0); k < 63; k++ {
				for e := int64(-2); e <= 2; e++ {
					both(1<<k + e)
				}
			}
			p := int64(1)
			for k := 0; k < 18; k++ {
				for e := int64(-2); e <= 2; e++ {
					both(p + e)
				}
				p *= 10
			}
			for _, u := range []int64{1e3, 1e6, 1e9, 60e9, 3600e9, day, 7 * day} {
				for k := int64(0); k < 1200; k++ {
					for e := int64(-2); e <= 2; e++ {
						both(u*k + e)
					}
				}
			}
			both(math.MaxInt64)
			emit(mc.Case{math.MinInt64})
		}, Run: func(c mc.Case, t *mc.T) error {
			t.Steps += 8
			return check(int64(c[0]))
		}})
		r.Range("seconds", "every whole number of seconds of -1..4 (thorough -40..40) days", 0, uint64(r.Pick(5, 80)*86400), func(i uint64) error {
			return strs((int64(i) - int64(r.Pick(1, 40)*86400)) * 1e9)
		})
		al := []string{"0", "1", ".", "h", "m", "s", "n", "-", "+", "d", " ", "µ", "u"}
		word := func(c mc.Case) string {
			var b strings.Builder
			for _, x := range c {
				b.WriteString(al[x])
			}
			return b.String()
		}
		r.Enumerate(mc.Enum{Name: "parse", Bounds: fmt.Sprintf("ParseDuration of every word over %v up to length %d", al, r.Pick(5, 6)), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(al), 0, r.Pick(5, 6), emit)
		}, Show: func(c mc.Case) string { return strconv.Quote(word(c)) }, Run: func(c mc.Case, t *mc.T) error {
			t.Steps++
			w := word(c)
			g, e1 := xtime.ParseDuration(w)
			s, e2 := time.ParseDuration(w)
			if (e1 == nil) != (e2 == nil) || e2 == nil && int64(g) != int64(s) {
				return fmt.Errorf("ParseDuration %q: %d %v, standard library %d %v", w, g, e1, s, e2)
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "parse printed", Bounds: "ParseDuration of the standard printed form of the boundary values", Gen: func(emit func(mc.Case)) {
			for k := uint(0); k < 63; k++ {
				for e := int64(-2); e <= 2; e++ {
					emit(mc.Case{int(1<<k + e)})
					emit(mc.Case{-int(1<<k + e)})
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			t.Steps++
			w := time.Duration(c[0]).String()
			if g, err := xtime.ParseDuration(w); err != nil || int64(g) != int64(c[0]) {
				return fmt.Errorf("ParseDuration %q: %d %v, expected %d", w, g, err, c[0])
			}
			return nil
		}})
		r.Assume = append(r.Assume, "time.Duration of the standard library is the reference below one day")
	})
}
