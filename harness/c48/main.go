// C48: random strings.
package main

import (
	"fmt"

	gstr "github.com/vipally/gx/strings"
	"gxv/mc"
)

var flags = []gstr.Rule{gstr.RULE_LIMIT_LEN, gstr.RULE_NUMBER, gstr.RULE_LETTER, gstr.RULE_LETTER_UPPER, gstr.RULE_LETTER_LOWER, gstr.RULE_SYMBOL}

// lows are the length limits a rule may carry in its low half.
var lows = []gstr.Rule{0, 1, 7, 10, 1<<16 - 1}

func rule(c int) (r gstr.Rule) {
	for i, f := range flags {
		if c>>uint(i)&1 == 1 {
			r |= f
		}
	}
	return
}

// shape checks one result and counts its letters.
func shape(s string, n int, seen *[26]int) error {
	if len(s) != n {
		return fmt.Errorf("a string of %d bytes, expected %d", len(s), n)
	}
	for i := 0; i < len(s); i++ {
		k := s[i] - 'A'
		if k > 25 {
			return fmt.Errorf("byte %d of %d is %q", i, n, s[i])
		}
		seen[k]++
	}
	return nil
}

func main() {
	mc.Main("C48", func(r *mc.Run) {
		r.Enumerate(mc.Enum{Name: "rules and lengths", Serial: true, Bounds: fmt.Sprintf("every combination of the %d rule flags and %d length limits, every length 0..260: exact length, only upper-case letters, and the strings returned before stay as they were", len(flags), len(lows)), Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 1<<uint(len(flags)), len(lows))
		}, Show: func(c mc.Case) string { return fmt.Sprintf("rule %#x", uint(rule(c[0])|lows[c[1]])) }, Run: func(c mc.Case, t *mc.T) error {
			ru := rule(c[0]) | lows[c[1]]
			var seen [26]int
			var all []string
			var keep []byte
			for n := 0; n <= 260; n++ {
				s := gstr.Rand(ru, n)
				t.Steps++
				if err := shape(s, n, &seen); err != nil {
					return fmt.Errorf("Rand(%#x,%d): %v", uint(ru), n, err)
				}
				all = append(all, s)
				keep = append(keep, s...)
			}
			p := 0
			for n, s := range all {
				if s != string(keep[p:p+n]) {
					return fmt.Errorf("the string of Rand(%#x,%d) was changed by later calls", uint(ru), n)
				}
				p += n
			}
			for k, n := range seen {
				if n == 0 {
					return fmt.Errorf("rule %#x never draws %q in %d letters", uint(ru), 'A'+k, len(keep))
				}
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "long strings", Serial: true, Bounds: "lengths 2^k-1, 2^k, 2^k+1 up to 2^24 (thorough 2^29), rules NONE, NORMAL and STRONG; from 2^12 letters on, every letter occurs, and no aligned block of 16 letters is repeated within 2^20", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, r.Pick(25, 30), 3, 3)
		}, Run: func(c mc.Case, t *mc.T) error {
			n := 1<<uint(c[0]) - 1 + c[1]
			ru := []gstr.Rule{gstr.RULE_NONE, gstr.RULE_NORMAL, gstr.RULE_STRONG}[c[2]]
			var seen [26]int
			t.Steps += int64(n)
			s := gstr.Rand(ru, n)
			if err := shape(s, n, &seen); err != nil {
				return fmt.Errorf("Rand(%#x,%d): %v", uint(ru), n, err)
			}
			for from := 0; from < n; from += 1 << 20 { // no 16 letters again within a million
				to := from + 1<<20
				if to > n {
					to = n
				}
				at := map[string]int{}
				for i := from; i+16 <= to; i += 16 {
					if j, ok := at[s[i:i+16]]; ok {
						return fmt.Errorf("Rand(%#x,%d): letters %d and %d onwards are both %s", uint(ru), n, j, i, s[i:i+16])
					}
					at[s[i:i+16]] = i
				}
			}
			for k, x := range seen {
				if x == 0 && n >= 1<<12 {
					return fmt.Errorf("no %q in %d letters", 'A'+k, n)
				}
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "no repetition", Serial: true, Bounds: "20000 (thorough 200000) strings of each length 16..40: all different", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 25)
		}, Run: func(c mc.Case, t *mc.T) error {
			n := 16 + c[0]
			seen := map[string]int{}
			for i := 0; i < r.Pick(20000, 200000); i++ {
				s := gstr.Rand(gstr.RULE_NORMAL, n)
				t.Steps++
				if j, ok := seen[s]; ok {
					return fmt.Errorf("calls %d and %d for %d letters both give %s", j, i, n, s)
				}
				seen[s] = i
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "states of the generator", Serial: true, Bounds: "2^29 (thorough 2^32) letters in one sequence, in strings of 2^20: the generator passes all states of its cycle, every draw is a letter", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, r.Pick(1<<9, 1<<12))
		}, Run: func(c mc.Case, t *mc.T) error {
			var seen [26]int
			t.Steps += 1 << 20
			return shape(gstr.Rand(gstr.RULE_STRONG, 1<<20), 1<<20, &seen)
		}})
		r.Assume = append(r.Assume, "the seed is taken from the clock: the sequence is explored from the seed of this run")
	})
}
