package main

import (
	"fmt"

	"github.com/vipally/gx/math/prime"
	"gxv/mc"
)

func main() {
	mc.Main("C20", func(r *mc.Run) {
		check := func(i uint64) error {
			s := uint64(prime.SqrtUint32(uint32(i)))
			// nearest integer: (s-1/2)^2 < i < (s+1/2)^2, i.e. s^2-s < i <= s^2+s (i=0: s=0)
			if i == 0 {
				if s != 0 {
					return fmt.Errorf("SqrtUint32(0)=%d", s)
				}
				return nil
			}
			if s > 65536 || !(s*s-s < i && i <= s*s+s) {
				return fmt.Errorf("SqrtUint32(%d)=%d is not the nearest integer", i, s)
			}
			return nil
		}
		r.Range("all uint32", "every uint32", 0, 1<<32-1, check)
	})
}
