package main

import (
	"fmt"
	"runtime"
	"strings"
	std "unsafe"

	gx "github.com/vipally/gx/unsafe"
	"gxv/mc"
)

func addrS(s string) uintptr { return uintptr(std.Pointer(std.StringData(s))) }
func addrB(b []byte) uintptr { return uintptr(std.Pointer(std.SliceData(b))) }

func fill(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*k + k + 1)
	}
	return b
}

// views checks all conversions of the window [lo,hi) with capacity to cp of base.
func views(base []byte, lo, hi, cp int, t *mc.T) error {
	b := base[lo:hi:cp]
	n := hi - lo
	s := gx.BytesString(b)
	if len(s) != n || string(s) != string(b) {
		return fmt.Errorf("BytesString of %d bytes: length %d or wrong contents", n, len(s))
	}
	if n > 0 && addrS(string(s)) != addrB(b) {
		return fmt.Errorf("BytesString copied the memory")
	}
	c := gx.StringBytes(string(s))
	if len(c) != n || string(c) != string(b) {
		return fmt.Errorf("StringBytes of %d bytes: length %d or wrong contents", n, len(c))
	}
	if cap(c) != n || n > 0 && addrB(c) != addrB(b) {
		return fmt.Errorf("StringBytes: capacity %d for %d bytes, same memory %v", cap(c), n, addrB(c) == addrB(b))
	}
	if n > 0 {
		p := addrB(b)
		if uintptr(gx.BytesPointer(b)) != p || uintptr(gx.StringPointer(string(s))) != p || uintptr(gx.Bytes(b).Pointer()) != p || uintptr(s.Pointer()) != p || uintptr(c.Pointer()) != p {
			return fmt.Errorf("a pointer helper does not return the address of the first byte")
		}
	}
	t.Steps += 8
	// every write is seen by every alias at exactly that position
	for i := 0; i < n; i++ {
		for w := 0; w < 2; w++ {
			want := []byte(string(base))
			v := byte(0xA0 + w + i*3)
			if w == 0 {
				c[i] = v
			} else {
				b[i] = v
			}
			want[lo+i] = v
			if string(base) != string(want) || string(s) != string(want[lo:hi]) || string(c) != string(want[lo:hi]) {
				return fmt.Errorf("write at %d of %d not seen at exactly that position", i, n)
			}
			t.Steps++
		}
	}
	return nil
}

const lit = "a literal of the program, long enough to have many substrings"

var lits = []string{"x", "hello", lit, "日本語", "\x00\x01", "with\nnewline", strings.Repeat("", 1) + lit[3:20]}

func main() {
	mc.Main("C25", func(r *mc.Run) {
		r.Assume = append(r.Assume, "the program is a default (non-PIE) build, where literals lie below the heap")
		n := r.Pick(14, 24)
		r.Enumerate(mc.Enum{Name: "windows", Bounds: fmt.Sprintf("every window (start, end, capacity) of buffers of 0..%d bytes, written through every alias at every position", n),
			Gen: func(emit func(mc.Case)) {
				for l := 0; l <= n; l++ {
					for a := 0; a <= l; a++ {
						for b := a; b <= l; b++ {
							for c := b; c <= l; c++ {
								emit(mc.Case{l, a, b, c})
							}
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error { return views(fill(c[0], 3), c[1], c[2], c[3], t) }})
		r.Enumerate(mc.Enum{Name: "sizes", Bounds: "every buffer size up to 300 and 2^k+-1 up to 2^17: full window, and strings made on the heap",
			Gen: func(emit func(mc.Case)) {
				for l := 0; l <= 300; l++ {
					emit(mc.Case{l})
				}
				for k := uint(9); k <= 17; k++ {
					for d := -1; d <= 1; d++ {
						emit(mc.Case{1<<k + d})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				l := c[0]
				if l <= 300 {
					if err := views(fill(l, 5), 0, l, l, t); err != nil {
						return err
					}
				}
				s := string(fill(l, 7)) // heap string
				keep := strings.Clone(s)
				b := gx.StringBytes(s)
				if len(b) != l || cap(b) != l || (l > 0 && addrB(b) != addrS(s)) || string(b) != keep {
					return fmt.Errorf("StringBytes of a %d byte string", l)
				}
				bs := gx.BytesString(b)
				if string(bs) != keep || (l > 0 && addrS(string(bs)) != addrS(s)) {
					return fmt.Errorf("BytesString of %d bytes", l)
				}
				t.Steps += 2
				if l > 1 { // one-byte strings live in a read-only table of the runtime
					b[l-1] ^= 0xff
					b[0] ^= 0x0f
					if s[l-1] != b[l-1] || s[0] != b[0] || (l > 2 && s[1:l-1] != keep[1:l-1]) {
						return fmt.Errorf("write to a %d byte string not seen", l)
					}
				}
				runtime.KeepAlive(s)
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "literals", Bounds: "every substring of the program's literals is not writeable; its conversions alias it",
			Gen: func(emit func(mc.Case)) {
				for i, s := range lits {
					for a := 0; a < len(s); a++ {
						for b := a + 1; b <= len(s); b++ {
							emit(mc.Case{i, a, b})
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s := lits[c[0]][c[1]:c[2]]
				b := gx.StringBytes(s)
				if len(b) != len(s) || cap(b) != len(s) || addrB(b) != addrS(s) || string(b) != s {
					return fmt.Errorf("StringBytes of a literal")
				}
				if gx.BytesString(b) != gx.String(s) || uintptr(gx.StringPointer(s)) != addrS(s) {
					return fmt.Errorf("conversion of a literal")
				}
				if b.Writeable() || gx.String(s).Writeable() || gx.Writeable(gx.StringPointer(s)) || gx.Writeable(b.Pointer()) {
					return fmt.Errorf("literal reported writeable")
				}
				t.Steps += 7
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "heap", Bounds: "objects of every size class, several rounds with garbage collections between them, all reported writeable by all four helpers", Serial: true,
			Gen: func(emit func(mc.Case)) { mc.Product(emit, r.Pick(6, 20)) },
			Run: func(c mc.Case, t *mc.T) error {
				var keep [][]byte
				for sz := 1; sz < 70000; sz = sz*9/8 + 1 {
					for k := 0; k < 40; k++ {
						b := make([]byte, sz)
						keep = append(keep, b)
						s := gx.BytesString(b)
						t.Steps += 4
						if !gx.Bytes(b).Writeable() || !s.Writeable() || !gx.Writeable(gx.BytesPointer(b)) || !gx.StringBytes(string(s)).Writeable() {
							return fmt.Errorf("heap object of %d bytes reported not writeable", sz)
						}
					}
				}
				runtime.KeepAlive(keep)
				keep = nil
				runtime.GC()
				return nil
			}})
	})
}
