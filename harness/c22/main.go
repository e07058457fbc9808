package main

import (
	"bytes"
	"fmt"

	"github.com/vipally/gx/crypto"
	gaes "github.com/vipally/gx/crypto/aes"
	"gxv/mc"
)

type scheme struct {
	name  string
	pad   func([]byte, int) []byte
	unpad func([]byte) []byte
	zero  bool
}

var schemes = []scheme{
	{"ZeroPadding", crypto.ZeroPadding, crypto.ZeroUnPadding, true},
	{"PKCS5Padding", crypto.PKCS5Padding, crypto.PKCS5UnPadding, false},
	{"PKCS7Padding", gaes.PKCS7Padding, gaes.PKCS7Unpadding, false},
	{"PKCS7PaddingString", func(b []byte, n int) []byte { return gaes.PKCS7PaddingString(string(b), n) }, gaes.PKCS7Unpadding, false},
}

const guard = 0xC7

// check pads msg (with spare capacity behind it) and unpads the result.
func check(s scheme, msg []byte, blk, spare int, t *mc.T) error {
	mem := make([]byte, len(msg)+spare+8)
	for i := range mem {
		mem[i] = guard
	}
	copy(mem[4:], msg)
	in := mem[4 : 4+len(msg) : 4+len(msg)+spare]
	keep := append([]byte(nil), mem...)
	out := s.pad(in, blk)
	t.Steps += 2
	if !bytes.Equal(mem, keep) {
		return fmt.Errorf("%s changed the caller's memory (length %d, block %d, spare %d)", s.name, len(msg), blk, spare)
	}
	n := (len(msg)/blk + 1) * blk
	if len(out) != n {
		return fmt.Errorf("%s(%d bytes, block %d) has length %d, want %d", s.name, len(msg), blk, len(out), n)
	}
	fill := byte(n - len(msg))
	if s.zero {
		fill = 0
	}
	for i, b := range out {
		w := fill
		if i < len(msg) {
			w = msg[i]
		}
		if b != w {
			return fmt.Errorf("%s(%d bytes, block %d)[%d]=%#x, want %#x", s.name, len(msg), blk, i, b, w)
		}
	}
	outKeep := append([]byte(nil), out...)
	back := s.unpad(out)
	want := msg
	if s.zero {
		want = bytes.TrimRight(msg, "\x00")
	}
	if !bytes.Equal(back, want) {
		return fmt.Errorf("%s: unpadding gives %d bytes, want %d (block %d)", s.name, len(back), len(want), blk)
	}
	if !bytes.Equal(out, outKeep) || !bytes.Equal(mem, keep) {
		return fmt.Errorf("%s: unpadding changed its input", s.name)
	}
	return nil
}

func content(kind, n, blk int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*7 + 1)
		case 1:
			b[i] = 0
		case 2:
			b[i] = byte(blk - n%blk) // looks like padding
		case 3:
			b[i] = 0xff
		case 4:
			b[i] = byte(i)
			if i >= n-3 {
				b[i] = 0
			}
		case 5:
			b[i] = []byte{0xC0, 0x80, 0xE2, 0x82, 0xAC}[i%5] // multi-byte and overlong sequences
		}
	}
	return b
}

func main() {
	mc.Main("C22", func(r *mc.Run) {
		r.Assume = append(r.Assume, "block sizes 1..255, as stated")
		n := r.Pick(530, 1100)
		r.Enumerate(mc.Enum{Name: "sizes", Bounds: fmt.Sprintf("every block size 1..255, every length 0..%d, 6 contents, spare capacity 0/1/7/300 behind the slice, all 4 schemes", n),
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(schemes), 255, 6) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%s block %d content kind %d, every length", schemes[c[0]].name, c[1]+1, c[2]) },
			Run: func(c mc.Case, t *mc.T) error {
				for l := 0; l <= n; l++ {
					m := content(c[2], l, c[1]+1)
					for _, sp := range []int{0, 300} {
						if l%3 == 0 {
							sp = sp/2 + 1
						} else if l%7 == 1 {
							sp = c[1] + 1 - l%(c[1]+1)
						}
						if err := check(schemes[c[0]], m, c[1]+1, sp, t); err != nil {
							return err
						}
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "long messages", Bounds: fmt.Sprintf("every block size 1..255, %d lengths up to 2^20+1 (each also rounded up to a whole block), 2 contents, all 4 schemes", len(mc.Texts)), Small: true,
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(schemes), 255, r.Pick(1, 2)) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%s block %d, long messages", schemes[c[0]].name, c[1]+1) },
			Run: func(c mc.Case, t *mc.T) error {
				b := c[1] + 1
				for i, l := range mc.Texts {
					if !r.Thorough() && l > 70000 && (i+b)%8 != 0 {
						continue
					}
					for _, l := range []int{l, l + b - l%b} {
						if err := check(schemes[c[0]], content(c[2]*2, l, b), b, l%3, t); err != nil {
							return err
						}
					}
				}
				return nil
			}})
		k := r.Pick(7, 9)
		al := []byte{0, 1, 2, 0x80, 0xff}
		r.Enumerate(mc.Enum{Name: "words", Bounds: fmt.Sprintf("every byte string over {0,1,2,0x80,0xff} up to length %d, block sizes 1..9, spare 0..9, all schemes", k),
			Gen: func(emit func(mc.Case)) { mc.Strings(len(al), 0, k, emit) },
			Run: func(c mc.Case, t *mc.T) error {
				m := make([]byte, len(c))
				for i, x := range c {
					m[i] = al[x]
				}
				for b := 1; b <= 9; b++ {
					for _, s := range schemes {
						for _, sp := range []int{0, b, 12} {
							if err := check(s, m, b, sp, t); err != nil {
								return err
							}
						}
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "last bytes", Bounds: "every value of the last byte(s), every length 0..40, blocks 1..32",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, 256, 41) },
			Run: func(c mc.Case, t *mc.T) error {
				m := make([]byte, c[1])
				for i := range m {
					m[i] = byte(i)
					if i >= c[1]-2 {
						m[i] = byte(c[0])
					}
				}
				for b := 1; b <= 32; b++ {
					for _, s := range schemes {
						if err := check(s, m, b, 33, t); err != nil {
							return err
						}
					}
				}
				return nil
			}})
	})
}
