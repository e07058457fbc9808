// C31: triple DES in ECB mode.
package main

import (
	"bytes"
	"crypto/des"
	"fmt"

	"gitee.com/vipally/gx/crypto/ecb"
	"gxv/mc"
)

// The reference: the standard library's 3DES-EDE block by block over zero padded text.
func ref(key, text []byte) []byte {
	k := make([]byte, 24)
	copy(k, key)
	b, err := des.NewTripleDESCipher(k)
	if err != nil {
		panic(err)
	}
	pad := 8 - len(text)%8
	in := append(append([]byte{}, text...), make([]byte, pad)...)
	out := make([]byte, len(in))
	for i := 0; i < len(in); i += 8 {
		b.Encrypt(out[i:], in[i:])
	}
	return out
}

func refDec(key, text []byte) []byte {
	k := make([]byte, 24)
	copy(k, key)
	b, _ := des.NewTripleDESCipher(k)
	out := make([]byte, len(text))
	for i := 0; i < len(text); i += 8 {
		b.Decrypt(out[i:], text[i:])
	}
	return bytes.TrimRight(out, "\x00")
}

// guarded puts b into a larger array, so that writes behind it are seen.
func guarded(b []byte) (s, whole []byte) {
	whole = bytes.Repeat([]byte{0xA5}, len(b)+48)
	copy(whole[16:], b)
	return whole[16 : 16+len(b) : len(whole)], whole
}

func check(key, text []byte, t *mc.T) error {
	k, kw := guarded(key)
	x, xw := guarded(text)
	k0, x0 := append([]byte{}, kw...), append([]byte{}, xw...)
	c, err := ecb.TripleDesEncrypt(x, k)
	if err != nil {
		return fmt.Errorf("encrypt: %v", err)
	}
	if w := ref(key, text); !bytes.Equal(c, w) {
		return fmt.Errorf("encrypt gives %x, standard 3DES-EDE %x", c, w)
	}
	if !bytes.Equal(kw, k0) || !bytes.Equal(xw, x0) {
		return fmt.Errorf("encrypt changed its inputs (or memory behind them)")
	}
	e, ew := guarded(c)
	e0 := append([]byte{}, ew...)
	p, err := ecb.TripleDesDecrypt(e, k)
	if err != nil {
		return fmt.Errorf("decrypt: %v", err)
	}
	if w := bytes.TrimRight(text, "\x00"); !bytes.Equal(p, w) {
		return fmt.Errorf("decrypt gives %x, expected %x", p, w)
	}
	if !bytes.Equal(kw, k0) || !bytes.Equal(ew, e0) {
		return fmt.Errorf("decrypt changed its inputs (or memory behind them)")
	}
	c[0] ^= 1 // the results share no memory with the inputs
	if len(p) > 0 {
		p[0] ^= 1
	}
	if !bytes.Equal(kw, k0) || !bytes.Equal(ew, e0) || !bytes.Equal(xw, x0) {
		return fmt.Errorf("a result shares memory with an input")
	}
	t.Steps += 2
	return nil
}

func pattern(n, p int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch p {
		case 0:
			b[i] = byte(i + 1)
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xFF
		case 3:
			b[i] = byte(i*37 + 11)
		case 4: // zeros inside and at the end
			b[i] = byte(i % 3)
		case 5:
			b[i] = byte(200 - i*7)
		case 6: // multi-byte runes
			b[i] = "\xe4\xb8\x96\x00\xc2\x80"[i%6]
		}
	}
	return b
}

func main() {
	mc.Main("C31", func(r *mc.Run) {
		const pats = 7
		maxText := r.Pick(41, 97)
		r.Enumerate(mc.Enum{Name: "lengths", Bounds: fmt.Sprintf("key length 0..32 x %d patterns x text length 0..%d x %d patterns", pats, maxText-1, pats), Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 33, pats, maxText, pats)
		}, Show: func(c mc.Case) string {
			return fmt.Sprintf("key %x text %x", pattern(c[0], c[1]), pattern(c[2], c[3]))
		}, Run: func(c mc.Case, t *mc.T) error {
			return check(pattern(c[0], c[1]), pattern(c[2], c[3]), t)
		}})
		r.Enumerate(mc.Enum{Name: "long texts", Bounds: fmt.Sprintf("%d text lengths up to 2^20+1 around powers of two and ten (and rounded up to whole blocks), 3 patterns, key lengths 16 and 24", len(mc.Texts)), Small: true, Gen: func(emit func(mc.Case)) {
			for i, n := range mc.Texts {
				for p := 0; p < r.Pick(1, 3); p++ {
					for k := 0; k < 2; k++ {
						if r.Thorough() || n < 70000 || (i+k)%3 == 0 {
							emit(mc.Case{16 + 8*k, n, (p*3 + 3) % pats})
							emit(mc.Case{16 + 8*k, n + 8 - n%8, (p*3 + 3) % pats})
						}
					}
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			err := check(pattern(c[0], 3), pattern(c[1], c[2]), t)
			if err != nil && len(err.Error()) > 300 {
				err = fmt.Errorf("%s...", err.Error()[:300])
			}
			return err
		}})
		al := []byte{0, 1, 0x80, 0xff}
		mk := func(c mc.Case) []byte {
			b := make([]byte, len(c))
			for i, x := range c {
				b[i] = al[x]
			}
			return b
		}
		r.Enumerate(mc.Enum{Name: "texts", Bounds: fmt.Sprintf("every text over {00,01,80,ff} up to length %d, fixed key", r.Pick(8, 10)), Gen: func(emit func(mc.Case)) {
			mc.Strings(4, 0, r.Pick(8, 10), emit)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("%x", mk(c)) }, Run: func(c mc.Case, t *mc.T) error {
			return check(pattern(24, 3), mk(c), t)
		}})
		r.Enumerate(mc.Enum{Name: "text after a block", Bounds: "a whole block followed by every text over {00,01,80,ff} up to length 6", Gen: func(emit func(mc.Case)) {
			mc.Strings(4, 0, 6, emit)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("%x", mk(c)) }, Run: func(c mc.Case, t *mc.T) error {
			return check(pattern(24, 0), append(pattern(8, 5), mk(c)...), t)
		}})
		r.Enumerate(mc.Enum{Name: "key bits", Bounds: "every single and double bit change of a 24 byte key", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 192, 192)
		}, Run: func(c mc.Case, t *mc.T) error {
			k := pattern(24, 3)
			k[c[0]/8] ^= 1 << uint(c[0]%8)
			if c[1] != c[0] {
				k[c[1]/8] ^= 1 << uint(c[1]%8)
			}
			return check(k, pattern(13, 0), t)
		}})
		r.Enumerate(mc.Enum{Name: "text bytes", Bounds: "every byte value at every position of texts of length 1..17", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 17, 17, 256)
		}, Run: func(c mc.Case, t *mc.T) error {
			if c[1] > c[0] {
				return nil
			}
			x := pattern(c[0]+1, 5)
			x[c[1]] = byte(c[2])
			return check(pattern(24, 5), x, t)
		}})
		r.Enumerate(mc.Enum{Name: "ciphertexts", Bounds: "decryption of every ciphertext length 0..65 x patterns x key lengths: empty and partial blocks are errors, whole blocks give the standard decryption", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 66, pats, 27)
		}, Run: func(c mc.Case, t *mc.T) error {
			x, k := pattern(c[0], c[1]), pattern(c[2], 3)
			x0 := append([]byte{}, x...)
			t.Steps++
			p, err := ecb.TripleDesDecrypt(x, k)
			if !bytes.Equal(x, x0) {
				return fmt.Errorf("input changed")
			}
			if len(x) == 0 || len(x)%8 != 0 {
				if err == nil {
					return fmt.Errorf("ciphertext of %d bytes accepted: %x", len(x), p)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("ciphertext of %d bytes: %v", len(x), err)
			}
			if w := refDec(k, x); !bytes.Equal(p, w) {
				return fmt.Errorf("decrypt gives %x, standard %x", p, w)
			}
			return nil
		}})
		r.Assume = append(r.Assume, "crypto/des of the standard library is the reference for the block function")
	})
}
