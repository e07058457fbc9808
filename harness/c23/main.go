package main

import (
	"bytes"
	"crypto/aes"
	"fmt"

	gaes "github.com/vipally/gx/crypto/aes"
	"gxv/mc"
)

func key(n, kind int) []byte {
	k := make([]byte, n)
	for i := range k {
		switch kind {
		case 0:
			k[i] = byte(i*11 + 3)
		case 1:
			k[i] = 0
		case 2:
			k[i] = 0xff
		case 3:
			k[i] = byte(255 - i)
		}
	}
	return k
}

func msg(n, kind int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i*5 + n)
		case 1:
			b[i] = 0
		case 2:
			b[i] = byte(16 - n%16)
		case 3:
			b[i] = 0xff
		}
	}
	return b
}

// refCBC is CBC with PKCS7 done by hand over the AES block function; iv is updated.
func refCBC(k, iv, m []byte) []byte {
	blk, err := aes.NewCipher(k)
	if err != nil {
		panic(err)
	}
	p := 16 - len(m)%16
	d := append(append([]byte(nil), m...), bytes.Repeat([]byte{byte(p)}, p)...)
	out := make([]byte, len(d))
	for i := 0; i < len(d); i += 16 {
		for j := 0; j < 16; j++ {
			iv[j] ^= d[i+j]
		}
		blk.Encrypt(out[i:], iv)
		copy(iv, out[i:i+16])
	}
	return out
}

type sess struct {
	key, keep []byte
	iv        []byte
	e         *gaes.AESEncrypter
	d         *gaes.AESDecrypter
}

func open(k []byte) (*sess, error) {
	s := &sess{key: append([]byte(nil), k...), keep: k, iv: append([]byte(nil), k[:16]...)}
	var err error
	if s.e, err = gaes.NewAESEncrypter(s.key); err != nil {
		return nil, err
	}
	s.d, err = gaes.NewAESDecrypter(s.key)
	return s, err
}

// send encrypts one message; variant bit 0: string encryption.
func (s *sess) send(m []byte, variant int) ([]byte, error) {
	in := append(make([]byte, 0, len(m)+40), m...)
	tail := in[len(m):cap(in)]
	for i := range tail {
		tail[i] = 0x77
	}
	var c []byte
	if variant&1 == 0 {
		c = s.e.Encrypt(in)
	} else {
		c = s.e.EncryptString(string(m))
	}
	if !bytes.Equal(in, m) || bytes.Count(tail, []byte{0x77}) != len(tail) {
		return nil, fmt.Errorf("encryption modified its input")
	}
	if w := refCBC(s.keep, s.iv, m); !bytes.Equal(c, w) {
		return nil, fmt.Errorf("ciphertext of %d bytes is %x, want %x", len(m), c, w)
	}
	if !bytes.Equal(s.key, s.keep) {
		return nil, fmt.Errorf("key modified")
	}
	return c, nil
}

func (s *sess) recv(c, m []byte, variant int) error {
	keep := append([]byte(nil), c...)
	var got []byte
	if variant&2 == 0 {
		got = s.d.Decrypt(c)
	} else {
		got = []byte(s.d.DecryptToString(c))
	}
	if !bytes.Equal(got, m) {
		return fmt.Errorf("decrypted %x, want %x", got, m)
	}
	if !bytes.Equal(c, keep) || !bytes.Equal(s.key, s.keep) {
		return fmt.Errorf("decryption modified its input or key")
	}
	return nil
}

func main() {
	mc.Main("C23", func(r *mc.Run) {
		r.Assume = append(r.Assume, "crypto/aes of the standard library is the AES block function")
		lens := []int{0, 1, 15, 16, 17, 32, 33}
		kl := []int{16, 24, 32}
		maxM := r.Pick(4, 5)
		r.Enumerate(mc.Enum{Name: "message sequences", Bounds: fmt.Sprintf("3 key lengths, every sequence of up to %d messages with lengths in %v, each with byte or string variants on both sides, messages decrypted at once or all at the end", maxM, lens),
			Gen: func(emit func(mc.Case)) {
				for k := range kl {
					for late := 0; late < 2; late++ {
						for v := 0; v < 4; v++ {
							mc.Strings(len(lens), 0, maxM, func(c mc.Case) { emit(append(mc.Case{k, late, v}, c...)) })
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s, err := open(key(kl[c[0]], 0))
				if err != nil {
					return err
				}
				type pend struct {
					c, m []byte
					v    int
				}
				var q []pend
				for i, l := range c[3:] {
					m, v := msg(lens[l], i%4), c[2]
					if i%2 == 1 {
						v ^= 3
					}
					ct, err := s.send(m, v)
					if err != nil {
						return err
					}
					t.Steps += 2
					q = append(q, pend{ct, m, v})
					if c[1] == 0 {
						if err := s.recv(ct, m, v); err != nil {
							return err
						}
					}
				}
				if c[1] == 1 {
					for _, p := range q {
						if err := s.recv(p.c, p.m, p.v); err != nil {
							return err
						}
					}
				}
				return nil
			}})
		n := r.Pick(300, 2000)
		r.Enumerate(mc.Enum{Name: "lengths", Bounds: fmt.Sprintf("4 keys of each length, every message length 0..%d, 4 contents, followed by a second message", n),
			Gen: func(emit func(mc.Case)) { mc.Product(emit, 3, 4, n+1, 4) },
			Run: func(c mc.Case, t *mc.T) error {
				s, err := open(key(kl[c[0]], c[1]))
				if err != nil {
					return err
				}
				for i, m := range [][]byte{msg(c[2], c[3]), msg(c[2]%37, 0)} {
					ct, err := s.send(m, c[2]+i)
					if err == nil {
						err = s.recv(ct, m, c[2])
					}
					if err != nil {
						return err
					}
					t.Steps += 2
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "long messages", Bounds: fmt.Sprintf("3 key lengths, %d message lengths up to 2^20+1 around powers of two and ten (and 16 and 15 bytes more), a short message behind each; sessions of 3000 messages", len(mc.Texts)), Small: true,
			Gen: func(emit func(mc.Case)) {
				for k := range kl {
					for _, n := range mc.Texts {
						emit(mc.Case{k, n, 0, 1})
						emit(mc.Case{k, n + 15, 3, 1})
						emit(mc.Case{k, n/16*16 + 16, 1, 1})
					}
					emit(mc.Case{k, 0, 0, 3000})
					emit(mc.Case{k, 0, 2, 3000})
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				s, err := open(key(kl[c[0]], 0))
				if err != nil {
					return err
				}
				for i := 0; i <= c[3]; i++ {
					m := msg(c[1], 0)
					if i > 0 {
						m = msg(i%67, 0)
					}
					ct, err := s.send(m, c[2]+i)
					if err == nil {
						err = s.recv(ct, m, c[2])
					}
					if err != nil {
						if x := err.Error(); len(x) > 300 {
							err = fmt.Errorf("message %d: %s...", i, x[:300])
						}
						return err
					}
					t.Steps += 2
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "words", Bounds: "every message over {0,1,16,255} up to length 5, both variants",
			Gen: func(emit func(mc.Case)) { mc.Strings(4, 0, r.Pick(5, 7), emit) },
			Run: func(c mc.Case, t *mc.T) error {
				var m []byte
				for _, x := range c {
					m = append(m, []byte{0, 1, 16, 255}[x])
				}
				for _, l := range kl {
					s, err := open(key(l, 3))
					if err != nil {
						return err
					}
					for v := 0; v < 4; v++ {
						ct, err := s.send(m, v)
						if err == nil {
							err = s.recv(ct, m, v)
						}
						if err != nil {
							return err
						}
						t.Steps += 2
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "key lengths", Bounds: "every key length 0..300",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, 301) },
			Run: func(c mc.Case, t *mc.T) error {
				ok := c[0] == 16 || c[0] == 24 || c[0] == 32
				e, err1 := gaes.NewAESEncrypter(key(c[0], 0))
				d, err2 := gaes.NewAESDecrypter(key(c[0], 0))
				t.Steps += 2
				if (err1 == nil) != ok || (err2 == nil) != ok {
					return fmt.Errorf("key length %d: errors %v, %v", c[0], err1, err2)
				}
				if ok && (e == nil || d == nil) {
					return fmt.Errorf("nil object without error")
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "two sessions", Bounds: "every interleaving of 4+4 messages of two sessions with different keys (one key being a prefix of the other)",
			Gen: func(emit func(mc.Case)) { mc.Strings(2, 8, 8, emit) },
			Run: func(c mc.Case, t *mc.T) error {
				k := key(32, 0)
				a, err := open(k[:16:16])
				if err != nil {
					return err
				}
				b, err := open(k)
				if err != nil {
					return err
				}
				for i, w := range c {
					s := a
					if w == 1 {
						s = b
					}
					m := msg(i*3, 0)
					ct, err := s.send(m, i)
					if err == nil {
						err = s.recv(ct, m, i)
					}
					if err != nil {
						return err
					}
					t.Steps += 2
				}
				return nil
			}})
	})
}
