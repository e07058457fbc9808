package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"math"

	gxhash "github.com/vipally/gx/hash"
	"gxv/mc"
)

var methods = []gxhash.HashMethod{gxhash.NONE, gxhash.MD5, gxhash.SHA1, gxhash.SHA256, gxhash.SHA512, gxhash.CRC32, gxhash.CRC64, gxhash.FINGERPRINT}
var names = []string{"NONE", "MD5", "SHA1", "SHA256", "SHA512", "CRC32", "CRC64", "FINGERPRINT"}
var sizes = []int{-1, 16, 20, 32, 64, 4, 8, 24}

// crc64 and crc32 by the bitwise definition (independent of the tables).
func crc64iso(b []byte) uint64 {
	c := ^uint64(0)
	for _, x := range b {
		c ^= uint64(x)
		for i := 0; i < 8; i++ {
			c = c>>1 ^ (c&1)*0xD800000000000000
		}
	}
	return ^c
}

func crc32ieee(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			c = c>>1 ^ (c&1)*0xEDB88320
		}
	}
	return ^c
}

func ref(m int, d []byte) []byte {
	switch m {
	case 1:
		s := md5.Sum(d)
		return s[:]
	case 2:
		s := sha1.Sum(d)
		return s[:]
	case 3:
		s := sha256.Sum256(d)
		return s[:]
	case 4:
		s := sha512.Sum512(d)
		return s[:]
	case 5:
		return binary.BigEndian.AppendUint32(nil, crc32ieee(d))
	case 6:
		return binary.BigEndian.AppendUint64(nil, crc64iso(d))
	case 7:
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(d)))
		r := append([]byte(nil), l[2:]...)
		r = append(r, ref(1, d)[4:10]...)
		r = append(r, ref(2, d)[7:13]...)
		return append(r, ref(6, d)[1:7]...)
	}
	return nil
}

func pattern(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*k + i>>8 + k)
	}
	return b
}

var chunks = [][]byte{nil, []byte("a"), {0xff, 0, 'b'}, pattern(65, 3)}

const nOps = 4 + 3 // writes, Sum(nil), Sum(buf), Reset

func opName(o int) string {
	if o < len(chunks) {
		return fmt.Sprintf("Write(%d bytes)", len(chunks[o]))
	}
	return []string{"Sum(nil)", "Sum(buf)", "Reset"}[o-len(chunks)]
}

type obj struct {
	m    int
	h    hash.Hash
	d    []byte
	none []byte
}

func newObj(m int) (*obj, error) {
	o := &obj{m: m, h: gxhash.New(methods[m])}
	if o.h == nil {
		return nil, fmt.Errorf("New returned nil")
	}
	if m == 0 {
		o.none = o.h.Sum(nil)
	}
	return o, nil
}

func (o *obj) write(p []byte) error {
	q := append([]byte(nil), p...)
	n, err := o.h.Write(q)
	if n != len(p) || err != nil {
		return fmt.Errorf("Write of %d bytes returned %d, %v", len(p), n, err)
	}
	if !bytes.Equal(p, q) {
		return fmt.Errorf("Write modified its input")
	}
	for i := range q { // the data must not be retained
		q[i] = 0x55
	}
	o.d = append(o.d, p...)
	return nil
}

func (o *obj) sum(b []byte) error {
	keep := append([]byte(nil), b...)
	s := o.h.Sum(b)
	if !bytes.Equal(b, keep) {
		return fmt.Errorf("Sum changed the bytes of its argument")
	}
	if len(s) < len(b) || !bytes.Equal(s[:len(b)], keep) {
		return fmt.Errorf("Sum does not start with its argument: %x", s)
	}
	want := ref(o.m, o.d)
	if o.m == 0 {
		want = o.none
	}
	if !bytes.Equal(s[len(b):], want) {
		return fmt.Errorf("digest %x of %d bytes, want %x", s[len(b):], len(o.d), want)
	}
	if o.h.Size() != len(s)-len(b) {
		return fmt.Errorf("Size()=%d, Sum appends %d", o.h.Size(), len(s)-len(b))
	}
	if n := sizes[o.m]; n >= 0 && n != o.h.Size() {
		return fmt.Errorf("Size()=%d, want %d", o.h.Size(), n)
	}
	for i := range s { // the result belongs to the caller
		if i >= len(b) {
			s[i] ^= 0xA5
		}
	}
	return nil
}

func (o *obj) do(op int) error {
	switch {
	case op < len(chunks):
		return o.write(chunks[op])
	case op == len(chunks):
		return o.sum(nil)
	case op == len(chunks)+1:
		b := make([]byte, 3, 90)
		copy(b, "xyz")
		return o.sum(b)
	default:
		o.h.Reset()
		o.d = nil
	}
	return nil
}

func main() {
	mc.Main("C16", func(r *mc.Run) {
		l := r.Pick(6, 8)
		for m := range methods {
			m := m
			r.Enumerate(mc.Enum{Name: "histories " + names[m], Bounds: fmt.Sprintf("every history of exactly %d operations (which contains all shorter ones as prefixes; each prefix is also ended by Sum) over Write(0,1,3,65 bytes), Sum(nil), Sum(buffer with spare capacity), Reset", l),
				Gen: func(emit func(mc.Case)) { mc.Strings(nOps, 0, l, emit) },
				Show: func(c mc.Case) string {
					s := names[m] + ":"
					for _, o := range c {
						s += " " + opName(o)
					}
					return s
				},
				Run: func(c mc.Case, t *mc.T) error {
					o, err := newObj(m)
					if err != nil {
						return err
					}
					for _, op := range c {
						if err := o.do(op); err != nil {
							return err
						}
					}
					t.Steps += int64(len(c) + 2)
					if err := o.sum(nil); err != nil {
						return err
					}
					return o.sum([]byte("q"))
				}})
		}
		n := r.Pick(300, 700)
		r.Enumerate(mc.Enum{Name: "splits", Bounds: fmt.Sprintf("every method, every length 0..%d, every split in two writes (second object with Sum at the split)", n),
			Gen: func(emit func(mc.Case)) {
				for m := range methods {
					for k := 0; k <= n; k++ {
						emit(mc.Case{m, k})
					}
				}
			},
			Show: func(c mc.Case) string { return fmt.Sprintf("%s, %d bytes, every split", names[c[0]], c[1]) },
			Run: func(c mc.Case, t *mc.T) error {
				d := pattern(c[1], 31)
				for i := 0; i <= c[1]; i++ {
					o, err := newObj(c[0])
					if err == nil {
						err = o.write(d[:i])
					}
					if err == nil && i%2 == 0 {
						err = o.sum(nil)
					}
					if err == nil {
						err = o.write(d[i:])
					}
					if err == nil {
						err = o.sum(nil)
					}
					t.Steps += 3
					if err != nil {
						return fmt.Errorf("split at %d: %v", i, err)
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "long messages", Bounds: fmt.Sprintf("every method, %d lengths up to 2^20+1 around powers of two and ten, one write, two halves, chunks of 1000, 4096 and 8193 bytes; twice on one object; many one-byte writes with sums between", len(mc.Texts)), Small: true,
			Gen: func(emit func(mc.Case)) {
				for m := range methods {
					for _, k := range mc.Texts {
						for how := 0; how < 5; how++ {
							emit(mc.Case{m, k, how})
						}
					}
					emit(mc.Case{m, 70000, 5})
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				d := pattern(c[1], 31)
				o, err := newObj(c[0])
				if err != nil {
					return err
				}
				step := []int{c[1], c[1]/2 + 1, 1000, 4096, 8193, 1}[c[2]]
				for round := 0; round < 2; round++ {
					for i := 0; i < len(d); i += step {
						j := i + step
						if j > len(d) {
							j = len(d)
						}
						if err := o.write(d[i:j]); err != nil {
							return err
						}
						t.Steps++
						if c[2] == 5 && i%9973 == 0 {
							if err := o.sum(nil); err != nil {
								return err
							}
						}
					}
					if err := o.sum(nil); err != nil {
						return err
					}
					o.h.Reset()
					o.d = nil
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "short messages", Bounds: "every method, every message of up to 2 bytes",
			Gen: func(emit func(mc.Case)) {
				for m := range methods {
					emit(mc.Case{m})
					for a := 0; a < 256; a++ {
						emit(mc.Case{m, a})
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				var msg []byte
				for _, x := range c[1:] {
					msg = append(msg, byte(x))
				}
				o, err := newObj(c[0])
				if err == nil {
					err = o.write(msg)
				}
				if err == nil {
					err = o.sum(nil)
				}
				for b := 0; len(c) > 1 && b < 256 && err == nil; b++ {
					o.h.Reset()
					o.d = nil
					if err = o.write(append(msg[:1:1], byte(b))); err == nil {
						err = o.sum(nil)
					}
					t.Steps += 3
				}
				return err
			}})
		r.Enumerate(mc.Enum{Name: "two objects", Bounds: "every pair of methods, every interleaving of 3 writes each to two live objects: no interference; NONE objects differ",
			Gen: func(emit func(mc.Case)) {
				mc.Product(func(c mc.Case) { emit(c) }, len(methods), len(methods), 2, 2, 2, 2, 2, 2)
			},
			Run: func(c mc.Case, t *mc.T) error {
				a, err := newObj(c[0])
				if err != nil {
					return err
				}
				b, err := newObj(c[1])
				if err != nil {
					return err
				}
				if c[0] == 0 && c[1] == 0 && bytes.Equal(a.none, b.none) {
					return fmt.Errorf("two NONE objects with the same sum")
				}
				for i, w := range c[2:] {
					o := a
					if w == 1 {
						o = b
					}
					if err := o.write(pattern(i*5+1, i+1)); err != nil {
						return err
					}
				}
				t.Steps += 10
				if err := a.sum(nil); err != nil {
					return err
				}
				return b.sum(nil)
			}, Serial: true})
		r.Enumerate(mc.Enum{Name: "none objects", Bounds: "1..70000 live NONE objects are pairwise different and constant", Serial: true,
			Gen: func(emit func(mc.Case)) { emit(mc.Case{70000}) },
			Run: func(c mc.Case, t *mc.T) error {
				seen := map[string]int{}
				var l []*obj
				for i := 0; i < c[0]; i++ {
					o, _ := newObj(0)
					if j, ok := seen[string(o.none)]; ok {
						return fmt.Errorf("objects %d and %d have the same sum", i, j)
					}
					seen[string(o.none)] = i
					l = append(l, o)
				}
				for _, o := range l {
					t.Steps += 3
					if err := o.write([]byte("abc")); err != nil {
						return err
					}
					if err := o.sum(nil); err != nil {
						return err
					}
					o.h.Reset()
					if err := o.sum(nil); err != nil {
						return err
					}
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "unknown methods", Bounds: "every method number 8..4096, 2^k+-1 and the maximum: New panics",
			Gen: func(emit func(mc.Case)) {
				for i := 8; i <= 4096; i++ {
					emit(mc.Case{i})
				}
				for k := uint(13); k < 63; k++ {
					for d := -1; d <= 7; d++ {
						emit(mc.Case{1<<k + d})
					}
				}
				emit(mc.Case{math.MaxInt64})
				emit(mc.Case{-1})
				emit(mc.Case{math.MinInt64})
			},
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps += 2
				if !mc.Panics(func() { gxhash.New(gxhash.HashMethod(uint(c[0]))) }) || !mc.Panics(func() { gxhash.HashMethod(uint(c[0])).New() }) {
					return fmt.Errorf("method %d accepted", uint(c[0]))
				}
				return nil
			}})
		// the reference itself against the standard library
		if crc64iso([]byte("123456789")) != crc64.Checksum([]byte("123456789"), crc64.MakeTable(crc64.ISO)) || crc32ieee([]byte("123456789")) != crc32.ChecksumIEEE([]byte("123456789")) {
			panic("reference CRC wrong")
		}
		r.Assume = append(r.Assume, "one-shot functions of Go's standard library are the definition of MD5/SHA1/SHA256/SHA512; CRCs are computed bit by bit")
	})
}
