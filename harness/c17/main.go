package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/crc64"

	gxhash "github.com/vipally/gx/hash"
	"gxv/mc"
)

var methods = []gxhash.HashMethod{gxhash.NONE, gxhash.MD5, gxhash.SHA1, gxhash.SHA256, gxhash.SHA512, gxhash.CRC32, gxhash.CRC64, gxhash.FINGERPRINT}
var names = []string{"NONE", "MD5", "SHA1", "SHA256", "SHA512", "CRC32", "CRC64", "FINGERPRINT"}
var iso = crc64.MakeTable(crc64.ISO)

func fp(size int64, d []byte) []byte {
	var l [8]byte
	binary.BigEndian.PutUint64(l[:], uint64(size))
	a, b, c := md5.Sum(d), sha1.Sum(d), binary.BigEndian.AppendUint64(nil, crc64.Checksum(d, iso))
	r := append([]byte(nil), l[2:]...)
	r = append(r, a[4:10]...)
	r = append(r, b[7:13]...)
	return append(r, c[1:7]...)
}

func fpString(size int64, d []byte) string {
	f := fp(size, d)
	return fmt.Sprintf("%x-%x-%x-%x", f[:6], f[6:12], f[12:18], f[18:])
}

func ref(m int, d []byte) []byte {
	switch m {
	case 1:
		s := md5.Sum(d)
		return s[:]
	case 2:
		s := sha1.Sum(d)
		return s[:]
	case 3:
		s := sha256.Sum256(d)
		return s[:]
	case 4:
		s := sha512.Sum512(d)
		return s[:]
	case 5:
		return binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(d))
	case 6:
		return binary.BigEndian.AppendUint64(nil, crc64.Checksum(d, iso))
	}
	return fp(int64(len(d)), d)
}

func pattern(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*k + i>>8 + k)
	}
	return b
}

func checkFP(f *gxhash.Fingerprint, size int64, d []byte) error {
	if s, w := f.String(), fpString(size, d); s != w {
		return fmt.Errorf("String()=%s, want %s", s, w)
	}
	if s, w := f.Sum(nil), fp(size, d); !bytes.Equal(s, w) {
		return fmt.Errorf("Sum=%x, want %x", s, w)
	}
	if n := f.Size(); n != len(fp(size, d)) {
		return fmt.Errorf("Size()=%d, the digest has %d bytes", n, len(fp(size, d)))
	}
	if s, w := f.Hash().Sum(nil), fp(size, d); !bytes.Equal(s, w) {
		return fmt.Errorf("Hash().Sum=%x, want %x", s, w)
	}
	return nil
}

func strHash(m int, d []byte) error {
	h := methods[m].StringHash(string(d))
	hl := methods[m].StringHashL(string(d))
	pre := fmt.Sprintf("%010d-", len(d))
	if m == 0 {
		if len(h) != 8 || len(hl) != 19 || hl[:11] != pre || !hex(h) || !hex(hl[11:]) {
			return fmt.Errorf("NONE: %q, %q", h, hl)
		}
		return nil
	}
	w := fmt.Sprintf("%x", ref(m, d))
	if h != w {
		return fmt.Errorf("%s StringHash of %d bytes = %q, want %q", names[m], len(d), h, w)
	}
	if hl != pre+w {
		return fmt.Errorf("%s StringHashL of %d bytes = %q, want %q", names[m], len(d), hl, pre+w)
	}
	return nil
}

func hex(s string) bool {
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

var wr = [][]byte{nil, []byte("a"), {0xff, 0, 'b'}, pattern(65, 3)}
var rs = []int64{0, 1, 255, 256, 0xABCDEF, 1<<32 - 1, 1 << 32, 0x123456789ABC, 1<<48 - 100}

func main() {
	mc.Main("C17", func(r *mc.Run) {
		l := r.Pick(5, 6)
		k := len(wr) + len(rs) + 3
		r.Enumerate(mc.Enum{Name: "fingerprint histories", Bounds: fmt.Sprintf("every history of up to %d operations over Write(0,1,3,65 bytes), Resetsize(9 sizes), Reset, String, Sum", l),
			Gen: func(emit func(mc.Case)) { mc.Strings(k, 0, l, emit) },
			Show: func(c mc.Case) string {
				s := ""
				for _, o := range c {
					switch {
					case o < len(wr):
						s += fmt.Sprintf(" Write(%d)", len(wr[o]))
					case o < len(wr)+len(rs):
						s += fmt.Sprintf(" Resetsize(%d)", rs[o-len(wr)])
					default:
						s += " " + []string{"Reset", "String", "Sum"}[o-len(wr)-len(rs)]
					}
				}
				return s
			},
			Run: func(c mc.Case, t *mc.T) error {
				f := gxhash.NewFingerprint()
				var d []byte
				var size int64
				for _, o := range c {
					switch {
					case o < len(wr):
						if n, err := f.Write(wr[o]); n != len(wr[o]) || err != nil {
							return fmt.Errorf("Write returned %d, %v", n, err)
						}
						d = append(d, wr[o]...)
						size += int64(len(wr[o]))
					case o < len(wr)+len(rs):
						size = rs[o-len(wr)]
						f.Resetsize(size)
					case o == k-3:
						f.Reset()
						d, size = nil, 0
					case o == k-2:
						if s, w := f.String(), fpString(size, d); s != w {
							return fmt.Errorf("String()=%s, want %s", s, w)
						}
					default:
						if s, w := f.Sum(nil), fp(size, d); !bytes.Equal(s, w) {
							return fmt.Errorf("Sum=%x, want %x", s, w)
						}
					}
				}
				t.Steps += int64(len(c) + 3)
				return checkFP(f, size, d)
			}})
		n := r.Pick(2000, 20000)
		r.Enumerate(mc.Enum{Name: "lengths", Bounds: fmt.Sprintf("every method, every content length 0..%d (one content each), plus 2^k+-1 up to 2^22", n),
			Gen: func(emit func(mc.Case)) {
				for m := range methods {
					for i := 0; i <= n; i++ {
						emit(mc.Case{m, i})
					}
					for k := uint(11); k <= 22; k++ {
						for d := -1; d <= 1; d++ {
							emit(mc.Case{m, 1<<k + d})
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				d := pattern(c[1], 37)
				t.Steps += 2
				if err := strHash(c[0], d); err != nil {
					return err
				}
				if c[0] == 7 {
					f := gxhash.NewFingerprint()
					f.Write(d)
					return checkFP(f, int64(len(d)), d)
				}
				return nil
			}})
		r.Enumerate(mc.Enum{Name: "short contents", Bounds: "every method, every content of up to 2 bytes, every word over {0x00,0x0f,0x80,0xff} of length 3..6",
			Gen: func(emit func(mc.Case)) {
				for m := range methods {
					emit(mc.Case{m})
					for a := 0; a < 256; a++ {
						emit(mc.Case{m, a})
						for b := 0; b < 256; b++ {
							emit(mc.Case{m, a, b})
						}
					}
					mc.Strings(4, 3, 6, func(c mc.Case) {
						e := mc.Case{m}
						for _, x := range c {
							e = append(e, []int{0, 15, 128, 255}[x])
						}
						emit(e)
					})
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				var d []byte
				for _, x := range c[1:] {
					d = append(d, byte(x))
				}
				t.Steps += 2
				if c[0] == 7 {
					f := gxhash.NewFingerprint()
					f.Write(d)
					if err := checkFP(f, int64(len(d)), d); err != nil {
						return err
					}
				}
				return strHash(c[0], d)
			}})
	})
}
