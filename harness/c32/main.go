// C32: text codec, keyed hash, RSA signing and encryption.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	_ "crypto/sha1"
	_ "crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"strings"
	"sync"

	"gitee.com/vipally/gx/crypto/rsa"
	"gxv/mc"
)

func codec(text []byte, t *mc.T) error {
	whole := append(append(append([]byte{}, "front"...), text...), "behind behind behind"...)
	w0 := append([]byte{}, whole...)
	in := whole[5 : 5+len(text)]
	e := rsa.Encode(in)
	es := rsa.EncodeString(string(text))
	if e == "" || e != es {
		return fmt.Errorf("Encode %q, EncodeString %q", e, es)
	}
	h1, h2 := rsa.Hash(in), rsa.HashString(string(text))
	if !bytes.Equal(whole, w0) {
		return fmt.Errorf("the input (or memory behind it) was changed")
	}
	d, ds := rsa.Decode(e), rsa.DecodeString(e)
	want := bytes.TrimRight(text, "\x00")
	if !bytes.Equal(d, want) || ds != string(want) {
		return fmt.Errorf("decoded %q and %q, expected %q", d, ds, want)
	}
	if hex.EncodeToString(h1) != h2 || h2 == "" {
		return fmt.Errorf("Hash %x, HashString %s", h1, h2)
	}
	if !bytes.Equal(rsa.Hash(text), h1) || rsa.HashString(string(text)) != h2 || rsa.Encode(text) != e {
		return fmt.Errorf("a second call gives another result")
	}
	x := rsa.BytesToHexString(text)
	if x != hex.EncodeToString(text) {
		return fmt.Errorf("BytesToHexString(%x) = %q", text, x)
	}
	if b := rsa.HexStringToBytes(x); !bytes.Equal(b, text) {
		return fmt.Errorf("HexStringToBytes(%q) = %x", x, b)
	}
	t.Steps += 12
	return nil
}

// decode of any text: never a panic, empty unless it is base64 of whole blocks.
func malformed(s string, t *mc.T) error {
	d, ds := rsa.Decode(s), rsa.DecodeString(s)
	if string(d) != ds {
		return fmt.Errorf("Decode %q and DecodeString %q differ", d, ds)
	}
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil || len(b) == 0 || len(b)%8 != 0 {
		if len(d) != 0 {
			return fmt.Errorf("malformed text decodes to %q", d)
		}
	} else {
		// a well-formed ciphertext: encoding its plaintext restores it, up to padding
		e, _ := base64.StdEncoding.DecodeString(rsa.Encode(d))
		n := len(b)
		if len(e) < n {
			n = len(e)
		}
		if k := len(d) / 8 * 8; k <= n && !bytes.Equal(e[:k], b[:k]) {
			return fmt.Errorf("decoded %q does not encode to the text", d)
		}
	}
	h, err := hex.DecodeString(s)
	if g := rsa.HexStringToBytes(s); err != nil && g != nil || err == nil && !bytes.Equal(g, h) {
		return fmt.Errorf("HexStringToBytes gives %x, expected %x %v", g, h, err)
	}
	t.Steps += 3
	return nil
}

type pair struct {
	c *rsa.RsaClient
	s *rsa.RsaServer
	k int // modulus bytes
}

func open(i int) (p pair, err error) {
	if p.c, err = rsa.NewClient([]byte(keys[i][1])); err != nil {
		return
	}
	p.s, err = rsa.NewServer([]byte(keys[i][0]))
	p.k = []int{128, 129, 256}[i]
	return
}

var hashes = []crypto.Hash{crypto.SHA512, crypto.SHA256, crypto.SHA1}

func msg(n, p int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch p {
		case 0:
			b[i] = byte(i*31 + 7)
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xff
		}
	}
	return b
}

func main() {
	mc.Main("C32", func(r *mc.Run) {
		al := []byte{0, 1, 'a', 0x80, 0xff}
		mk := func(c mc.Case) []byte {
			b := make([]byte, len(c))
			for i, x := range c {
				b[i] = al[x]
			}
			return b
		}
		r.Enumerate(mc.Enum{Name: "codec", Bounds: fmt.Sprintf("every text over {00,01,61,80,ff} up to length %d", r.Pick(7, 9)), Gen: func(emit func(mc.Case)) {
			mc.Strings(5, 0, r.Pick(7, 9), emit)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("%x", mk(c)) }, Run: func(c mc.Case, t *mc.T) error { return codec(mk(c), t) }})
		r.Enumerate(mc.Enum{Name: "codec lengths", Bounds: "texts of length 0..300 x 3 patterns, and every byte value at every position of texts up to 17", Gen: func(emit func(mc.Case)) {
			mc.Product(func(c mc.Case) { emit(append(mc.Case{0}, c...)) }, 301, 3)
			mc.Product(func(c mc.Case) { emit(append(mc.Case{1}, c...)) }, 17, 17, 256)
		}, Run: func(c mc.Case, t *mc.T) error {
			if c[0] == 0 {
				return codec(msg(c[1], c[2]), t)
			}
			if c[2] > c[1] {
				return nil
			}
			b := msg(c[1]+1, 0)
			b[c[2]] = byte(c[3])
			return codec(b, t)
		}})
		r.Enumerate(mc.Enum{Name: "codec long", Bounds: fmt.Sprintf("%d text lengths up to 2^20+1 around powers of two and ten, 2 patterns", len(mc.Texts)), Small: true, Gen: func(emit func(mc.Case)) {
			for _, n := range mc.Texts {
				if !r.Thorough() && n > 300000 {
					break
				}
				emit(mc.Case{n, 0})
				emit(mc.Case{n + 8 - n%8, 2})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			err := codec(msg(c[0], c[1]), t)
			if err != nil && len(err.Error()) > 300 {
				err = fmt.Errorf("%s...", err.Error()[:300])
			}
			return err
		}})
		bal := "Aa+/=0f\n-"
		word := func(c mc.Case) string {
			b := make([]byte, len(c))
			for i, x := range c {
				b[i] = bal[x]
			}
			return string(b)
		}
		r.Enumerate(mc.Enum{Name: "malformed", Bounds: fmt.Sprintf("decoding every word over %q up to length %d", bal, r.Pick(6, 7)), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(bal), 0, r.Pick(6, 7), emit)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("%q", word(c)) }, Run: func(c mc.Case, t *mc.T) error { return malformed(word(c), t) }})
		r.Enumerate(mc.Enum{Name: "damaged encodings", Bounds: "encodings of texts of length 0..24: every prefix, and every single character replaced by each of 10, removed or doubled", Gen: func(emit func(mc.Case)) {
			for n := 0; n <= 24; n++ {
				l := len(rsa.Encode(msg(n, 0)))
				for i := 0; i < l; i++ {
					for k := 0; k < 13; k++ {
						emit(mc.Case{n, i, k})
					}
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			s := rsa.Encode(msg(c[0], 0))
			i := c[1]
			switch k := c[2]; k {
			case 10:
				s = s[:i]
			case 11:
				s = s[:i] + s[i+1:]
			case 12:
				s = s[:i] + s[i:i+1] + s[i:]
			default:
				s = s[:i] + string("AZaz09+/=\x00"[k]) + s[i+1:]
			}
			return malformed(s, t)
		}})
		var mu sync.Mutex
		seen := map[string]string{}
		r.Enumerate(mc.Enum{Name: "hash collisions", Bounds: "pairwise: every text over {00,61} up to length 12 and over {00,01,61,80,ff} up to length 5 has its own hash", Gen: func(emit func(mc.Case)) {
			mc.Strings(2, 0, 12, func(c mc.Case) {
				n := append(mc.Case{}, c...)
				for i := range n {
					n[i] *= 2
				}
				emit(n)
			})
			mc.Strings(5, 0, 5, emit)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("%x", mk(c)) }, Run: func(c mc.Case, t *mc.T) error {
			h := string(rsa.Hash(mk(c)))
			t.Steps++
			mu.Lock()
			defer mu.Unlock()
			k := string(mk(c))
			if o, ok := seen[h]; ok && o != k {
				return fmt.Errorf("%x has the hash of %x", k, o)
			}
			seen[h] = k
			return nil
		}})
		var ps []pair
		for i := range keys {
			p, err := open(i)
			if err != nil {
				r.Enumerate(mc.Enum{Name: "keys", Gen: func(emit func(mc.Case)) { emit(mc.Case{i}) }, Run: func(mc.Case, *mc.T) error { return fmt.Errorf("valid key rejected: %v", err) }})
				return
			}
			ps = append(ps, p)
		}
		nk := r.Pick(2, 3)
		r.Enumerate(mc.Enum{Name: "signatures", Bounds: fmt.Sprintf("%d keys x 3 hash methods (and the default) x message lengths 0..130 x 3 patterns and long ones up to 2^20+1", nk), Gen: func(emit func(mc.Case)) {
			mc.Product(emit, nk, 4, 131, 3)
			for k := 0; k < nk; k++ {
				for h := 0; h < 4; h++ {
					for _, n := range mc.Texts {
						emit(mc.Case{k, h, n, 0})
					}
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			p, m := ps[c[0]], msg(c[2], c[3])
			m0 := append([]byte{}, m...)
			sign := func(m []byte) ([]byte, error) {
				if c[1] == 3 {
					return p.s.SignDefault(m)
				}
				return p.s.Sign(m, hashes[c[1]])
			}
			verify := func(m, s []byte) error {
				if c[1] == 3 {
					return p.c.VerifyDefault(m, s)
				}
				return p.c.Verify(m, s, hashes[c[1]])
			}
			s, err := sign(m)
			if err != nil {
				return fmt.Errorf("sign: %v", err)
			}
			if len(s) != p.k {
				return fmt.Errorf("signature has %d bytes", len(s))
			}
			if err := verify(m, s); err != nil {
				return fmt.Errorf("a valid signature is rejected: %v", err)
			}
			if c[1] == 3 && p.c.Verify(m, s, crypto.SHA512) != nil {
				return fmt.Errorf("the default is not SHA512")
			}
			t.Steps += 3
			bad := [][2][]byte{{append(append([]byte{}, m...), 0), s}, {m, append(append([]byte{}, s...), 0)}, {m, s[:len(s)-1]}, {m, append([]byte{0}, s...)}, {m, nil}, {m, s[1:]}}
			if len(m) > 0 {
				x := append([]byte{}, m...)
				x[len(m)/2] ^= 1
				bad = append(bad, [2][]byte{x, s}, [2][]byte{m[:len(m)-1], s}, [2][]byte{m[1:], s}, [2][]byte{nil, s})
			}
			for _, b := range bad {
				t.Steps++
				if verify(b[0], b[1]) == nil && !(bytes.Equal(b[0], m) && bytes.Equal(b[1], s)) {
					return fmt.Errorf("verifies for an altered message (%d bytes) or signature: %x", len(b[0]), b[1])
				}
			}
			if !bytes.Equal(m, m0) {
				return fmt.Errorf("message changed")
			}
			for k, h := range hashes {
				if k != c[1]%3 && p.c.Verify(m, s, h) == nil {
					return fmt.Errorf("verifies with another hash method")
				}
			}
			if ps[1-c[0]%2].c.Verify(m, s, hashes[c[1]%3]) == nil {
				return fmt.Errorf("verifies with another key")
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "altered bits", Bounds: "every single bit flip of a signature and of a 64 byte message, 2 keys x hash methods", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 2, 3, 129*8+64*8)
		}, Run: func(c mc.Case, t *mc.T) error {
			p, m := ps[c[0]], msg(64, 0)
			s, err := p.s.Sign(m, hashes[c[1]])
			if err != nil {
				return err
			}
			i := c[2]
			if i < 64*8 {
				m[i/8] ^= 1 << uint(i%8)
			} else if i -= 64 * 8; i < len(s)*8 {
				s[i/8] ^= 1 << uint(i%8)
			} else {
				return nil
			}
			t.Steps += 2
			if p.c.Verify(m, s, hashes[c[1]]) == nil {
				return fmt.Errorf("verifies although one bit was changed")
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "encryption", Bounds: fmt.Sprintf("%d keys, every message length 0..k+2 x 3 patterns; the empty ciphertext", nk), Gen: func(emit func(mc.Case)) {
			for k := 0; k < nk; k++ {
				for n := 0; n <= ps[k].k+2; n++ {
					for p := 0; p < 3; p++ {
						emit(mc.Case{k, n, p})
					}
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			p, m := ps[c[0]], msg(c[1], c[2])
			e, err := p.c.Encrypt(m)
			t.Steps++
			if len(m) > p.k-11 {
				if err == nil {
					return fmt.Errorf("a message that does not fit is accepted")
				}
				return nil
			}
			if err != nil {
				return err
			}
			if len(m) > 4 && bytes.Contains(e, m) {
				return fmt.Errorf("the ciphertext contains the message")
			}
			d, err := p.s.Decrypt(e)
			if err != nil || !bytes.Equal(d, m) {
				return fmt.Errorf("decrypted %x %v, expected %x", d, err, m)
			}
			// (other damaged ciphertexts may, with a tiny probability, have valid padding)
			t.Steps++
			if d, err := p.s.Decrypt(nil); err == nil {
				return fmt.Errorf("an empty ciphertext decrypts to %x", d)
			}
			return nil
		}})
		ec, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		ecp, _ := x509.MarshalPKIXPublicKey(&ec.PublicKey)
		ecs, _ := x509.MarshalECPrivateKey(ec)
		texts := []string{"", "x", keys[0][0], keys[0][1], strings.Replace(keys[0][0], "private", "public", -1),
			string(pem.EncodeToMemory(&pem.Block{Type: "public key", Bytes: ecp})), string(pem.EncodeToMemory(&pem.Block{Type: "private key", Bytes: ecs})),
			string(pem.EncodeToMemory(&pem.Block{Type: "public key"})), "-----BEGIN public key-----\n-----END public key-----"}
		fixed := len(texts)
		for k := 0; k < 2; k++ {
			for i := 0; i < len(keys[0][k]); i++ {
				texts = append(texts, keys[0][k][:i], keys[0][k][:i]+keys[0][k][i+1:], keys[0][k][:i]+"\x00"+keys[0][k][i+1:])
			}
		}
		r.Enumerate(mc.Enum{Name: "bad keys", Bounds: "private for public and vice versa, EC keys, empty PEM, every prefix of a key and every removed or zeroed character: an error or a working key, never a panic; Must variants panic exactly on error", Gen: func(emit func(mc.Case)) {
			for i := range texts {
				emit(mc.Case{i})
			}
		}, Show: func(c mc.Case) string { return texts[c[0]] }, Run: func(c mc.Case, t *mc.T) error {
			b := []byte(texts[c[0]])
			t.Steps += 4
			cl, e1 := rsa.NewClient(b)
			sv, e2 := rsa.NewServer(b)
			if (cl == nil) != (e1 != nil) || (sv == nil) != (e2 != nil) {
				return fmt.Errorf("error without nil result or nil result without error")
			}
			if c[0] < fixed {
				if (e1 == nil) != (texts[c[0]] == keys[0][1]) {
					return fmt.Errorf("NewClient: %v", e1)
				}
				if (e2 == nil) != (texts[c[0]] == keys[0][0] || c[0] == 4) {
					return fmt.Errorf("NewServer: %v", e2)
				}
			}
			if mc.Panics(func() { rsa.MustNewClient(b) }) != (e1 != nil) || mc.Panics(func() { rsa.MustNewServer(b) }) != (e2 != nil) {
				return fmt.Errorf("Must variants disagree: %v %v", e1, e2)
			}
			return nil
		}})
		before := []string{"", "\n", "a key:\n", "\r\n\r\n", "# comment\n# more\n", "\xef\xbb\xbf\n", "-----\n"}
		after := []string{"", "\n", "\r\n", "\n\n\n", "\nthe end", "\n\x00", "\n-----\n"}
		r.Enumerate(mc.Enum{Name: "text around keys", Bounds: fmt.Sprintf("%d keys in %d x %d surroundings, with LF and CRLF line ends: accepted, and working", len(keys), len(before), len(after)), Small: true, Gen: func(emit func(mc.Case)) {
			mc.Product(emit, len(keys), len(before), len(after), 2)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("key %d between %q and %q, CRLF %v", c[0], before[c[1]], after[c[2]], c[3] == 1) }, Run: func(c mc.Case, t *mc.T) error {
			in := func(k string) []byte {
				k = strings.TrimRight(k, "\n")
				if c[3] == 1 {
					k = strings.Replace(k, "\n", "\r\n", -1)
				}
				return []byte(before[c[1]] + k + after[c[2]])
			}
			cl, e1 := rsa.NewClient(in(keys[c[0]][1]))
			sv, e2 := rsa.NewServer(in(keys[c[0]][0]))
			t.Steps += 2
			if e1 != nil || e2 != nil {
				return fmt.Errorf("rejected: %v, %v", e1, e2)
			}
			m := msg(50, 0)
			s, err := sv.SignDefault(m)
			if err != nil || cl.VerifyDefault(m, s) != nil || ps[c[0]].c.VerifyDefault(m, s) != nil {
				return fmt.Errorf("the keys do not work: %v", err)
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "generated keys", Bounds: "GenRsaKeys of 1024, 1025, 1032, 1536 bits: sign, verify, encrypt, decrypt; too small sizes are errors", Small: true, Gen: func(emit func(mc.Case)) {
			for _, b := range []int{1024, 1025, 1032, 1536, -1, 0, 1, 2} {
				emit(mc.Case{b})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			pri, pub, err := rsa.GenRsaKeys(c[0])
			if c[0] < 16 {
				if err == nil {
					return fmt.Errorf("no error")
				}
				return nil
			}
			if err != nil {
				return err
			}
			cl, e1 := rsa.NewClient(pub)
			sv, e2 := rsa.NewServer(pri)
			if e1 != nil || e2 != nil {
				return fmt.Errorf("generated keys are rejected: %v %v", e1, e2)
			}
			if _, err := rsa.NewClient(pri); err == nil {
				return fmt.Errorf("the private key is accepted as public key")
			}
			if _, err := rsa.NewServer(pub); err == nil {
				return fmt.Errorf("the public key is accepted as private key")
			}
			m := msg(50, 0)
			s, err := sv.SignDefault(m)
			if err != nil || cl.VerifyDefault(m, s) != nil {
				return fmt.Errorf("sign/verify: %v", err)
			}
			s[3] ^= 4
			if cl.VerifyDefault(m, s) == nil {
				return fmt.Errorf("altered signature verifies")
			}
			e, err := cl.Encrypt(m)
			if err != nil {
				return err
			}
			if d, err := sv.Decrypt(e); err != nil || !bytes.Equal(d, m) {
				return fmt.Errorf("decrypt: %x %v", d, err)
			}
			t.Steps += 9
			return nil
		}})
		r.Assume = append(r.Assume, "crypto/rsa, base64, hex of the standard library", "a changed bit does not by chance give another valid signature")
	})
}
