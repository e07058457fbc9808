package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/vipally/gx/encoding/ini"
	"gxv/mc"
)

// parse is the reference grammar.
func parse(text string) map[string]map[string]string {
	res := map[string]map[string]string{}
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || strings.HasPrefix(l, ";"):
		case strings.HasPrefix(l, "[") && strings.HasSuffix(l, "]"):
			cur = l[1 : len(l)-1]
			if res[cur] == nil {
				res[cur] = map[string]string{}
			}
		case cur == "":
		default:
			k, v := l, ""
			if i := strings.IndexByte(l, '='); i >= 0 {
				k, v = l[:i], l[i+1:]
			}
			if k = strings.TrimSpace(k); k != "" {
				res[cur][k] = strings.TrimSpace(v)
			}
		}
	}
	return res
}

func sorted(l []string) []string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return l
}

func keysOf(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	return sorted(l)
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func compare(f *ini.IniFile, want map[string]map[string]string, t *mc.T) error {
	if f == nil {
		return fmt.Errorf("nil result")
	}
	var ws []string
	for s := range want {
		ws = append(ws, s)
	}
	ws = sorted(ws)
	if got := sorted(f.Sections()); !eq(got, ws) {
		return fmt.Errorf("Sections()=%q, want %q", got, ws)
	}
	for s, m := range want {
		if got := sorted(f.Keys(s)); !eq(got, keysOf(m)) {
			return fmt.Errorf("Keys(%q)=%q, want %q", s, got, keysOf(m))
		}
		for k, v := range m {
			t.Steps++
			if got := f.GetString(s, k, "dflt"); got != v {
				return fmt.Errorf("GetString(%q,%q)=%q, want %q", s, k, got, v)
			}
		}
		for _, k := range []string{"", "a", "b", "nokey", "a=", "A", " a", "a ", ";", "["} {
			if _, ok := m[k]; !ok {
				if got := f.GetString(s, k, "dflt"); got != "dflt" {
					return fmt.Errorf("GetString(%q,%q)=%q, want the default", s, k, got)
				}
				if got := f.GetString(s, k, ""); got != "" {
					return fmt.Errorf("GetString(%q,%q)=%q, want the empty default", s, k, got)
				}
			}
		}
		t.Steps += 10
	}
	for _, s := range []string{"", "a", "b", "nosec", "[a]", "A"} {
		if _, ok := want[s]; !ok {
			if len(f.Keys(s)) != 0 || f.GetString(s, "a", "x") != "x" {
				return fmt.Errorf("unknown section %q has contents", s)
			}
		}
	}
	return nil
}

// chop returns n bytes at a time; eof: the last data come together with io.EOF.
type chop struct {
	s   string
	n   int
	eof bool
}

func (c *chop) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, io.EOF
	}
	k := c.n
	if k > len(p) {
		k = len(p)
	}
	k = copy(p[:k], c.s)
	c.s = c.s[k:]
	if c.eof && len(c.s) == 0 {
		return k, io.EOF
	}
	return k, nil
}

func check(text string, t *mc.T) error {
	want := parse(text)
	for i, r := range []io.Reader{strings.NewReader(text), &chop{text, 1, false}, &chop{text, 3, true}} {
		t.Steps++
		if err := compare(ini.Load(r), want, t); err != nil {
			return fmt.Errorf("reader %d: %v", i, err)
		}
	}
	return nil
}

var lines = []string{"", "[a]", "[b]", "[]", "[ a ]", " [a] ", "a=1", "a=2", "b = x y", " a\t=\t3 ", "a", "=v", " = v", ";a=9", " ; [b]", "a=b=c", "a==", "a=;c", "[a", "a]", "[a]x", "[a]=1", "[[b]]", "\r", "[b]\r", "a=7\r", "\u00a0b=\u00a08", "A=1", "[A]", "#x=1", "a.b=1", "\x00=\x00", "[a][b]", "[;]", "é=ü", "[a]=]"}

func join(c mc.Case, set []string, last int) string {
	var b bytes.Buffer
	for i, x := range c {
		b.WriteString(set[x])
		if i < len(c)-1 || last == 0 {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// char is byte x, then the characters of the first plane, then one of each further plane.
func char(x int) string {
	switch {
	case x < 256:
		return string([]byte{byte(x)})
	case x < 256+1<<16:
		return string(rune(x - 256))
	}
	return string(rune(x-256-1<<16+1) << 16)
}

func main() {
	mc.Main("C24", func(r *mc.Run) {
		al := []string{"[", "]", "=", ";", "a", "b", " ", "\n"}
		k := r.Pick(7, 8)
		r.Enumerate(mc.Enum{Name: "texts", Bounds: fmt.Sprintf("every text over {[ ] = ; a b space newline} up to length %d", k),
			Gen:  func(emit func(mc.Case)) { mc.Strings(len(al), 0, k, emit) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%q", cat(c, al)) },
			Run:  func(c mc.Case, t *mc.T) error { return check(cat(c, al), t) }})
		k2 := r.Pick(6, 8)
		r.Enumerate(mc.Enum{Name: "texts in section", Bounds: fmt.Sprintf("\"[a]\\n\" followed by every text over {= a b ; newline tab CR} up to length %d", k2),
			Gen:  func(emit func(mc.Case)) { mc.Strings(7, 0, k2, emit) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%q", "[a]\n"+cat(c, []string{"=", "a", "b", ";", "\n", "\t", "\r"})) },
			Run: func(c mc.Case, t *mc.T) error {
				return check("[a]\n"+cat(c, []string{"=", "a", "b", ";", "\n", "\t", "\r"}), t)
			}})
		n := r.Pick(3, 4)
		for last := 0; last < 2; last++ {
			last := last
			r.Enumerate(mc.Enum{Name: fmt.Sprintf("lines final-newline=%v", last == 0), Bounds: fmt.Sprintf("every sequence of up to %d lines out of %d line kinds", n, len(lines)),
				Gen:  func(emit func(mc.Case)) { mc.Strings(len(lines), 0, n, emit) },
				Show: func(c mc.Case) string { return fmt.Sprintf("%q", join(c, lines, last)) },
				Run:  func(c mc.Case, t *mc.T) error { return check(join(c, lines, last), t) }})
		}
		tpl := []string{"%sx=1", "x%s=1", "x=%s1", "x=1%s", "x%sy=1", "%s", "%s=1", "x=%s", "x=1%sy=2", "[%s]\nk=v", "[a%s]\nk=v", "%s[b]\nk=v", "[b]%s\nk=v", ";%s\nx=1", "%s;x=1", "[%sb]\nk=v"}
		put := func(i int, x string) string { return "[a]\nz=0\n" + strings.Replace(tpl[i], "%s", x, 1) + "\nend=1" }
		r.Enumerate(mc.Enum{Name: "characters", Bounds: fmt.Sprintf("every byte, every character up to U+FFFF and the first of every further plane in %d places of a text, as first text of a file too", len(tpl)),
			Gen: func(emit func(mc.Case)) {
				for x := 0; x < 256+1<<16+16; x++ {
					for i := range tpl {
						emit(mc.Case{i, x})
					}
				}
			},
			Show: func(c mc.Case) string { return fmt.Sprintf("%q", put(c[0], char(c[1]))) },
			Run: func(c mc.Case, t *mc.T) error {
				s := put(c[0], char(c[1]))
				for _, s := range []string{s, s[8:]} { // the second without the first section
					t.Steps++
					if err := compare(ini.Load(strings.NewReader(s)), parse(s), t); err != nil {
						return fmt.Errorf("%q: %v", s, err)
					}
				}
				return nil
			}})
		core := []string{"[a]", "[b]", "a=1", "a=2", "b", "", ";x", "b=3"}
		r.Enumerate(mc.Enum{Name: "long line sequences", Bounds: fmt.Sprintf("every sequence of up to %d lines out of %q", r.Pick(6, 8), core),
			Gen:  func(emit func(mc.Case)) { mc.Strings(len(core), 0, r.Pick(6, 8), emit) },
			Show: func(c mc.Case) string { return fmt.Sprintf("%q", join(c, core, 1)) },
			Run:  func(c mc.Case, t *mc.T) error { return check(join(c, core, 1), t) }})
		pos := []int{1, 2, 15, 16, 17, 511, 512, 513, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 65535, 65536, 65537, 70000, 131072}
		r.Enumerate(mc.Enum{Name: "long texts", Bounds: "keys, values, comments, section names, blank runs and key counts of 25 sizes around the buffer sizes",
			Gen: func(emit func(mc.Case)) { mc.Product(emit, len(pos), 7) },
			Run: func(c mc.Case, t *mc.T) error {
				n := pos[c[0]]
				x := strings.Repeat("x", n)
				var s string
				switch c[1] {
				case 0:
					s = "[a]\n" + x + "=1\nb=2"
				case 1:
					s = "[a]\na=" + x + "\nb=2\n"
				case 2:
					s = "[a]\n;" + x + "\nb=2"
				case 3:
					s = "[" + x + "]\na=1\nb=2"
				case 4:
					s = "[a]" + strings.Repeat(" ", n) + "\na" + strings.Repeat(" ", n) + "=" + strings.Repeat("\t", n) + "1"
				case 5:
					var b strings.Builder
					b.WriteString("[a]\n")
					for i := 0; i < n%5000; i++ {
						fmt.Fprintf(&b, "k%d=v%d\n", i, i)
					}
					s = b.String()
				case 6:
					var b strings.Builder
					for i := 0; i < n%2000; i++ {
						fmt.Fprintf(&b, "[s%d]\nk=v%d\n", i, i)
					}
					s = b.String()
				}
				return check(s, t)
			}})
		dir, err := os.MkdirTemp("", "gxv-ini-")
		if err != nil {
			panic(err)
		}
		r.Enumerate(mc.Enum{Name: "files", Bounds: "every pair of line kinds as a file; missing files and missing directories", Serial: true,
			Gen: func(emit func(mc.Case)) {
				emit(mc.Case{})
				mc.Strings(len(lines), 1, 2, emit)
			},
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps++
				if len(c) == 0 {
					for _, p := range []string{"missing.ini", "nodir/x.ini", ""} {
						f, err := ini.New(filepath.Join(dir, p) + map[bool]string{true: "/none", false: ""}[p == ""])
						if err == nil {
							return fmt.Errorf("missing file %q opened: %v", p, f)
						}
					}
					return nil
				}
				s := join(c, lines, len(c)%2)
				p := filepath.Join(dir, "f.ini")
				if err := os.WriteFile(p, []byte(s), 0600); err != nil {
					return nil
				}
				f, err := ini.New(p)
				if err != nil {
					return fmt.Errorf("New: %v", err)
				}
				return compare(f, parse(s), t)
			}})
		os.RemoveAll(dir)
	})
}

func cat(c mc.Case, al []string) string {
	var b strings.Builder
	for _, x := range c {
		b.WriteString(al[x])
	}
	return b.String()
}
