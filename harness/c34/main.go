// C34: path objects, file sizes, working and Go path.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/vipally/gx/fs"
	"gxv/mc"
)

// clean is the reference: components on a stack.
func clean(s string) string {
	abs := strings.HasPrefix(s, "/")
	var st []string
	for _, c := range strings.Split(s, "/") {
		switch {
		case c == "" || c == ".":
		case c == ".." && len(st) > 0 && st[len(st)-1] != "..":
			st = st[:len(st)-1]
		case c == ".." && abs:
		default:
			st = append(st, c)
		}
	}
	r := strings.Join(st, "/")
	if abs {
		return "/" + r
	}
	if r == "" {
		return "."
	}
	return r
}

func elems(p string) (r []string) {
	if strings.HasPrefix(p, "/") {
		r = append(r, "/")
	}
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			r = append(r, c)
		}
	}
	return
}

func joined(a ...string) string {
	var l []string
	for _, x := range a {
		if x != "" {
			l = append(l, x)
		}
	}
	return clean(strings.Join(l, "/"))
}

var alpha = "a/.b:"

func word(c mc.Case) string {
	b := make([]byte, len(c))
	for i, x := range c {
		b[i] = alpha[x]
	}
	return string(b)
}

func one(s string, t *mc.T) error {
	p := fs.FilePath(s)
	w := clean(s)
	var q fs.FilePathObject = "zz"
	q.Set(s)
	for i, g := range []string{p.String(), p.S(), p.StringSys(), q.String(), fs.FormatPath(s), fs.FilePath(p.String()).String(), fs.FilePath("./" + p.String()).String()} {
		if i == 6 && (strings.HasPrefix(w, "/")) {
			continue
		}
		if g != w {
			return fmt.Errorf("form %d: %q, expected %q", i, g, w)
		}
	}
	all := p.SplitAll()
	if fmt.Sprintf("%q", all) != fmt.Sprintf("%q", elems(w)) {
		return fmt.Errorf("SplitAll: %q, expected %q", all, elems(w))
	}
	if g := fs.Joins(all...); g != w {
		return fmt.Errorf("Joins(SplitAll...): %q, expected %q", g, w)
	}
	base, dir := ".", "."
	if w == "/" {
		base, dir = "/", "/"
	} else {
		i := strings.LastIndex(w, "/")
		base = w[i+1:]
		if i >= 0 {
			dir = clean(w[:i+1])
		}
	}
	if g := p.Base(); g != base {
		return fmt.Errorf("Base: %q, expected %q", g, base)
	}
	if g := p.Dir(); g != dir {
		return fmt.Errorf("Dir: %q, expected %q", g, dir)
	}
	i := strings.LastIndex(w, "/")
	if d, f := p.Split(); d != w[:i+1] || f != w[i+1:] {
		return fmt.Errorf("Split: %q %q", d, f)
	}
	ext := ""
	if k := strings.LastIndex(w, "."); k > i {
		ext = w[k:]
	}
	if g := p.Ext(); g != ext {
		return fmt.Errorf("Ext: %q, expected %q", g, ext)
	}
	if g := p.VolumeName(); g != "" {
		return fmt.Errorf("VolumeName: %q", g)
	}
	if g := p.SplitList(); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", strings.Split(w, ":")) {
		return fmt.Errorf("SplitList: %q", g)
	}
	abs := w
	if !strings.HasPrefix(w, "/") {
		abs = clean(fs.WorkPath() + "/" + w)
	}
	if g, e := p.Abs(); e != nil || g != abs {
		return fmt.Errorf("Abs: %q %v, expected %q", g, e, abs)
	}
	// the functions that take the text as it is
	i = strings.LastIndex(s, "/")
	if d, f := fs.Split(s); d != s[:i+1] || f != s[i+1:] {
		return fmt.Errorf("package Split: %q %q", d, f)
	}
	if g := fs.FileName(s); g != s[i+1:] {
		return fmt.Errorf("FileName: %q", g)
	}
	if strings.HasPrefix(w, "/") {
		if g := fs.RelateWorkPath(s); joined(fs.WorkPath(), g) != w || strings.HasPrefix(g, "/") {
			return fmt.Errorf("RelateWorkPath: %q", g)
		}
		if g := p.RelateWorkPath().String(); joined(fs.WorkPath(), g) != w {
			return fmt.Errorf("RelateWorkPath: %q", g)
		}
		if g := fs.RelateGoPath(s); joined(fs.GoPath(), g) != w || strings.HasPrefix(g, "/") {
			return fmt.Errorf("RelateGoPath: %q", g)
		}
	}
	t.Steps += 22
	return nil
}

func two(a, b string, t *mc.T) error {
	p := fs.FilePath(a)
	w, v := clean(a), clean(b)
	if g, x := p.Join(b), joined(w, b); g != x {
		return fmt.Errorf("Join: %q, expected %q", g, x)
	}
	if g, x := p.Joins(b, "", a), joined(w, b, "", a); g != x {
		return fmt.Errorf("Joins: %q, expected %q", g, x)
	}
	if g, x := fs.Joins(a, b), joined(a, b); g != x {
		return fmt.Errorf("package Joins: %q, expected %q", g, x)
	}
	if g, x := p.HasPrefix(b), strings.HasPrefix(w, v); g != x {
		return fmt.Errorf("HasPrefix: %v, expected %v", g, x)
	}
	g := p.Relate(b).String()
	if g2 := fs.RelatePath(a, b); g2 != g {
		return fmt.Errorf("RelatePath %q, Relate %q", g2, g)
	}
	if w[0] == '/' == (v[0] == '/') && !strings.HasPrefix(v, "..") {
		// the shortest way from b to a
		x, y := elems(w), elems(v)
		if w == "." {
			x = nil
		}
		if v == "." {
			y = nil
		}
		k := 0
		for k < len(x) && k < len(y) && x[k] == y[k] {
			k++
		}
		r := strings.Join(append(strings.Split(strings.Repeat("../", len(y)-k), "/")[:len(y)-k], x[k:]...), "/")
		if r == "" {
			r = "."
		}
		if g != r {
			return fmt.Errorf("Relate: %q, expected %q", g, r)
		}
		if joined(v, g) != w {
			return fmt.Errorf("Relate: %q does not lead back", g)
		}
	}
	m, e := p.Match(b)
	if m2, e2 := filepath.Match(b, w); m != m2 || (e == nil) != (e2 == nil) {
		return fmt.Errorf("Match: %v %v, expected %v %v", m, e, m2, e2)
	}
	t.Steps += 7
	return nil
}

func size(n uint64) error {
	names := []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}
	i := 0
	for i < 6 && n>>(10*uint(i)) >= 1024 {
		i++
	}
	s := fs.FileSize(n).String()
	num, unit := strings.TrimRight(s, "BKMGTPE"), strings.TrimLeft(s, "0123456789.")
	if unit != names[i] {
		return fmt.Errorf("%d shows as %q, unit should be %s", n, s, names[i])
	}
	v, ok := new(big.Rat).SetString(num)
	if d := strings.Index(num, "."); !ok || d < 1 || len(num)-d != 4 {
		return fmt.Errorf("%d shows as %q: not a number with 3 decimals", n, s)
	}
	x := new(big.Rat).SetFrac(new(big.Int).SetUint64(n), new(big.Int).Lsh(big.NewInt(1), 10*uint(i)))
	x.Sub(x, v).Abs(x)
	if x.Cmp(big.NewRat(500001, 1000000000)) > 0 {
		return fmt.Errorf("%d shows as %q", n, s)
	}
	var f fs.FileSize
	f.Set(n)
	if f.N() != n || f != fs.FileSize(n) {
		return fmt.Errorf("Set/N of %d: %d", n, f.N())
	}
	return nil
}

// child processes: GOPATH at start, Chdir histories

type ask struct {
	Root string
	Ops  []string
}
type step struct{ Work, Cwd, Rel, Err, Tmp string }
type answer struct {
	GoPath string
	Steps  []step
}

func child() {
	if os.Getenv("GXV_FS_CHILD") == "" {
		return
	}
	var a ask
	json.Unmarshal([]byte(os.Getenv("GXV_FS_CHILD")), &a)
	r := answer{GoPath: fs.GoPath()}
	note := func(e error) {
		cwd, _ := os.Getwd()
		s := step{Work: fs.WorkPath(), Cwd: cwd, Rel: fs.RelateWorkPath("/x/y"), Tmp: fs.TempDir()}
		if e != nil {
			s.Err = e.Error()
		}
		r.Steps = append(r.Steps, s)
	}
	note(nil)
	for _, o := range a.Ops {
		note(fs.Chdir(o))
	}
	json.NewEncoder(os.Stdout).Encode(r)
	os.Exit(0)
}

func spawn(dir string, env []string, a ask) (*answer, error) {
	b, _ := json.Marshal(a)
	c := exec.Command(os.Args[0])
	c.Dir = dir
	c.Env = append(append(os.Environ(), env...), "PWD="+dir, "GXV_FS_CHILD="+string(b))
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("child: %v", err)
	}
	r := &answer{}
	return r, json.Unmarshal(out, r)
}

func here() (string, int, string) {
	pc, f, l, _ := runtime.Caller(1)
	return f, l, runtime.FuncForPC(pc).Name()
}

type obj struct{}

func (o *obj) lines(fn string) (err error) {
	return lines(fn)
}

func lines(fn string) error {
	f, l := fs.FileLine(); wf, wl, _ := here() // one line: both see the same position
	if f != wf || l != wl {
		return fmt.Errorf("%s: FileLine %s:%d, expected %s:%d", fn, f, l, wf, wl)
	}
	f, l = fs.RelateFileLine(); wf, wl, _ = here()
	if joined(fs.GoPath(), f) != clean(wf) || l != wl {
		return fmt.Errorf("%s: RelateFileLine %s:%d, expected %s:%d", fn, f, l, wf, wl)
	}
	g := fs.Func(); _, wl, wn := here()
	if g != fmt.Sprintf("%s : %d", wn, wl) {
		return fmt.Errorf("%s: Func %q, expected %q", fn, g, fmt.Sprintf("%s : %d", wn, wl))
	}
	func() {
		g = fs.Func(); _, wl, wn = here()
		f, l = fs.FileLine(); wf, _, _ = here()
	}()
	if g != fmt.Sprintf("%s : %d", wn, wl) || f != wf || l != wl+1 {
		return fmt.Errorf("%s: in a closure Func %q, expected %q; line %d", fn, g, fmt.Sprintf("%s : %d", wn, wl), l)
	}
	return nil
}

func brief(err error) error {
	if s := err.Error(); len(s) > 400 {
		return fmt.Errorf("%s...", s[:400])
	}
	return err
}

func main() {
	child()
	mc.Main("C34", func(r *mc.Run) {
		n1, n2 := r.Pick(9, 10), r.Pick(4, 5)
		r.Enumerate(mc.Enum{Name: "one path", Bounds: fmt.Sprintf("every text of up to %d characters of %q", n1, alpha), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(alpha), 0, n1, emit)
		}, Show: func(c mc.Case) string { return fmt.Sprintf("%q", word(c)) }, Run: func(c mc.Case, t *mc.T) error {
			return one(word(c), t)
		}})
		r.Enumerate(mc.Enum{Name: "two paths", Bounds: fmt.Sprintf("every pair of texts of up to %d characters of %q", n2, alpha), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(alpha), 0, n2, func(a mc.Case) {
				x := append(mc.Case{len(a)}, a...)
				mc.Strings(len(alpha), 0, n2, func(b mc.Case) { emit(append(append(mc.Case(nil), x...), b...)) })
			})
		}, Show: func(c mc.Case) string {
			return fmt.Sprintf("%q %q", word(c[1:1+c[0]]), word(c[1+c[0]:]))
		}, Run: func(c mc.Case, t *mc.T) error {
			return two(word(c[1:1+c[0]]), word(c[1+c[0]:]), t)
		}})
		// deep paths: components instead of characters
		comp := []string{"", ".", "..", "ab", "c.d", ".e", "...", "f "}
		nc := r.Pick(5, 6)
		r.Enumerate(mc.Enum{Name: "components", Bounds: fmt.Sprintf("every path of up to %d of %d components, relative and absolute", nc, len(comp)), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(comp), 1, nc, emit)
		}, Show: func(c mc.Case) string {
			var l []string
			for _, x := range c {
				l = append(l, comp[x])
			}
			return fmt.Sprintf("%q", strings.Join(l, "/"))
		}, Run: func(c mc.Case, t *mc.T) error {
			var l []string
			for _, x := range c {
				l = append(l, comp[x])
			}
			s := strings.Join(l, "/")
			if err := one(s, t); err != nil {
				return err
			}
			if err := one("/"+s, t); err != nil {
				return fmt.Errorf("absolute: %v", err)
			}
			k := len(l) / 2
			if err := two(s, strings.Join(l[:k], "/"), t); err != nil {
				return err
			}
			return two("/"+s, "/"+strings.Join(l[k:], "/"), t)
		}})
		// every byte in every position of small paths
		forms := []string{"*", "**", "*a", "a*", "a*b", "*/a", "a/*", "a/*/b", "/*", "/*/", "*/..", "*/../a", "../*", "./*", ".*", "*.", "a.*", "*.a", "..*", "*..", "*.*", "/a/*/../b", "a/*b/c", "*/*/*", "a//*", "a/*.go"}
		r.Enumerate(mc.Enum{Name: "bytes", Bounds: fmt.Sprintf("every byte value in %d small paths; pairs of them, also with the letter in the other case", len(forms)), Gen: func(emit func(mc.Case)) {
			for b := 0; b < 256; b++ {
				emit(mc.Case{b})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			x, y := string([]byte{byte(c[0])}), string([]byte{byte(c[0]) ^ 0x20})
			for _, f := range forms {
				p := strings.Replace(f, "*", x, -1)
				if err := one(p, t); err != nil {
					return fmt.Errorf("%q: %v", p, err)
				}
				for _, g := range forms {
					for _, z := range []string{x, y} {
						q := strings.Replace(g, "*", z, -1)
						if err := two(p, q, t); err != nil {
							return fmt.Errorf("%q, %q: %v", p, q, err)
						}
					}
				}
			}
			return nil
		}, Small: true})
		r.Enumerate(mc.Enum{Name: "long paths", Bounds: "paths of 6..70 and 20 more numbers up to 5000 components, 6 patterns of dots and dot-dots between names, and one long component among short ones; relative and absolute, with a common part of every tenth length", Gen: func(emit func(mc.Case)) {
			ns := append([]int{}, mc.Large...)
			for i := 6; i <= 70; i++ {
				ns = append(ns, i)
			}
			for _, n := range append(ns, 100, 128, 200, 256) {
				for p := 0; p < 7; p++ {
					emit(mc.Case{n, p})
				}
			}
		}, Small: true, Run: func(c mc.Case, t *mc.T) error {
			var l []string
			for i := 0; i < c[0]; i++ {
				x := fmt.Sprintf("n%d", i)
				switch c[1] {
				case 1:
					if i%5 == 4 {
						x = ".."
					}
				case 2:
					if i%3 == 2 {
						x = "."
					}
				case 3: // down and up again, beyond the start
					if i > c[0]/2-2 {
						x = ".."
					}
				case 4:
					x = "d."
				case 5:
					if i%7 == 3 {
						x = ""
					}
				case 6:
					if i > 4 {
						l[i%3] += "."
						l[3] += "x"
						continue
					}
				}
				l = append(l, x)
			}
			s := strings.Join(l, "/")
			if err := one(s, t); err != nil {
				return brief(err)
			}
			if err := one("/"+s+"/", t); err != nil {
				return brief(fmt.Errorf("absolute: %v", err))
			}
			for k := 0; k <= len(l); k += 1 + len(l)/10 {
				if err := two(s, strings.Join(l[:k], "/"), t); err != nil {
					return brief(err)
				}
				if err := two("/"+strings.Join(l[:k], "/")+"/other", "/"+s, t); err != nil {
					return brief(err)
				}
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "sizes", Bounds: "every size within 4096 of k*2^j for k=1..1023 step pattern and of powers of two and ten, all sizes below 2^21 (thorough 2^25)", Gen: func(emit func(mc.Case)) {
			top := r.Pick(1<<21, 1<<25) >> 12
			for i := 0; i < top; i++ {
				emit(mc.Case{0, i})
			}
			for j := 0; j < 64; j++ {
				emit(mc.Case{1, j})
			}
			for j := 0; j < 20; j++ {
				emit(mc.Case{2, j})
			}
			for j := 10; j < 64; j++ {
				for k := 1; k < 1024; k += 1 {
					emit(mc.Case{3, j, k})
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			lo, n := uint64(0), uint64(4096)
			switch c[0] {
			case 0:
				lo = uint64(c[1]) << 12
			case 1:
				lo = uint64(1)<<uint(c[1]) - 2048
			case 2:
				lo = uint64(math.Pow10(c[1])) - 2048
			case 3:
				// k/1024 of 2^j, where the rounded digits change
				lo, n = uint64(c[2])<<uint(c[1]-10)-8, 16
				if c[2] >= 1<<10 || c[1] == 63 && c[2] == 0 {
					return nil
				}
			}
			for i := uint64(0); i < n; i++ {
				if err := size(lo + i); err != nil {
					return err
				}
			}
			t.Steps += int64(n) * 3
			t.States += int64(n)
			return nil
		}})
		gop := []string{"", "/a", "/a:/b", "/a/:/b", "/a/../c:/b:/d", ":/b", "/x;y:/b", "rel:/b"}
		r.Enumerate(mc.Enum{Name: "GoPath", Bounds: "GOPATH values with 0..3 list elements, in child processes", Gen: func(emit func(mc.Case)) {
			for i := range gop {
				emit(mc.Case{i})
			}
		}, Show: func(c mc.Case) string { return "GOPATH=" + gop[c[0]] }, Run: func(c mc.Case, t *mc.T) error {
			a, err := spawn("/", []string{"GOPATH=" + gop[c[0]]}, ask{})
			if err != nil {
				return err
			}
			if w := clean(strings.Split(gop[c[0]], ":")[0] + "/src"); gop[c[0]] != "" && a.GoPath != w {
				return fmt.Errorf("GoPath %q, expected %q", a.GoPath, w)
			}
			t.Steps++
			return nil
		}})
		root, err := os.MkdirTemp("", "gxv34")
		if err != nil {
			panic(err)
		}
		root, _ = filepath.EvalSymlinks(root)
		os.MkdirAll(root+"/a/b", 0755)
		os.WriteFile(root+"/a/f", nil, 0644)
		ops := []string{"a", "..", "b", ".", root, root + "/a/./b/..", "missing", "a/f", "./a//b/"}
		no := r.Pick(3, 4)
		r.Enumerate(mc.Enum{Name: "Chdir", Bounds: fmt.Sprintf("every history of %d Chdir calls over %d targets (missing ones and files too), in child processes: WorkPath, RelateWorkPath and TempDir after each", no, len(ops)), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(ops), no, no, emit)
		}, Show: func(c mc.Case) string {
			var l []string
			for _, x := range c {
				l = append(l, ops[x])
			}
			return strings.Join(l, " > ")
		}, Run: func(c mc.Case, t *mc.T) error {
			q := ask{}
			for _, x := range c {
				q.Ops = append(q.Ops, ops[x])
			}
			a, err := spawn(root, []string{"TMPDIR=" + root + "//a/../t/"}, q)
			if err != nil {
				return err
			}
			cur := root
			for i, s := range a.Steps {
				if i > 0 {
					n := q.Ops[i-1]
					if !strings.HasPrefix(n, "/") {
						n = cur + "/" + n
					}
					n = clean(n)
					st, e := os.Stat(n)
					ok := e == nil && st.IsDir()
					if ok {
						cur = n
					}
					if ok != (s.Err == "") {
						return fmt.Errorf("Chdir %d: error %q, expected success %v", i, s.Err, ok)
					}
				}
				if s.Work != cur || s.Cwd != cur {
					return fmt.Errorf("after %d: WorkPath %q, real %q, expected %q", i, s.Work, s.Cwd, cur)
				}
				if joined(cur, s.Rel) != "/x/y" {
					return fmt.Errorf("after %d: RelateWorkPath(/x/y)=%q in %q", i, s.Rel, cur)
				}
				if s.Tmp != root+"/t" {
					return fmt.Errorf("TempDir %q", s.Tmp)
				}
				t.Steps += 3
			}
			return nil
		}})
		os.RemoveAll(root)
		r.Enumerate(mc.Enum{Name: "caller", Bounds: "FileLine, RelateFileLine and Func from a function, a method, a closure, a deferred call and a goroutine", Gen: func(emit func(mc.Case)) {
			for i := 0; i < 5; i++ {
				emit(mc.Case{i})
			}
		}, Run: func(c mc.Case, t *mc.T) (err error) {
			t.Steps += 4
			switch c[0] {
			case 0:
				return lines("function")
			case 1:
				return (&obj{}).lines("method")
			case 2:
				return func() error { return lines("closure") }()
			case 3:
				func() {
					defer func() { err = lines("deferred") }()
				}()
				return
			}
			ch := make(chan error)
			go func() { ch <- lines("goroutine") }()
			return <-ch
		}})
	})
}
