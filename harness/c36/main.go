// C36: file operations of path objects.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vipally/gx/fs"
	"gxv/mc"
)

var (
	scratch string
	serial  int64
	paths   = []string{"a", "b", "d", "d/x"}
	dests   = []string{"b", "./d//x", "../b", "/d/y", "x", "/b"} // a leading / stands for the root of the instance
	modes   = []os.FileMode{0500, 0700}
)

// inst has two equal directories: one is changed through gx, its twin through os.
type inst struct {
	abs bool
	id  int64
	old time.Time
}

func newInst(abs bool) *inst {
	s := &inst{abs: abs, id: atomic.AddInt64(&serial, 1)}
	for _, k := range []string{"i", "t"} {
		if err := os.MkdirAll(s.full(k, ""), 0755); err != nil {
			panic(err)
		}
	}
	return s
}

// full is the absolute path of p in tree k.
func (s *inst) full(k, p string) string { return filepath.Join(s.box(k), "r", p) }

// box is the directory above tree k: destinations with .. stay in it.
func (s *inst) box(k string) string { return filepath.Join(scratch, fmt.Sprint(k, s.id)) }

// me is the path as the object is given it.
func (s *inst) me(k, p string) string {
	if s.abs {
		return s.full(k, p)
	}
	return filepath.Join(fmt.Sprint(k, s.id), "r", p)
}

// dest is a destination argument.
func (s *inst) dest(k string, d string) string {
	if strings.HasPrefix(d, "/") {
		return s.full(k, d)
	}
	return d
}

// want is where a destination lies.
func (s *inst) want(k, p, d string) string {
	if strings.HasPrefix(d, "/") {
		return s.full(k, d)
	}
	return filepath.Join(filepath.Dir(s.me(k, p)), d)
}

func (s *inst) Close() {
	for _, k := range []string{"i", "t"} {
		r := s.box(k)
		filepath.Walk(r, func(p string, i os.FileInfo, err error) error {
			if i != nil && i.IsDir() {
				os.Chmod(p, 0700)
			}
			return nil
		})
		os.RemoveAll(r)
	}
}

func (s *inst) Ops() (r []mc.Op) {
	for p := range paths {
		for _, o := range []string{"Create", "Append", "Excl", "Mkdir", "MkdirAll", "fs.Create", "Remove", "RemoveAll", "Truncate", "Chtimes"} {
			r = append(r, mc.O(o, p))
		}
		for m := range modes {
			r = append(r, mc.O("Chmod", p, m))
		}
		for d := range dests {
			for _, o := range []string{"Rename", "Move", "Link", "Symlink"} {
				r = append(r, mc.O(o, p, d))
			}
		}
	}
	return
}

func code(e error) string {
	if e == nil {
		return "ok"
	}
	var n syscall.Errno
	if errors.As(e, &n) {
		return n.Error()
	}
	if s, ok := e.(seen); ok {
		return string(s)
	}
	return "error"
}

func put(f *os.File, e error, data string) error {
	if e != nil {
		return e
	}
	_, e = f.WriteString(data)
	if e2 := f.Close(); e == nil {
		e = e2
	}
	return e
}

var stamp = time.Unix(1000000000, 0)

func (s *inst) Do(o mc.Op) error {
	p := paths[o.A[0]]
	ip, tp := fs.FilePath(s.me("i", p)), s.me("t", p)
	var a, b error
	if len(o.A) == 2 && o.N != "Chmod" {
		d := dests[o.A[1]]
		w := s.want("t", p, d)
		var n fs.FilePathObject
		switch o.N {
		case "Rename":
			n, a = ip.Rename(s.dest("i", d))
			b = os.Rename(tp, w)
		case "Move":
			n, a = ip.Move(s.dest("i", d))
			b = os.Rename(tp, w)
		case "Link":
			n, a = ip.Link(s.dest("i", d))
			b = os.Link(tp, w)
		case "Symlink":
			n, a = ip.Symlink(s.dest("i", d))
			b = os.Symlink(tp, w)
		}
		if x := s.want("i", p, d); n.String() != x {
			return fmt.Errorf("%s of %s to %s returns %s, expected %s", o.N, ip, s.dest("i", d), n, x)
		}
	} else {
		switch o.N {
		case "Create":
			f, e := ip.Create()
			a = put(f, e, "new")
			f, e = os.Create(tp)
			b = put(f, e, "new")
		case "Append":
			f, e := ip.OpenFile(os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0640)
			a = put(f, e, "+")
			f, e = os.OpenFile(tp, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0640)
			b = put(f, e, "+")
		case "Excl":
			f, e := ip.OpenFile(os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
			a = put(f, e, "excl")
			f, e = os.OpenFile(tp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
			b = put(f, e, "excl")
		case "Mkdir":
			a, b = ip.Mkdir(0750), os.Mkdir(tp, 0750)
		case "MkdirAll":
			a, b = ip.MkdirAll(0711), os.MkdirAll(tp, 0711)
		case "fs.Create":
			a, b = fs.Create(ip.String()), os.MkdirAll(tp, 0777)
		case "Remove":
			a, b = ip.Remove(), os.Remove(tp)
		case "RemoveAll":
			a, b = ip.RemoveAll(), os.RemoveAll(tp)
		case "Truncate":
			a, b = ip.Truncate(2), os.Truncate(tp, 2)
		case "Chmod":
			a, b = ip.Chmod(fs.FileMode(modes[o.A[1]])), os.Chmod(tp, modes[o.A[1]])
		case "Chtimes":
			a, b = ip.Chtimes(stamp.Add(time.Hour), stamp), os.Chtimes(tp, stamp.Add(time.Hour), stamp)
			if a == nil {
				st, e := os.Stat(ip.String())
				if e != nil || !st.ModTime().Equal(stamp) {
					return fmt.Errorf("Chtimes: modification time %v (%v)", st.ModTime(), e)
				}
				if ac := st.Sys().(*syscall.Stat_t).Atim; ac.Sec != stamp.Unix()+3600 {
					return fmt.Errorf("Chtimes: access time %v", ac)
				}
			}
		}
	}
	if code(a) != code(b) {
		return fmt.Errorf("%s of %s: %v, expected %v", o.N, ip, a, b)
	}
	return nil
}

// tree lists everything below a directory.
func (s *inst) tree(k string) string {
	var l []string
	root := s.box(k)
	var walk func(rel string)
	walk = func(rel string) {
		p := filepath.Join(root, rel)
		st, err := os.Lstat(p)
		if err != nil {
			l = append(l, rel+" ! "+code(err))
			return
		}
		sys := st.Sys().(*syscall.Stat_t)
		d := fmt.Sprintf("%s %v", rel, st.Mode())
		switch {
		case st.IsDir():
			es, err := os.ReadDir(p)
			d += " " + code(err)
			for _, e := range es {
				walk(filepath.Join(rel, e.Name()))
			}
		case st.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			t = strings.Replace(t, s.me(k, ""), "ROOT", 1)
			d += " -> " + t
		default:
			var b []byte
			if st.Size() > 1<<21 { // sparse: the start stands for the content
				b = make([]byte, 64)
				var f *os.File
				if f, err = os.Open(p); err == nil {
					_, err = f.ReadAt(b, 0)
					f.Close()
				}
				d += fmt.Sprint(" size ", st.Size())
			} else {
				b, err = os.ReadFile(p)
			}
			d += fmt.Sprintf(" %q %s links %d", b, code(err), sys.Nlink)
		}
		l = append(l, d)
	}
	walk("")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (s *inst) Check() error {
	a, b := s.tree("i"), s.tree("t")
	if a != b {
		return fmt.Errorf("the directory is\n%s\nexpected\n%s", a, b)
	}
	for _, p := range append([]string{"d/y", "d/x/x", "none"}, paths...) {
		o, f := fs.FilePath(s.me("i", p)), s.full("i", p)
		cmp := func(what string, g os.FileInfo, e error, w os.FileInfo, we error) error {
			if code(e) != code(we) {
				return fmt.Errorf("%s(%s): %v, expected %v", what, p, e, we)
			}
			if e == nil && (!os.SameFile(g, w) || g.Mode() != w.Mode() || g.Size() != w.Size()) {
				return fmt.Errorf("%s(%s) describes another file", what, p)
			}
			return nil
		}
		g, e := o.Stat()
		w, we := os.Stat(f)
		if err := cmp("Stat", g, e, w, we); err != nil {
			return err
		}
		g, e = o.Lstat()
		w, we = os.Lstat(f)
		if err := cmp("Lstat", g, e, w, we); err != nil {
			return err
		}
		t1, e1 := o.Readlink()
		t2, e2 := os.Readlink(f)
		if t1 != t2 || code(e1) != code(e2) {
			return fmt.Errorf("Readlink(%s): %q %v, expected %q %v", p, t1, e1, t2, e2)
		}
		t1, e1 = o.EvalSymlinks()
		t2, e2 = filepath.EvalSymlinks(s.me("i", p))
		if t1 != t2 || code(e1) != code(e2) {
			return fmt.Errorf("EvalSymlinks(%s): %q %v, expected %q %v", p, t1, e1, t2, e2)
		}
		fl, e1 := o.Open()
		var got []byte
		if e1 == nil {
			got, e1 = io.ReadAll(fl)
			fl.Close()
		}
		exp, e2 := os.ReadFile(f)
		if string(got) != string(exp) || code(e1) != code(e2) {
			return fmt.Errorf("Open(%s): reads %q %v, expected %q %v", p, got, e1, exp, e2)
		}
	}
	return nil
}

func (s *inst) Drain() error { return nil }

func (s *inst) Key(d *mc.Dump) { d.String(s.tree("i")) }

func main() {
	dir := os.Getenv("GXV_SCRATCH")
	if dir == "" {
		dir, _ = os.Getwd()
	}
	var err error
	if scratch, err = os.MkdirTemp(dir, "scratch"); err != nil {
		panic(err)
	}
	if err = os.Chdir(scratch); err == nil {
		syscall.Umask(022)
		err = mc.DropPrivileges(scratch)
	}
	if err != nil {
		panic(err)
	}
	mc.Main("C36", func(r *mc.Run) {
		perms(r)
		destinations(r)
		n := r.Pick(3, 4)
		for _, abs := range []bool{true, false} {
			abs := abs
			name := map[bool]string{true: "absolute paths", false: "relative paths"}[abs]
			r.Explore(mc.Sys{Name: name, New: func() mc.Inst { return newInst(abs) }, MaxDepth: n,
				Bounds: fmt.Sprintf("every history of %d operations over 4 paths (two levels), 10 unary operations, 2 modes, 4 binary operations x 6 destinations (relative, with .., absolute); states merged on the directory tree; unprivileged user; the twin directory changed through package os", n)})
		}
		os.RemoveAll(scratch)
		r.Assume = append(r.Assume, "the operating system's file system calls behave alike in two equal directories")
	})
}
