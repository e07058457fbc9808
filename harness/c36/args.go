package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/vipally/gx/fs"
	"gxv/mc"
)

// A wrapped operation does the same on two paths: through gx and through os.
type wrapped struct {
	name string
	gx   func(p fs.FilePathObject) error
	os   func(p string) error
}

// twins runs an operation on three kinds of entries (a file, a directory, nothing, a
// link to the file, a dangling link) in two equal directories.
func twins(w wrapped, t *mc.T) error {
	s := newInst(true)
	defer s.Close()
	for _, k := range []string{"i", "t"} {
		for _, e := range []error{
			os.WriteFile(s.full(k, "f"), []byte("data"), 0644),
			os.Mkdir(s.full(k, "d"), 0755),
			os.Symlink("f", s.full(k, "l")),
			os.Symlink("nowhere", s.full(k, "g")),
		} {
			if e != nil {
				panic(e)
			}
		}
	}
	for _, p := range []string{"f", "d", "l", "g", "n", "f/x", "d/x"} {
		a, b := w.gx(fs.FilePath(s.me("i", p))), w.os(s.me("t", p))
		t.Steps++
		if code(a) != code(b) {
			return fmt.Errorf("%s of %s: %v, expected %v", w.name, p, a, b)
		}
		if x, y := s.tree("i"), s.tree("t"); x != y {
			return fmt.Errorf("after %s of %s the directory is\n%s\nexpected\n%s", w.name, p, x, y)
		}
		os.Chmod(s.full("i", "d"), 0755)
		os.Chmod(s.full("t", "d"), 0755)
	}
	return nil
}

func used(f *os.File, err error) error {
	if err != nil {
		return err
	}
	defer f.Close()
	b := make([]byte, 2)
	n, e1 := f.Read(b)
	_, e2 := f.Write([]byte("new"))
	return seen(fmt.Sprintf("read %q %v wrote %v", b[:n], e1 != nil, e2 != nil))
}

// seen is what an opened file did.
type seen string

func (s seen) Error() string { return string(s) }

func perms(r *mc.Run) {
	osm := func(m int) os.FileMode {
		f := os.FileMode(m & 0777)
		for i, x := range []os.FileMode{os.ModeSticky, os.ModeSetgid, os.ModeSetuid} {
			if m>>uint(9+i)&1 != 0 {
				f |= x
			}
		}
		return f
	}
	gxm := func(m int) fs.FileMode {
		f := fs.FileMode(m & 0777)
		for i, x := range []fs.FileMode{fs.ModeSticky, fs.ModeSetgid, fs.ModeSetuid} {
			if m>>uint(9+i)&1 != 0 {
				f |= x
			}
		}
		return f
	}
	ops := []func(m int) wrapped{
		func(m int) wrapped {
			return wrapped{"Chmod", func(p fs.FilePathObject) error { return p.Chmod(gxm(m)) }, func(p string) error { return os.Chmod(p, osm(m)) }}
		},
		func(m int) wrapped {
			return wrapped{"Mkdir", func(p fs.FilePathObject) error { return p.Mkdir(gxm(m)) }, func(p string) error { return os.Mkdir(p, osm(m)) }}
		},
		func(m int) wrapped {
			return wrapped{"MkdirAll", func(p fs.FilePathObject) error { return p.MkdirAll(gxm(m)) }, func(p string) error { return os.MkdirAll(p, osm(m)) }}
		},
		func(m int) wrapped {
			fl := os.O_CREATE | os.O_RDWR
			return wrapped{"OpenFile", func(p fs.FilePathObject) error { return used(p.OpenFile(fl, gxm(m))) }, func(p string) error { return used(os.OpenFile(p, fl, osm(m))) }}
		},
	}
	r.Enumerate(mc.Enum{Name: "permissions", Bounds: "Chmod, Mkdir, MkdirAll and OpenFile with all 4096 permission and special bits on a file, a directory, links, nothing and entries below them", Gen: func(emit func(mc.Case)) {
		for i := range ops {
			for m := 0; m < 4096; m++ {
				emit(mc.Case{i, m})
			}
		}
	}, Show: func(c mc.Case) string { return fmt.Sprintf("%s %o", ops[c[0]](0).name, c[1]) }, Run: func(c mc.Case, t *mc.T) error {
		return twins(ops[c[0]](c[1]), t)
	}})
	flags := []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND, os.O_SYNC}
	ids := []int{-1, os.Getuid(), os.Getgid(), 0, 12345}
	sizes := []int{-1, 0, 1, 3, 4, 5, 4096, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 3, 5 << 30}
	r.Enumerate(mc.Enum{Name: "arguments", Bounds: "OpenFile with every access mode and set of 5 flags, Truncate to 13 sizes (to 5 GB, sparse), Chown and Lchown with 5 x 5 ids, on the same entries", Gen: func(emit func(mc.Case)) {
		for a := 0; a < 3; a++ {
			for f := 0; f < 32; f++ {
				emit(mc.Case{0, a, f})
			}
		}
		for i := range sizes {
			emit(mc.Case{1, i, 0})
		}
		for i := range ids {
			for j := range ids {
				emit(mc.Case{2, i, j})
				emit(mc.Case{3, i, j})
			}
		}
	}, Show: func(c mc.Case) string {
		switch c[0] {
		case 0:
			return fmt.Sprintf("OpenFile access %d flags %05b", c[1], c[2])
		case 1:
			return fmt.Sprintf("Truncate %d", sizes[c[1]])
		}
		return fmt.Sprintf("%s %d %d", []string{"Chown", "Lchown"}[c[0]-2], ids[c[1]], ids[c[2]])
	}, Run: func(c mc.Case, t *mc.T) error {
		switch c[0] {
		case 0:
			fl := c[1]
			for i, x := range flags {
				if c[2]>>uint(i)&1 != 0 {
					fl |= x
				}
			}
			return twins(wrapped{"OpenFile", func(p fs.FilePathObject) error { return used(p.OpenFile(fl, 0640)) }, func(p string) error { return used(os.OpenFile(p, fl, 0640)) }}, t)
		case 1:
			n := int64(sizes[c[1]])
			return twins(wrapped{"Truncate", func(p fs.FilePathObject) error { return p.Truncate(n) }, func(p string) error { return os.Truncate(p, n) }}, t)
		case 2:
			return twins(wrapped{"Chown", func(p fs.FilePathObject) error { return p.Chown(ids[c[1]], ids[c[2]]) }, func(p string) error { return os.Chown(p, ids[c[1]], ids[c[2]]) }}, t)
		}
		return twins(wrapped{"Lchown", func(p fs.FilePathObject) error { return p.Lchown(ids[c[1]], ids[c[2]]) }, func(p string) error { return os.Lchown(p, ids[c[1]], ids[c[2]]) }}, t)
	}})
	r.Enumerate(mc.Enum{Name: "constants", Bounds: "all 14 exported mode constants; NewFile on every open descriptor of a pipe", Gen: func(emit func(mc.Case)) {
		for i := range gxModes {
			emit(mc.Case{i})
		}
		emit(mc.Case{-1})
	}, Run: func(c mc.Case, t *mc.T) error {
		if i := c[0]; i >= 0 {
			if os.FileMode(gxModes[i]) != osModes[i] {
				return fmt.Errorf("mode constant %d is %v, expected %v", i, os.FileMode(gxModes[i]), osModes[i])
			}
			return nil
		}
		rd, wr, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		fd, err := syscall.Dup(int(wr.Fd()))
		if err != nil {
			panic(err)
		}
		wr.Close()
		f := fs.FilePath("some/name").NewFile(uintptr(fd))
		if f == nil || f.Name() != "some/name" || f.Fd() != uintptr(fd) {
			return fmt.Errorf("NewFile gives %v", f)
		}
		f.WriteString("hello")
		f.Close()
		b := make([]byte, 9)
		if n, err := rd.Read(b); string(b[:n]) != "hello" {
			return fmt.Errorf("NewFile: %q %v arrives", b[:n], err)
		}
		rd.Close()
		return nil
	}})
}

var (
	gxModes = []fs.FileMode{fs.ModeDir, fs.ModeAppend, fs.ModeExclusive, fs.ModeTemporary, fs.ModeSymlink, fs.ModeDevice, fs.ModeNamedPipe, fs.ModeSocket, fs.ModeSetuid, fs.ModeSetgid, fs.ModeCharDevice, fs.ModeSticky, fs.ModeType, fs.ModePerm}
	osModes = []os.FileMode{os.ModeDir, os.ModeAppend, os.ModeExclusive, os.ModeTemporary, os.ModeSymlink, os.ModeDevice, os.ModeNamedPipe, os.ModeSocket, os.ModeSetuid, os.ModeSetgid, os.ModeCharDevice, os.ModeSticky, os.ModeType, os.ModePerm}
)

// destinations: where a destination of any shape lies, for objects of any shape.  The
// object does not exist, so Rename, Move and Link fail and only the path they return
// counts; Symlink makes a dangling link where it can.
func destinations(r *mc.Run) {
	const alpha = "a./b"
	n := r.Pick(4, 6)
	m := r.Pick(3, 4)
	word := func(c []int) string {
		b := make([]byte, len(c))
		for i, x := range c {
			b[i] = alpha[x]
		}
		return string(b)
	}
	// deep enough for every .. to stay in the scratch directory
	if err := os.MkdirAll("w/w/w/w/w", 0755); err != nil {
		panic(err)
	}
	if err := os.Chdir("w/w/w/w/w"); err != nil {
		panic(err)
	}
	defer os.Chdir(scratch)
	r.Enumerate(mc.Enum{Name: "destinations", Bounds: fmt.Sprintf("objects with every directory part of up to %d of the characters a . / b, every destination of up to %d of them: Rename, Move, Link, Symlink", m, n), Gen: func(emit func(mc.Case)) {
		var rec func(c mc.Case, max int, f func(mc.Case))
		rec = func(c mc.Case, max int, f func(mc.Case)) {
			f(c)
			if len(c) == max {
				return
			}
			for x := range alpha {
				rec(append(c[:len(c):len(c)], x), max, f)
			}
		}
		rec(nil, m, func(a mc.Case) {
			rec(nil, n, func(b mc.Case) {
				emit(append(append(append(mc.Case{len(a)}, a...), b...)))
			})
		})
	}, Show: func(c mc.Case) string {
		return fmt.Sprintf("%q to %q", word(c[1:1+c[0]])+"/missing", word(c[1+c[0]:]))
	}, Run: func(c mc.Case, t *mc.T) error {
		d, to := word(c[1:1+c[0]]), word(c[1+c[0]:])
		me := "missing"
		if d != "" {
			me = d + "/missing"
		}
		o := fs.FilePath(me)
		want := filepath.Clean(to)
		if !strings.HasPrefix(to, "/") {
			want = filepath.Join(filepath.Dir(filepath.Clean(me)), to)
		}
		ops := []func(string) (fs.FilePathObject, error){o.Rename, o.Move, o.Link, o.Symlink}
		for i, f := range ops {
			g, err := f(to)
			t.Steps++
			name := []string{"Rename", "Move", "Link", "Symlink"}[i]
			if err == nil && i < 3 {
				return fmt.Errorf("%s of a missing file succeeds", name)
			}
			if g.String() != want {
				return fmt.Errorf("%s returns %q, expected %q", name, g, want)
			}
			if i == 3 && err == nil {
				l, e := os.Readlink(want)
				os.Remove(want)
				if e != nil || l != o.String() {
					return fmt.Errorf("Symlink makes %q (%v)", l, e)
				}
			}
		}
		return nil
	}, Serial: true})
}
