// C35: directory listings, statistics and content hashes.
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"hash/crc64"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/vipally/gx/fs"
	xhash "github.com/vipally/gx/hash"
	"gxv/mc"
)

// ent is an entry of the model.
type ent struct {
	name string
	path string
	dir  bool
	data string
	sub  []*ent
	bad  bool // not readable
}

var contents = []string{"", "x", "y", "xx\x00y"}
var nfile = 3 // contents in use

// A case is a tree in prefix code: 0 closes a directory, 1 opens one, 2+k is a file
// with content k.
func trees(n int, emit func(mc.Case)) {
	var c mc.Case
	var rec func(left, open int)
	rec = func(left, open int) {
		if left == 0 {
			emit(append(append(mc.Case(nil), c...), make(mc.Case, open)...))
			return
		}
		for k := 1; k < 2+nfile; k++ {
			c = append(c, k)
			o := open
			if k == 1 {
				o++
			}
			rec(left-1, o)
			c = c[:len(c)-1]
		}
		if open > 0 {
			c = append(c, 0)
			rec(left, open-1)
			c = c[:len(c)-1]
		}
	}
	rec(n, 0)
}

func show(c mc.Case) string {
	s := "{"
	for _, x := range c {
		switch {
		case x == 0:
			s += " }"
		case x == 1:
			s += " {"
		case x-2 < len(contents):
			s += fmt.Sprintf(" %q", contents[x-2])
		default:
			s += fmt.Sprintf(" file%d", x)
		}
	}
	return s + " }"
}

var names = []string{"m", "c.t", "z", "a", "q q", "b", "y", "0", ".h", "k"}

var special = []string{"A", "a", "B", ".h", "..x", "...", "_x", "~", "x~", "#x#", "\u00e9", "e\u0301", "\u4e16", "a\nb", "x.go", "x_test.go", "-r", "*", "[a]", "$HOME", "%s", "\\", "a\\b", strings.Repeat("n", 255), "\xff", ".git", "vendor", "node_modules", "x.exe", "x.lnk", "Thumbs.db", ".DS_Store", "x.tmp", " ", "a ", " a", "a.", "0", "00", "testdata", "x:y", "x\ty", "." + strings.Repeat("d", 30), ".." + strings.Repeat("e", 200), "_" + strings.Repeat("f", 64), strings.Repeat(".", 40), strings.Repeat("g.", 60), strings.Repeat("\u4e16", 50)}

// build makes the model of a case; names differ in order from creation.
func build(root string, c mc.Case, names []string, data func(i int) string) *ent {
	r := &ent{name: filepath.Base(root), path: root, dir: true}
	st := []*ent{r}
	n := 0
	for _, x := range c {
		p := st[len(st)-1]
		if x == 0 {
			st = st[:len(st)-1]
			continue
		}
		e := &ent{name: names[n%len(names)]}
		if n >= len(names) {
			e.name += fmt.Sprint(n)
		}
		n++
		e.path = p.path + "/" + e.name
		if x == 1 {
			e.dir = true
			st = append(st, e)
		} else {
			e.data = data(x - 2)
		}
		p.sub = append(p.sub, e)
	}
	return r
}

func (e *ent) make() error {
	if !e.dir {
		return os.WriteFile(e.path, []byte(e.data), 0644)
	}
	if err := os.Mkdir(e.path, 0755); err != nil {
		return err
	}
	for _, s := range e.sub {
		if err := s.make(); err != nil {
			return err
		}
	}
	return nil
}

func (e *ent) walk(f func(*ent)) {
	f(e)
	for _, s := range e.sub {
		s.walk(f)
	}
}

// The options of the model; the package's constants stand for them one by one.
const (
	oDir = 1 << iota
	oFile
	oFull
	oDeep
	oLeaf
)

var flags = []fs.FsOption{fs.FsDir, fs.FsFile, fs.FsFullPath, fs.FsDeep, fs.FsLeaf}

func option(o int) (r fs.FsOption) {
	r = fs.FsNone
	for i, f := range flags {
		if o>>uint(i)&1 != 0 {
			r |= f
		}
	}
	return
}

// collect is the specification of CollectSubs; ok=false: an unreadable directory is met.
func (e *ent) collect(o int) (r []string, ok bool) {
	if e.bad {
		return nil, false
	}
	has := func(b int) bool { return o&b != 0 }
	name := func(x *ent) string {
		if has(oFull) {
			return x.path
		}
		return x.name
	}
	leaf := true
	for _, s := range e.sub {
		if s.dir {
			leaf = false
			if has(oDir) && !has(oLeaf) {
				r = append(r, name(s))
			}
			if has(oDeep) || has(oLeaf) {
				l, ok := s.collect(o)
				if !ok {
					return nil, false
				}
				r = append(r, l...)
			}
		} else if has(oFile) {
			r = append(r, name(s))
		}
	}
	if leaf && has(oLeaf) && has(oDir) {
		r = append(r, name(e))
	}
	return r, true
}

func set(l []string) string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func (e *ent) lists(t *mc.T) error {
	cmp := func(what string, o int, got []string, err error) error {
		w, ok := e.collect(o)
		t.Steps++
		if ok != (err == nil) {
			return fmt.Errorf("%s: error %v, expected success %v", what, err, ok)
		}
		if ok && set(got) != set(w) {
			return fmt.Errorf("%s: %s, expected %s", what, set(got), set(w))
		}
		return nil
	}
	for o := 0; o < 32; o++ {
		g, err := fs.CollectSubs(e.path, option(o))
		if err := cmp(fmt.Sprintf("CollectSubs(%b)", o), o, g, err); err != nil {
			return err
		}
	}
	if g, err := fs.CollectSubs(e.path, fs.FsAll); true {
		if err := cmp("CollectSubs(FsAll)", oDir|oFile, g, err); err != nil {
			return err
		}
	}
	for i, f := range []func(string) ([]string, error){fs.GetLeafDirs, fs.GetSubDirs, fs.GetSubFiles, fs.GetSubs, fs.GetDeepFiles} {
		g, err := f(e.path)
		o := []int{oDir | oLeaf | oFull, oDir, oFile, oDir | oFile, oFile | oDeep}[i]
		if err := cmp([]string{"GetLeafDirs", "GetSubDirs", "GetSubFiles", "GetSubs", "GetDeepFiles"}[i], o, g, err); err != nil {
			return err
		}
	}
	// Statistic and Walk
	var d, f int
	var size uint64
	var all []string
	bad := 0
	e.walk(func(x *ent) {
		all = append(all, x.path)
		if x.dir {
			d++
			if x.bad {
				bad++
			}
		} else {
			f++
			size += uint64(len(x.data))
		}
	})
	if bad == 0 {
		gd, gf, gs, info := fs.FilePath(e.path).Statistic()
		if gd != d || gf != f || gs != size || info != "" {
			return fmt.Errorf("Statistic: %d dirs %d files %d bytes %q, expected %d %d %d", gd, gf, gs, info, d, f, size)
		}
		var seen []string
		err := fs.FilePath(e.path).Walk(func(p string, i fs.FileInfo, err error) error {
			seen = append(seen, p)
			return err
		})
		if err != nil || set(seen) != set(all) {
			return fmt.Errorf("Walk: %s %v", set(seen), err)
		}
		t.Steps += 2
	} else {
		// what lies below an unreadable directory is not seen, the rest is counted
		var unread []string
		var rest func(x *ent)
		d, f, size = 0, 0, 0
		rest = func(x *ent) {
			if x.bad {
				unread = append(unread, x.path)
				return
			}
			if !x.dir {
				f++
				size += uint64(len(x.data))
			}
			for _, s := range x.sub {
				rest(s)
			}
		}
		rest(e)
		_, gf, gs, info := fs.FilePath(e.path).Statistic()
		if gf != f || gs != size {
			return fmt.Errorf("Statistic: %d files %d bytes outside unreadable directories, expected %d %d", gf, gs, f, size)
		}
		for _, p := range unread {
			if !strings.Contains(info, p) {
				return fmt.Errorf("Statistic reports %q about the unreadable directory %s", info, p)
			}
		}
	}
	return nil
}

// hashes

type info struct {
	hash  string
	size  int
	paths []string // of the node and all below, with hash, size, kind
}

var iso = crc64.MakeTable(crc64.ISO)

const fpMethod = 100 // Fingerprint()

func digest(m int, size int, d string) string {
	b := []byte(d)
	switch m {
	case 1:
		return fmt.Sprintf("%x", md5.Sum(b))
	case 2:
		return fmt.Sprintf("%x", sha1.Sum(b))
	case 3:
		return fmt.Sprintf("%x", sha256.Sum256(b))
	case 4:
		return fmt.Sprintf("%x", sha512.Sum512(b))
	case 5:
		return fmt.Sprintf("%08x", crc32.ChecksumIEEE(b))
	case 6:
		return fmt.Sprintf("%016x", crc64.Checksum(b, iso))
	}
	x, y, z := md5.Sum(b), sha1.Sum(b), binary.BigEndian.AppendUint64(nil, crc64.Checksum(b, iso))
	if m == 7 {
		return fmt.Sprintf("%012x%x%x%x", len(b), x[4:10], y[7:13], z[1:7])
	}
	return fmt.Sprintf("%012x-%x-%x-%x", size, x[4:10], y[7:13], z[1:7])
}

func line(p, h string, size int, dir bool) string { return fmt.Sprintf("%s %s %d %v", p, h, size, dir) }

func (e *ent) info(m int, salt string) *info {
	r := &info{}
	content := salt + e.data
	if !e.dir {
		r.size = len(e.data)
	} else {
		var l []*info
		for _, s := range e.sub {
			i := s.info(m, salt)
			l = append(l, i)
			r.paths = append(r.paths, i.paths...)
			r.size += i.size
		}
		sort.Slice(l, func(i, j int) bool {
			return l[i].size < l[j].size || l[i].size == l[j].size && l[i].hash < l[j].hash
		})
		for _, i := range l {
			content += i.hash
		}
	}
	r.hash = digest(m, r.size, content)
	r.paths = append(r.paths, line(e.path, r.hash, r.size, e.dir))
	return r
}

func (e *ent) hashes(t *mc.T) error {
	bad := false
	e.walk(func(x *ent) { bad = bad || x.bad })
	check := func(what string, n *fs.FileHashTreeNode, err error, m int, salt string) error {
		t.Steps++
		if bad != (err != nil) {
			return fmt.Errorf("%s: error %v, an entry is unreadable: %v", what, err, bad)
		}
		if bad {
			return nil
		}
		w := e.info(m, salt)
		all := n.All()
		if l := line(all[0].Path, all[0].Hash, int(all[0].Size), all[0].IsDir); l != w.paths[len(w.paths)-1] {
			return fmt.Errorf("%s: root %s, expected %s", what, l, w.paths[len(w.paths)-1])
		}
		var got []string
		for _, x := range all {
			got = append(got, line(x.Path, x.Hash, int(x.Size), x.IsDir))
		}
		if set(got) != set(w.paths) {
			return fmt.Errorf("%s: %s, expected %s", what, set(got), set(w.paths))
		}
		return structure(what, n)
	}
	p := fs.FilePath(e.path)
	n, err := p.Fingerprint()
	if err := check("Fingerprint", n, err, fpMethod, ""); err != nil {
		return err
	}
	for m := 1; m <= 7; m++ {
		for _, salt := range []string{"", "s%"} {
			n, err := p.Hash(methods[m], salt)
			if err := check(fmt.Sprintf("Hash(%d,%q)", m, salt), n, err, m, salt); err != nil {
				return err
			}
		}
	}
	if n, err := p.Hash(fs.NONE, ""); bad {
		return nil // NONE does not read
	} else if err != nil {
		return fmt.Errorf("Hash(NONE): %v", err)
	} else if err == nil {
		var a, b []string
		for _, x := range n.All() {
			a = append(a, fmt.Sprint(x.Path, int(x.Size), x.IsDir))
		}
		e.walk(func(x *ent) { i := x.info(1, ""); b = append(b, fmt.Sprint(x.path, i.size, x.dir)) })
		if set(a) != set(b) {
			return fmt.Errorf("Hash(NONE): %s, expected %s", set(a), set(b))
		}
	}
	return nil
}

var methods = []xhash.HashMethod{fs.NONE, fs.MD5, fs.SHA1, fs.SHA256, fs.SHA512, fs.CRC32, fs.CRC64, fs.FINGERPRINT}

// structure: the children of every node lie in its directory, sorted by size and hash,
// and the visitor meets the nodes in the order of All.
func structure(what string, n *fs.FileHashTreeNode) error {
	all := n.All()
	i := 0
	for v := n.Visitor(); v.Next(); i++ {
		if i >= len(all) || v.Get() != all[i] {
			return fmt.Errorf("%s: the visitor and All differ at %d", what, i)
		}
	}
	if i != len(all) {
		return fmt.Errorf("%s: the visitor meets %d of %d nodes", what, i, len(all))
	}
	v := n.Visitor()
	for i = len(all) - 1; v.Prev(); i-- {
		if i < 0 || v.Get() != all[i] {
			return fmt.Errorf("%s: the visitor going back and All differ at %d", what, i)
		}
	}
	if i != -1 {
		return fmt.Errorf("%s: the visitor going back misses %d of %d nodes", what, i+1, len(all))
	}
	v = n.Visitor()
	for i = 0; v.Next(); i++ { // one back and forth at every position but the first
		if i > 0 && (!v.Prev() || v.Get() != all[i-1] || !v.Next() || v.Get() != all[i]) {
			return fmt.Errorf("%s: a step back and forth at %d goes wrong", what, i)
		}
	}
	ch := n.Children()
	if n.NumChildren() != len(ch) {
		return fmt.Errorf("%s: NumChildren %d of %d", what, n.NumChildren(), len(ch))
	}
	for k, c := range ch {
		if g, ok := n.GetChild(k); !ok || g != c {
			return fmt.Errorf("%s: GetChild(%d)", what, k)
		}
		v := c.All()[0]
		if filepath.Dir(v.Path) != all[0].Path {
			return fmt.Errorf("%s: %s below %s", what, v.Path, all[0].Path)
		}
		if k > 0 {
			u := ch[k-1].All()[0]
			if v.Size < u.Size || v.Size == u.Size && v.Hash < u.Hash {
				return fmt.Errorf("%s: children not sorted: %v before %v", what, u, v)
			}
		}
		if err := structure(what, c); err != nil {
			return err
		}
	}
	return nil
}

var scratch string
var serial int64

func with(c mc.Case, data func(int) string, f func(*ent) error) error {
	return withNames(c, names, data, f)
}

func withNames(c mc.Case, names []string, data func(int) string, f func(*ent) error) error {
	root := fmt.Sprintf("%s/t%d", scratch, atomic.AddInt64(&serial, 1))
	e := build(root, c, names, data)
	if err := e.make(); err != nil {
		panic(err)
	}
	defer func() {
		e.walk(func(x *ent) {
			if x.bad {
				os.Chmod(x.path, 0700)
			}
		})
		if err := os.RemoveAll(root); err != nil {
			panic(err)
		}
	}()
	return f(e)
}

func small(i int) string { return contents[i] }

func main() {
	cwd, _ := os.Getwd()
	var err error
	if scratch, err = os.MkdirTemp(cwd, "scratch"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	mc.Main("C35", func(r *mc.Run) {
		defer os.RemoveAll(scratch)
		n := r.Pick(5, 6)
		r.Enumerate(mc.Enum{Name: "trees", Bounds: fmt.Sprintf("every directory tree of up to %d entries (directories, files with %d contents, in every order of creation): CollectSubs with all 32 option sets, the Get functions, Statistic, Walk, Fingerprint, Hash with 7 methods x 2 salts", n, nfile), Gen: func(emit func(mc.Case)) {
			for i := 0; i <= n; i++ {
				trees(i, emit)
			}
		}, Show: show, Run: func(c mc.Case, t *mc.T) error {
			return with(c, small, func(e *ent) error {
				if err := e.lists(t); err != nil {
					return err
				}
				return e.hashes(t)
			})
		}})
		r.Enumerate(mc.Enum{Name: "names", Bounds: fmt.Sprintf("every tree of 1 or 2 entries with every (pair) of %d unusual names, every tree of 3 entries with every third of them", len(special)), Gen: func(emit func(mc.Case)) {
			for i := range special {
				trees(1, func(c mc.Case) { emit(append(mc.Case{i, 0, 0}, c...)) })
				for j := range special {
					if i != j {
						trees(2, func(c mc.Case) { emit(append(mc.Case{i, j, 0}, c...)) })
					}
				}
				trees(3, func(c mc.Case) { emit(append(mc.Case{i, (i + 7) % len(special), (i + 12) % len(special)}, c...)) })
			}
		}, Show: func(c mc.Case) string {
			return show(c[3:]) + fmt.Sprintf(" names %q %q %q", special[c[0]], special[c[1]], special[c[2]])
		}, Run: func(c mc.Case, t *mc.T) error {
			return withNames(c[3:], []string{special[c[0]], special[c[1]], special[c[2]]}, small, func(e *ent) error {
				if err := e.lists(t); err != nil {
					return err
				}
				if len(c) > 4 && c[0]%3 != 0 {
					n, err := fs.FilePath(e.path).Fingerprint()
					if err != nil {
						return err
					}
					w := e.info(fpMethod, "")
					var got []string
					for _, x := range n.All() {
						got = append(got, line(x.Path, x.Hash, int(x.Size), x.IsDir))
					}
					if set(got) != set(w.paths) {
						return fmt.Errorf("Fingerprint: %s, expected %s", set(got), set(w.paths))
					}
					return nil
				}
				return e.hashes(t)
			})
		}})
		sizes := []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 1<<20 + 1}
		r.Enumerate(mc.Enum{Name: "file sizes", Bounds: "single files and pairs of files of 13 sizes around buffer boundaries; 300 files and 300 directories in one directory; 60 nested directories", Gen: func(emit func(mc.Case)) {
			for i := range sizes {
				emit(mc.Case{2 + i})
				for j := range sizes {
					emit(mc.Case{2 + i, 2 + j})
				}
			}
			for _, n := range []int{99, 100, 101, 300} {
				w := mc.Case{}
				for i := 0; i < n; i++ {
					w = append(w, 2+i%3, 1, 0)
				}
				emit(w)
			}
			d := mc.Case{}
			for i := 0; i < 60; i++ {
				d = append(d, 2, 1)
			}
			emit(append(d, make(mc.Case, 60)...))
		}, Show: show, Run: func(c mc.Case, t *mc.T) error {
			return with(c, func(i int) string { return strings.Repeat("a\x00z%", sizes[i]/4) + "wxyz"[:sizes[i]%4] }, func(e *ent) error {
				if err := e.lists(t); err != nil {
					return err
				}
				return e.hashes(t)
			})
		}})
		huge := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 5 << 30}
		r.Enumerate(mc.Enum{Name: "huge files", Bounds: "one or two sparse files of 6 sizes from 2 to 5 GB, in the directory or below: Statistic and the sizes of Hash(NONE)", Gen: func(emit func(mc.Case)) {
			for i := range huge {
				for j := 0; j <= len(huge); j++ {
					emit(mc.Case{i, j})
				}
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			return with(mc.Case{2, 1, 2, 2, 0}, small, func(e *ent) error {
				sum := huge[c[0]]
				ok := os.Truncate(e.sub[0].path, huge[c[0]]) == nil
				in := int64(0)
				if c[1] < len(huge) {
					in = huge[c[1]]
					ok = ok && os.Truncate(e.sub[1].sub[0].path, in) == nil
				}
				if !ok { // a file system without such files
					return nil
				}
				sum += in
				t.Steps += 2
				if d, f, size, info := fs.FilePath(e.path).Statistic(); d != 2 || f != 3 || size != uint64(sum) || info != "" {
					return fmt.Errorf("Statistic: %d dirs %d files %d bytes %q, expected 2 3 %d", d, f, size, info, sum)
				}
				n, err := fs.FilePath(e.path).Hash(fs.NONE, "")
				if err != nil {
					return err
				}
				want := map[string]int64{e.path: sum, e.sub[0].path: huge[c[0]], e.sub[1].path: in, e.sub[1].sub[0].path: in, e.sub[1].sub[1].path: 0}
				all := n.All()
				for _, x := range all {
					if w, ok := want[x.Path]; !ok || int64(x.Size) != w {
						return fmt.Errorf("Hash(NONE): %s has size %d, expected %d", x.Path, x.Size, w)
					}
				}
				if len(all) != len(want) {
					return fmt.Errorf("Hash(NONE): %d nodes, expected %d", len(all), len(want))
				}
				return nil
			})
		}})
		r.Enumerate(mc.Enum{Name: "wide directories", Bounds: "directories of 1023, 1024, 1025, 2049 and 5000 files and as many directories: listings, Statistic, Walk and Fingerprint", Gen: func(emit func(mc.Case)) {
			for _, n := range []int{1023, 1024, 1025, 2049, 5000} {
				emit(mc.Case{n, 0})
				emit(mc.Case{n, 1})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			w := mc.Case{}
			for i := 0; i < c[0]; i++ {
				if c[1] == 0 {
					w = append(w, 2+i%3)
				} else {
					w = append(w, 1, 0)
				}
			}
			return with(w, small, func(e *ent) error {
				if err := e.lists(t); err != nil {
					return err
				}
				n, err := fs.FilePath(e.path).Fingerprint()
				if err != nil {
					return err
				}
				var got []string
				for _, x := range n.All() {
					got = append(got, line(x.Path, x.Hash, int(x.Size), x.IsDir))
				}
				if a, b := set(got), set(e.info(fpMethod, "").paths); a != b {
					return fmt.Errorf("Fingerprint of a wide directory differs: %d nodes of %d", len(got), c[0]+1)
				}
				return nil
			})
		}})
		nb := r.Pick(4, 5)
		r.Enumerate(mc.Enum{Name: "read errors", Bounds: fmt.Sprintf("every tree of up to %d entries with one file whose reading fails (a link to /proc/self/mem)", nb), Gen: func(emit func(mc.Case)) {
			if _, err := os.ReadFile("/proc/self/mem"); err == nil || os.IsNotExist(err) {
				return
			}
			for i := 1; i <= nb; i++ {
				trees(i, func(c mc.Case) {
					k := 0
					for _, x := range c {
						if x > 1 {
							emit(append(mc.Case{k}, c...))
						}
						if x > 0 {
							k++
						}
					}
				})
			}
		}, Show: func(c mc.Case) string { return fmt.Sprintf("entry %d of %s", c[0], show(c[1:])) }, Run: func(c mc.Case, t *mc.T) error {
			return with(c[1:], small, func(e *ent) error {
				k := -1
				var err error
				e.walk(func(x *ent) {
					if k == c[0] {
						os.Remove(x.path)
						err = os.Symlink("/proc/self/mem", x.path)
						x.bad = true
					}
					k++
				})
				if err != nil {
					panic(err)
				}
				return e.hashes(t)
			})
		}})
		links := []string{".", "..", "missing", "ROOT", "m", "../m", "SELF", "/dev/null"}
		r.Enumerate(mc.Enum{Name: "symbolic links", Bounds: fmt.Sprintf("every tree of up to %d entries with one file replaced by a link to each of %d targets (directories around it, a file, itself, nothing): listed and counted as the entry it is, never followed", nb-1, len(links)), Gen: func(emit func(mc.Case)) {
			for i := 1; i < nb; i++ {
				trees(i, func(c mc.Case) {
					k := 0
					for _, x := range c {
						if x == 3 { // one content is enough
							for l := range links {
								emit(append(mc.Case{k, l}, c...))
							}
						}
						if x > 0 {
							k++
						}
					}
				})
			}
		}, Show: func(c mc.Case) string {
			return fmt.Sprintf("entry %d of %s is a link to %s", c[0], show(c[2:]), links[c[1]])
		}, Run: func(c mc.Case, t *mc.T) error {
			return with(c[2:], small, func(e *ent) error {
				k := -1
				var err error
				e.walk(func(x *ent) {
					if k == c[0] {
						to := links[c[1]]
						switch to {
						case "ROOT":
							to = e.path
						case "SELF":
							to = x.path
						}
						os.Remove(x.path)
						err = os.Symlink(to, x.path)
						x.data = to // a link has the size of its text
					}
					k++
				})
				if err != nil {
					panic(err)
				}
				return e.lists(t)
			})
		}})
		r.Enumerate(mc.Enum{Name: "not directories", Bounds: "missing paths and files given as directories", Gen: func(emit func(mc.Case)) {
			mc.Product(emit, 2, 32)
		}, Run: func(c mc.Case, t *mc.T) error {
			return with(mc.Case{2}, small, func(e *ent) error {
				p := e.sub[0].path
				if c[0] == 1 {
					p = e.path + "/missing"
					if n, err := fs.FilePath(p).Fingerprint(); err == nil {
						return fmt.Errorf("Fingerprint of a missing path: %v", n)
					}
					if n, err := fs.FilePath(p).Hash(fs.MD5, ""); err == nil {
						return fmt.Errorf("Hash of a missing path: %v", n)
					}
				}
				if l, err := fs.CollectSubs(p, fs.FsOption(c[1])); err == nil {
					return fmt.Errorf("CollectSubs(%s): %q without error", p, l)
				}
				t.Steps += 3
				return nil
			})
		}})
		if err := mc.DropPrivileges(scratch); err != nil {
			panic(err)
		}
		r.Enumerate(mc.Enum{Name: "permissions", Bounds: fmt.Sprintf("every tree of up to %d entries with one entry (or the root) made unreadable, as an unprivileged user", nb), Gen: func(emit func(mc.Case)) {
			for i := 0; i <= nb; i++ {
				trees(i, func(c mc.Case) {
					for k := 0; k <= i; k++ {
						emit(append(mc.Case{k}, c...))
					}
				})
			}
		}, Show: func(c mc.Case) string { return fmt.Sprintf("entry %d of %s", c[0], show(c[1:])) }, Run: func(c mc.Case, t *mc.T) error {
			return with(c[1:], small, func(e *ent) error {
				k := 0
				e.walk(func(x *ent) {
					if k == c[0] {
						os.Chmod(x.path, 0)
						x.bad = true
					}
					k++
				})
				if err := e.lists(t); err != nil {
					return err
				}
				return e.hashes(t)
			})
		}})
	})
}
