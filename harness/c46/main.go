// C46: the containers behind the file hash trees of package fs (the checks of C06, C11
// and C12 on them, through the shim in shim.txt), and the order of their elements.
package main

import (
	"fmt"
	"strings"

	"github.com/vipally/gx/fs"
	"gxv/mc"
	"gxv/units"
)

var sizes = []uint64{0, 1, 2, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 53, 1<<63 - 1, 1 << 63, 1<<64 - 1}

var hashes = []string{"", "0", "00", "000", "01", "1", "10", "9", "a", "aa", "ab", "b", "ba", "A", "B", "\x00", "\xff", "\u00e9", "~", " ",
	"ff00", "ff0", "ff01", "FF00", strings.Repeat("7", 64), strings.Repeat("7", 65), strings.Repeat("7", 64) + "8", strings.Repeat("7", 63) + "6"}

func elem(c int) fs.FileHash {
	x := fs.FileHash{Hash: hashes[c%len(hashes)], Path: fmt.Sprint("p", -c), IsDir: c%2 == 0}
	x.Size.Set(sizes[c/len(hashes)])
	return x
}

// before is the order: by size, then by the bytes of the hash.
func before(a, b fs.FileHash) bool {
	if x, y := a.Size.N(), b.Size.N(); x != y {
		return x < y
	}
	for i := 0; i < len(a.Hash) && i < len(b.Hash); i++ {
		if a.Hash[i] != b.Hash[i] {
			return a.Hash[i] < b.Hash[i]
		}
	}
	return len(a.Hash) < len(b.Hash)
}

func order(r *mc.Run) {
	n := len(sizes) * len(hashes)
	r.Enumerate(mc.Enum{Name: "element order", Bounds: fmt.Sprintf("all pairs of %d elements (%d sizes to 2^64-1, %d hashes of unequal lengths and bytes): Less of elements and nodes, comparators, sorting", n, len(sizes), len(hashes)),
		Gen:  func(emit func(mc.Case)) { mc.Product(emit, n, n) },
		Show: func(c mc.Case) string { return fmt.Sprintf("%+v / %+v", elem(c[0]), elem(c[1])) },
		Run: func(c mc.Case, t *mc.T) error {
			a, b := elem(c[0]), elem(c[1])
			w := before(a, b)
			t.Steps += 4
			if g := a.Less(b); g != w {
				return fmt.Errorf("Less = %v", g)
			}
			root := &fs.FileHashTreeNode{}
			x, y := root.AddChild(a, -1), root.AddChild(b, -1)
			if g := x.Less(y); g != w {
				return fmt.Errorf("Less of the nodes = %v", g)
			}
			if g := fs.CreateCmpFileHashTreeNode("Lesser").F(x, y); g != w {
				return fmt.Errorf("Lesser = %v", g)
			}
			if g := fs.CreateCmpFileHashTreeNode("Greater").F(y, x); g != w {
				return fmt.Errorf("Greater with exchanged arguments = %v", g)
			}
			root.SortChildren()
			l := root.Children()
			if len(l) != 2 || (l[0] != x || l[1] != y) && (l[0] != y || l[1] != x) {
				return fmt.Errorf("SortChildren changes the children")
			}
			if w && l[0] != x || before(b, a) && l[0] != y {
				return fmt.Errorf("SortChildren: wrong order")
			}
			return nil
		}})
}

func main() { units.Main("C46", order) }
