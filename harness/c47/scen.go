package main

import (
	"bytes"
	"fmt"
	stdhash "hash"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	pad "github.com/vipally/gx/crypto"
	aes "github.com/vipally/gx/crypto/aes"
	"github.com/vipally/gx/crypto/ecb"
	"github.com/vipally/gx/crypto/rsa"
	"github.com/vipally/gx/debug"
	"github.com/vipally/gx/encoding/ini"
	gerr "github.com/vipally/gx/errors"
	"github.com/vipally/gx/factory"
	"github.com/vipally/gx/fs"
	gxhash "github.com/vipally/gx/hash"
	gio "github.com/vipally/gx/io"
	gmath "github.com/vipally/gx/math"
	"github.com/vipally/gx/math/prime"
	"github.com/vipally/gx/math/rand"
	"github.com/vipally/gx/reflect"
	"github.com/vipally/gx/regable"
	"github.com/vipally/gx/stl"
	gstr "github.com/vipally/gx/strings"
	gtime "github.com/vipally/gx/time"
	"github.com/vipally/gx/unsafe"
)

// Shared inputs: only read.
var (
	text    = bytes.Repeat([]byte("The quick brown fox.\x00\xff"), 20)
	odd     = text[:37:40]
	key16   = []byte("0123456789abcdef")
	key24   = []byte("0123456789abcdefghijklmn")
	key32   = []byte("0123456789abcdefghijklmnopqrstuv")
	iniText = "a=1\n[s]\nk = v ; c\n# x\nb=c=d\n[t]\n[s]\nz=\n"
	numbers = []int{5, 3, 9, 3, 1, 7, 7, 0, 2, 8, 4, 6}
)

// Shared objects, read by the scenarios "shared ...".
var sh struct {
	list  *stl.IntList
	slist *stl.IntSList
	heap  *stl.IntHeap
	slice *stl.IntSortSlice
	tree  *stl.IntTreeNode
	queue *stl.IntQueue
	deque *stl.IntDeque
	stack *stl.IntStack
	rng   *gmath.RangeUint32
	rng64 *gmath.RangeUInt64
	ini   *ini.IniFile
	fs    *factory.FactoryS
	fi    *factory.FactoryI
	hash  []stdhash.Hash
	dir   string
	tree2 *fs.FileHashTreeNode
	ids   []regable.Uint32Id
	objs  []regable.Uint32Obj
	reger *regable.Uint32Reger
	srv   *rsa.RsaServer
	cli   *rsa.RsaClient
	sign  []byte
	err   gerr.WithIdErr
	errf  gerr.WithIdErr
}

var regs int32

type maker int

func (m maker) Create(arg ...interface{}) interface{} { return fmt.Sprint(int(m), arg) }

func makeDir(d string) {
	for _, e := range []error{os.MkdirAll(d+"/x/y", 0755), os.WriteFile(d+"/f", []byte("one"), 0644), os.WriteFile(d+"/x/g", text, 0644), os.WriteFile(d+"/x/y/h", nil, 0644), os.WriteFile(d+"/i.ini", []byte(iniText), 0644)} {
		if e != nil {
			panic(e)
		}
	}
}

func share(dir string) {
	sh.list, sh.slist, sh.heap, sh.slice = stl.NewIntList(), stl.NewIntSList(), stl.NewIntHeap(0, 0, false), stl.NewIntSortSlice(0)
	sh.tree, sh.queue, sh.deque, sh.stack = &stl.IntTreeNode{}, stl.NewGOGPQueueNamePrefixQueue(4), stl.NewGOGPDequeNamePrefixDeque(4), stl.NewGOGPStackNamePrefixStack(4)
	n := sh.tree.AddChild(1, 0)
	for _, v := range numbers {
		sh.list.PushBack(v)
		sh.slist.PushFront(v)
		sh.heap.Push(v)
		sh.slice.Push(v)
		n.AddChild(v, -1)
		sh.queue.Push(v)
		sh.deque.PushFront(v)
		sh.stack.Push(v)
	}
	sh.rng, _ = gmath.NewRangeUint32(5, 3, 9)
	sh.rng64, _ = gmath.NewRangeUInt64(5, 3, 9)
	sh.ini = ini.Load(strings.NewReader(iniText))
	sh.fs, sh.fi = factory.NewFactoryS(), factory.NewFactoryI()
	sh.fs.AddCreater("a", maker(1))
	sh.fi.AddCreater(1, maker(2))
	factory.AddCreater("c47", maker(3))
	for m := gxhash.HashMethod(1); m <= gxhash.FINGERPRINT; m++ {
		h := gxhash.New(m)
		h.Write(odd)
		sh.hash = append(sh.hash, h)
	}
	sh.dir = dir
	sh.tree2, _ = fs.FilePath(dir).Fingerprint()
	sh.reger = regable.MustNewUint32Reger("c47")
	for i := uint32(0); i < 7+2*dirPairs; i++ {
		sh.ids = append(sh.ids, sh.reger.MustReg(fmt.Sprint("id", i), i*10))
		sh.objs = append(sh.objs, sh.reger.MustRegO(fmt.Sprint("obj", i), i*10))
	}
	sh.srv, sh.cli = rsa.MustNewServer([]byte(keys[0][0])), rsa.MustNewClient([]byte(keys[0][1]))
	sh.sign, _ = sh.srv.SignDefault(text)
	id, _ := gerr.Reg("c47 error")
	sh.err, sh.errf = gerr.New(id), gerr.Newf(id, "n %d", 5)
}

func files(d string, root *fs.FileHashTreeNode, err error) string {
	var l []string
	if err == nil {
		for _, x := range root.All() {
			l = append(l, fmt.Sprint(strings.TrimPrefix(x.Path, d), x.Hash, x.Size, x.IsDir))
		}
	}
	return fmt.Sprint(l, err)
}

func trim(d string, l []string, err error) string {
	r := append([]string(nil), l...)
	for i := range r {
		r[i] = strings.TrimPrefix(r[i], d)
	}
	sort.Strings(r)
	return fmt.Sprint(r, err)
}

func lst(l *stl.IntList) (r []int) {
	for v := l.Visitor(); v.Next(); {
		r = append(r, v.Get().Get())
	}
	return
}

func slst(l *stl.IntSList) (r []int) {
	for v := l.Visitor(); v.Next(); {
		r = append(r, v.Get().Get())
	}
	return
}

func visit(n *stl.IntTreeNode) (r []int) {
	v := n.Visitor()
	for v.Next() {
		r = append(r, v.Get())
	}
	for v = n.Visitor(); v.Prev(); {
		r = append(r, v.Get())
	}
	return
}

var all = func() (l []scenario) {
	add := func(name string, f func(o *w, dir string)) { l = append(l, scenario{name: name, f: f}) }
	// containers
	add("queue", func(o *w, _ string) {
		q := stl.NewGOGPQueueNamePrefixQueue(2)
		for i := 0; i < 20; i++ {
			o.p(q.Push(i))
			if i%3 == 2 {
				o.p(q.Pop())
			}
			if i == 15 {
				o.p(q.Shrink())
			}
			o.p(q.Front())
			o.p(q.Back())
			o.p(q.Size(), q.Cap(), q.Empty())
		}
		q.Clear()
		q.Init(3)
		o.p(q.Pop())
	})
	add("deque", func(o *w, _ string) {
		q := stl.NewGOGPDequeNamePrefixDeque(2)
		for i := 0; i < 20; i++ {
			o.p(q.PushBack(i), q.PushFront(-i))
			switch i % 3 {
			case 1:
				o.p(q.PopFront())
			case 2:
				o.p(q.PopBack())
			}
			if i == 15 {
				o.p(q.Shrink())
			}
			o.p(q.Front())
			o.p(q.Back())
			o.p(q.Size(), q.Cap(), q.Empty())
		}
		q.Clear()
		q.Init(3)
		o.p(q.PopBack())
	})
	add("stack", func(o *w, _ string) {
		q := stl.NewGOGPStackNamePrefixStack(1)
		for i := 0; i < 16; i++ {
			o.p(q.Push(i))
			if i%4 == 3 {
				o.p(q.Pop())
			}
			o.p(q.Top())
			o.p(q.Size(), q.Empty())
		}
		q.Clear()
		q.Init(2)
		o.p(q.Pop())
	})
	for _, max := range []bool{false, true} {
		max := max
		add(fmt.Sprint("heap ", max), func(o *w, _ string) {
			for _, limit := range []int{0, 4} {
				h := stl.NewIntHeap(2, limit, max)
				for _, v := range numbers {
					h.Push(v)
					o.p(h.Top())
					o.p(h.Size(), h.Empty())
				}
				for !h.Empty() {
					o.p(h.Pop())
				}
				h.Init(1, 2, !max)
				h.Push(3)
				o.p(h.Pop())
			}
		})
		add(fmt.Sprint("slice heap ", max), func(o *w, _ string) {
			h := stl.NewIntHeap(0, 0, max)
			b := append([]int(nil), numbers...)
			h.MakeHeap(b)
			o.p(b, h.CheckHeap(b), h.CheckHeap(numbers))
			b = h.PushHeap(b, 4)
			b, t, ok := h.PopHeap(b)
			o.p(b, t, ok)
			b = h.SortHeap(b)
			h.Reverse(b)
			o.p(b)
		})
	}
	add("slice", func(o *w, _ string) {
		s := stl.NewIntSortSlice(1)
		for i, v := range numbers {
			o.p(s.Push(v), s.Insert(v, i/2), s.Len())
		}
		s.Sort()
		o.p(s.Remove(3))
		o.p(s.Pop())
		o.p(s.Get(2))
		s.Swap(0, 4)
		o.p(s.Buffer(), s.MustGet(1), s.Less(0, 1))
		s.Init(2)
		o.p(s.Buffer())
	})
	add("list", func(o *w, _ string) {
		l, m := stl.NewIntList(), stl.NewIntList()
		for i, v := range numbers {
			n := l.PushBack(v)
			m.PushFront(v)
			switch i % 5 {
			case 1:
				l.MoveFront(n)
			case 2:
				l.PushBefore(20+i, n)
			case 3:
				l.InsertFront(l.Remove(n))
			case 4:
				l.MoveBefore(n, l.Front())
				l.MoveAfter(n, l.Back())
				l.PushAfter(30, n)
			}
			o.p(lst(l))
		}
		o.p(lst(l), lst(m))
		l.Sort()
		o.p(lst(l))
		l.RotateForward()
		l.Reverse()
		o.p(l.InsertFrontList(m), m.InsertBackList(l), lst(l), lst(m))
		o.p(l.PopFront())
		o.p(l.PopBack())
		n := l.RemoveFront()
		o.p(n.Set(3), n.Get(), l.IsValidNode(n), l.Reachable(l.Front(), l.Back()))
		l.InsertBack(n)
		l.RotateBackward()
		n = l.RemoveBack()
		l.InsertBefore(n, l.Back())
		l.InsertAfter(l.RemoveFront(), l.Back())
		l.MoveBack(l.Front())
		o.p(lst(l), l.Empty())
		v := l.Visitor()
		o.p(v.Prev(), v.Get().Get())
		v.Reset()
		l.Clear()
		o.p(lst(l))
	})
	add("slist", func(o *w, _ string) {
		l, m := stl.NewIntSList(), stl.NewIntSList()
		for i, v := range numbers {
			n := l.PushFront(v)
			m.PushFront(v)
			switch i % 4 {
			case 1:
				l.PushAfter(20+i, n)
			case 2:
				l.InsertAfter(l.RemoveFront(), l.Front())
			case 3:
				l.MoveFront(n.Next())
				l.MoveAfter(l.Front(), n)
			}
			o.p(slst(l))
		}
		o.p(slst(l), slst(m), l.Len())
		l.Sort()
		o.p(slst(l))
		l.Reverse()
		l.PushFrontList(m)
		o.p(slst(l), slst(m), l.HasCycle(l.Front()))
		o.p(l.PopFront())
		n := l.Remove(l.Front().Next())
		o.p(n.Set(3), l.IsValidNode(n), l.Reachable(l.Front(), n))
		l.InsertFront(n)
		t, k := l.Front().Tail()
		o.p(t.Get(), k, l.Empty())
		l.Clear()
		o.p(slst(l))
	})
	add("tree", func(o *w, _ string) {
		stl.NewIntTree()
		t := &stl.IntTreeNode{}
		r := t.AddChild(1, 0)
		for i, v := range numbers {
			c := r.AddChild(v, i/2)
			c.AddChild(i, 0)
			o.p(r.All())
		}
		o.p(r.All(), visit(r))
		r.SortChildren()
		c, ok := r.RemoveChild(2)
		o.p(r.All(), r.NumChildren(), c.All(), ok)
		r.AddChildNode(c, 0)
		c, _ = r.GetChild(1)
		o.p(visit(r), len(c.Children()), c.Less(r))
	})
	add("comparators", func(o *w, _ string) {
		for _, n := range []string{"Lesser", "Greater"} {
			c := stl.CreateCmpInt(n)
			o.p(c.String(), c.F(1, 2), c.F(2, 1), c.F(1, 1), c.CreateByBool(true).String(), c.CreateByName(n).String(), c.Lesser().F(1, 2), c.Greater().F(1, 2))
		}
	})
	// hashes
	for m := gxhash.HashMethod(0); m <= gxhash.FINGERPRINT; m++ {
		m := m
		add(fmt.Sprint("hash ", m), func(o *w, _ string) {
			h := gxhash.New(m)
			g := m.New()
			h.Write(text[:5])
			o.p(m)
			h.Write(text[5:])
			o.p(m)
			io.WriteString(g, "x")
			a, b := h.Sum(nil), g.Sum(odd[:3:3])
			if m != 0 {
				o.p(a, b, m.StringHash("abc"), m.StringHashL("abc"))
			} else {
				o.p(bytes.Equal(a, g.Sum(nil)), bytes.Equal(a, h.Sum(nil)))
			}
			h.Reset()
			h.Write(odd)
			if m != 0 {
				o.p(h.Sum(nil))
			}
			o.p(h.Size(), h.BlockSize())
		})
	}
	add("fingerprint", func(o *w, _ string) {
		f := gxhash.NewFingerprint()
		f.Write(text)
		o.p(f.String(), f.Size(), f.BlockSize())
		f.Reset()
		f.Resetsize(7)
		f.Hash().Write(odd)
		o.p(f.String(), f.Sum(nil))
	})
	// ciphers
	for i, k := range [][]byte{key16, key24, key32} {
		k := k
		add(fmt.Sprint("aes ", i), func(o *w, _ string) {
			e, err := aes.NewAESEncrypter(k)
			d, err2 := aes.NewAESDecrypter(k)
			o.p(err, err2)
			for _, m := range [][]byte{text, odd, nil, text[:16]} {
				c := e.Encrypt(m)
				o.p(c)
				o.p(d.Decrypt(c))
				c = e.EncryptString(string(m))
				o.p(d.DecryptToString(c))
			}
		})
	}
	add("padding", func(o *w, _ string) {
		for _, m := range [][]byte{odd, text, nil} {
			o.p(pad.ZeroPadding(m, 8), pad.PKCS5Padding(m, 8), aes.PKCS7Padding(m, 16), aes.PKCS7PaddingString(string(m), 16))
			o.p(pad.PKCS5UnPadding(pad.PKCS5Padding(m, 8)), pad.ZeroUnPadding(pad.ZeroPadding(m, 8)), aes.PKCS7Unpadding(aes.PKCS7Padding(m, 16)))
		}
	})
	add("ecb", func(o *w, _ string) {
		for _, m := range [][]byte{odd, text, nil} {
			c, err := ecb.TripleDesEncrypt(m, key24)
			o.p(c, err)
			o.p(ecb.TripleDesDecrypt(c, key24))
		}
		o.p(ecb.TripleDesEncrypt(text, key16))
	})
	add("codec", func(o *w, _ string) {
		o.p(rsa.Encode(odd), rsa.Decode(rsa.Encode(odd)), rsa.Hash(odd), rsa.EncodeString("abc"), rsa.DecodeString(rsa.EncodeString("abc")), rsa.HashString("abc"))
		o.p(rsa.BytesToHexString(odd), rsa.HexStringToBytes("00ff"), rsa.Decode("zz"))
	})
	add("rsa", func(o *w, _ string) {
		s, c := rsa.MustNewServer([]byte(keys[0][0])), rsa.MustNewClient([]byte(keys[0][1]))
		g, err := s.SignDefault(text)
		o.p(g, err, c.VerifyDefault(text, g), c.VerifyDefault(odd, g))
		e, err := c.Encrypt(odd)
		d, err2 := s.Decrypt(e)
		o.p(err, d, err2)
		_, err = rsa.NewClient(text)
		_, err2 = rsa.NewServer(text)
		o.p(err, err2)
	})
	// numbers
	add("ranges", func(o *w, _ string) {
		r, _ := gmath.NewRangeUint32(5, 3, 9)
		s, _ := gmath.NewRangeUInt64(5, 3, 9)
		_, e1 := gmath.NewRangeUint32(1, 3, 9)
		o.p(e1)
		for i := uint32(0); i < 5; i++ {
			o.p(r.Add(i))
			o.p(r.Sub(i))
			o.p(r.Mul(i))
			o.p(r.Div(i))
			o.p(r.Mod(i))
			o.p(r.Inc())
			o.p(r.Dec(i))
			o.p(r.Set(i))
			o.p(r.Reset(), r.ResetR(), r.Init(i, 0, 7), r.String(), r.Info(), r.InRange(i), r.InCurrentRange(i))
			j := uint64(i)
			o.p(s.Add(j))
			o.p(s.Sub(j))
			o.p(s.Mul(j))
			o.p(s.Div(j))
			o.p(s.Mod(j))
			o.p(s.Inc())
			o.p(s.Dec(j))
			o.p(s.Set(j))
			o.p(s.Reset(), s.ResetR(), s.Init(j, 0, 7), s.Info(), s.InRange(j), s.InCurrentRange(j))
		}
	})
	add("prime", func(o *w, _ string) {
		for _, v := range []uint32{0, 1, 2, 9, 97, 65521, 65537, 4294967291, 4294967295, 4294049777} {
			o.p(prime.IsPrime(v), prime.SqrtUint32(v))
		}
	})
	add("bits", func(o *w, _ string) {
		for i := uint32(0); i < 33; i += 4 {
			o.p(gmath.GetBit(0xdeadbeef, i))
			o.p(gmath.GetByte(0xdeadbeef, i/4))
			o.p(gmath.GetWord(0xdeadbeef, i/4))
		}
		o.p(gmath.Uint64(1234567890123).CommaString(), gmath.BToI(true), gmath.ItoB(3), gmath.Bool(true).I(), gmath.Equal(1, 1.5))
	})
	add("rand", func(o *w, _ string) {
		a, b := rand.NewRand32S(5), rand.NewRand64S(6)
		for i := 0; i < 20; i++ {
			o.p(a.Rand(), a.RandRange(3, 9), a.RandMax(7), b.Rand(), b.RandRange(3, 9), b.RandMax(7), a.Seed(), b.Seed())
		}
		o.p(a.Srand(3), b.Srand(4), a.Rand(), b.Rand())
	})
	add("rand of the package", func(o *w, _ string) {
		for i := 0; i < 20; i++ {
			x, y, z := rand.RandRange32(3, 9), rand.RandMax32(5), rand.RandRange64(3, 9)
			o.p(x >= 3 && x <= 9, y < 6, z >= 3 && z <= 9)
			rand.Rand32()
			rand.Rand64()
			rand.NewRand32().Rand()
			rand.NewRand64().Rand()
			rand.RandSeed(uint64(i))
		}
	})
	add("random strings", func(o *w, _ string) {
		for i := 0; i < 20; i++ {
			s := gstr.Rand(gstr.RULE_STRONG, i)
			o.p(len(s), strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
		}
	})
	// texts, copies, types
	add("ini", func(o *w, dir string) {
		f := ini.Load(strings.NewReader(iniText))
		g, err := ini.New(dir + "/i.ini")
		o.p(err)
		for _, f := range []*ini.IniFile{f, g} {
			s := append([]string(nil), f.Sections()...)
			sort.Strings(s)
			for _, s := range s {
				k := append([]string(nil), f.Keys(s)...)
				sort.Strings(k)
				for _, k := range k {
					o.p(s, k, f.GetString(s, k, "d"))
				}
			}
			o.p(f.GetString("no", "no", "d"))
		}
	})
	add("copys", func(o *w, _ string) {
		var a, b, c bytes.Buffer
		o.p(gio.Copys(bytes.NewReader(text), &a, &b))
		o.p(gio.Copys(struct{ io.Reader }{bytes.NewReader(text)}, &a, &b, &c))
		o.p(gio.CopysBuffer(struct{ io.Reader }{bytes.NewReader(text)}, make([]byte, 7), struct{ io.Writer }{&a}, &c))
		o.p(a.String(), b.String(), c.String())
	})
	add("reflect", func(o *w, _ string) {
		for _, v := range []interface{}{1, "a", text, 1.5, sh.list} {
			o.p(reflect.Kind(v), reflect.IsSameType(v, 1), reflect.IsCmpableInnterType(v), fmt.Sprintf("%T", reflect.New(v)))
		}
	})
	add("unsafe", func(o *w, _ string) {
		s := string(text)
		b := unsafe.StringBytes(s)
		o.p(len(b), cap(b), b.Writeable(), string(unsafe.BytesString(b)), unsafe.String(s).Pointer() == b.Pointer(), unsafe.Writeable(b.Pointer()))
	})
	add("time", func(o *w, _ string) {
		for _, s := range []string{"3h", "50h10m", "1000h5ns", "x"} {
			d, err := gtime.ParseDuration(s)
			o.p(d.String(), err, d.Days(), d.Weeks(), d.Hours(), d.Minutes(), d.Seconds(), d.Std())
		}
	})
	add("debug", func(o *w, _ string) {
		o.p(debug.Bt(), debug.BtFileLine(), debug.BtFunc(), debug.Caller(0), debug.CallerFileLine(0), debug.CallerFunc(0))
		o.p(strings.Contains(debug.Bts(), "scen.go"), debug.CallStackList(0)[0], debug.Assert(true))
		f, n := fs.FileLine()
		o.p(f, n, fs.Func())
		fs.RelateFileLine()
	})
	add("errors", func(o *w, _ string) {
		id := gerr.ERRID_STD
		if atomic.AddInt32(&regs, 1) < 300 { // ids are never given back
			id, _ = gerr.Reg("c47 x")
		}
		n, e2 := id.Get()
		o.p(e2, n == "c47 x" || n == "standard error")
		o.p(gerr.Newf(gerr.ERRID_STD, "%d", 5), gerr.New(gerr.ERRID_STD), gerr.StdErr(io.EOF), gerr.StdErr(io.EOF).Id(), gerr.ERRID_STD.String(), gerr.NewError("%d", 4))
		o.p(strings.Contains(gerr.ShowAll(), "standard error"))
	})
	add("factory", func(o *w, _ string) {
		a, b := factory.NewFactoryS(), factory.NewFactoryI()
		o.p(a.AddCreater("x", maker(5)), b.AddCreater(3, maker(6)))
		o.p(a.Create("x", 1), b.Create(3, 1, 2), a.Create("y"), b.Create(4))
		o.p(a.RemoveCreater("x"), b.RemoveCreater(3), a.Create("x"), b.Create(3))
	})
	add("registered values of its own", func(o *w, dir string) {
		i := 5 + map[string]int{"a": 0, "b": 1}[filepath.Base(dir)]
		if n, err := strconv.Atoi(filepath.Base(dir)[1:]); err == nil {
			i += 2 + n
		}
		o.p(sh.ids[i].Set(77))
		o.p(sh.objs[i].Set(78))
		o.p(sh.ids[i].Get())
		o.p(sh.objs[i].Get())
		o.p(sh.objs[i].GetNoErr(), sh.ids[i].GetNoErr())
	})
	// paths and files
	add("paths", func(o *w, _ string) {
		for _, p := range []string{"/a/b/../c.go", "x/y", "", ".", "/", "a//b/"} {
			f := fs.FilePath(p)
			d, n := f.Split()
			m, err := f.Match("*")
			o.p(f, f.S(), f.StringSys(), f.SplitList(), d, n, f.Ext(), f.Relate("/a"), f.Base(), f.Dir(), f.VolumeName(), m, err, f.HasPrefix("/"), f.SplitAll(), f.Join("q"), f.Joins("q", "r"), fs.Joins(p, "z"), fs.FormatPath(p), fs.FileName(p))
			f.Set("other")
			o.p(f, fs.RelatePath(p, "/b"), fs.RelateWorkPath(p), fs.RelateGoPath(p), fs.WorkPath(), fs.GoPath(), fs.TempDir())
			d, n = fs.Split(p)
			o.p(d, n)
			a, err := f.Abs()
			o.p(a, err)
		}
		s := fs.FileSize(0)
		for i := uint(0); i < 64; i += 5 {
			s.Set(3 << i)
			o.p(s.String(), s.N())
		}
	})
	add("file operations", func(o *w, dir string) {
		d := fs.FilePath(dir + "/work")
		o.p(d.Mkdir(0755), fs.FilePath(d.Join("m/n")).MkdirAll(0755), fs.Create(d.Join("cr")))
		f := fs.FilePath(d.Join("f"))
		h, err := f.Create()
		o.p(err)
		h.Write(text)
		h.Close()
		o.p(f.Truncate(9), f.Chmod(0600))
		l, err := f.Link("l")
		o.p(strings.TrimPrefix(l.S(), dir), err)
		l, err = f.Symlink("s")
		o.p(strings.TrimPrefix(l.S(), dir), err)
		st, err := f.Stat()
		o.p(st.Size(), err)
		st, err = l.Lstat()
		o.p(st.Mode(), err)
		t, err := l.Readlink()
		o.p(strings.TrimPrefix(t, dir), err)
		n, err := f.Rename("g")
		o.p(strings.TrimPrefix(n.S(), dir), err)
		n, err = n.Move("m/k")
		o.p(strings.TrimPrefix(n.S(), dir), err)
		x, err := l.EvalSymlinks()
		o.p(strings.TrimPrefix(x, dir), err != nil)
		h, err = n.OpenFile(os.O_RDWR, 0)
		o.p(err)
		h.Close()
		h, err = n.Open()
		o.p(err)
		h.Close()
		o.p(fs.FilePath(d.Join("cr")).Remove(), d.RemoveAll())
	})
	dirs := func(o *w, d string) {
		for opt := fs.FsOption(0); opt < 32; opt++ {
			l, err := fs.CollectSubs(d, opt)
			o.p(trim(d, l, err))
		}
		for _, f := range []func(string) ([]string, error){fs.GetLeafDirs, fs.GetSubDirs, fs.GetSubFiles, fs.GetSubs, fs.GetDeepFiles} {
			l, err := f(d)
			o.p(trim(d, l, err))
		}
		p := fs.FilePath(d)
		o.p(p.Statistic())
		n := 0
		o.p(p.Walk(func(string, fs.FileInfo, error) error { n++; return nil }), n)
	}
	hashes := func(o *w, d string) {
		p := fs.FilePath(d)
		r, err := p.Fingerprint()
		o.p(files(d, r, err))
		for m := gxhash.HashMethod(1); m <= gxhash.FINGERPRINT; m++ {
			r, err = p.Hash(m, "salt")
			o.p(files(d, r, err))
		}
		r, err = p.Hash(gxhash.NONE, "")
		o.p(len(r.All()), err)
	}
	add("listings", dirs)
	add("content hashes", hashes)
	// reading what is shared
	add("shared listings", func(o *w, _ string) { dirs(o, sh.dir) })
	add("shared content hashes", func(o *w, _ string) { hashes(o, sh.dir) })
	add("shared queue, deque, stack, heap, slice", func(o *w, _ string) {
		o.p(sh.queue.Front())
		o.p(sh.queue.Back())
		o.p(sh.queue.Size(), sh.queue.Cap(), sh.queue.Empty())
		o.p(sh.deque.Front())
		o.p(sh.deque.Back())
		o.p(sh.deque.Size(), sh.deque.Cap(), sh.deque.Empty())
		o.p(sh.stack.Top())
		o.p(sh.stack.Size(), sh.stack.Empty())
		o.p(sh.heap.Top())
		o.p(sh.heap.Size(), sh.heap.Empty(), sh.heap.CheckHeap(sh.heap.Buffer()), sh.heap.Buffer())
		o.p(sh.slice.Get(3))
		o.p(sh.slice.MustGet(2), sh.slice.Len(), sh.slice.Less(1, 2), sh.slice.Buffer())
	})
	add("shared lists and trees", func(o *w, _ string) {
		l, s := sh.list, sh.slist
		o.p(lst(l), l.Front().Get(), l.Back().Get(), l.Empty(), l.Reachable(l.Front(), l.Back()), l.IsValidNode(l.Back()), l.Front().Next().Prev().Get())
		o.p(slst(s), s.Front().Get(), s.Len(), s.Empty(), s.HasCycle(s.Front()), s.Reachable(s.Front(), s.Front().Next()), s.IsValidNode(s.Front()))
		t, n := s.Front().Tail()
		o.p(t.Get(), n)
		c, _ := sh.tree.GetChild(0)
		o.p(visit(c), c.All(), c.NumChildren(), len(c.Children()), c.Less(c))
		o.p(files(sh.dir, sh.tree2, nil))
	})
	add("shared hashes", func(o *w, _ string) {
		for _, h := range sh.hash {
			o.p(h.Size(), h.BlockSize())
		}
	})
	add("shared keys", func(o *w, _ string) {
		o.p(sh.cli.VerifyDefault(text, sh.sign))
		g, err := sh.srv.SignDefault(text)
		o.p(g, err)
		e, err := sh.cli.Encrypt(odd)
		d, err2 := sh.srv.Decrypt(e)
		o.p(err, d, err2)
	})
	add("shared numbers", func(o *w, _ string) {
		o.p(sh.rng.Get())
		o.p(sh.rng.Val(), sh.rng.Min(), sh.rng.Max(), sh.rng.InRange(4), sh.rng.InCurrentRange(4), sh.rng.String(), sh.rng.Info())
		o.p(sh.rng64.Get())
		o.p(sh.rng64.Val(), sh.rng64.Min(), sh.rng64.Max(), sh.rng64.InRange(4), sh.rng64.InCurrentRange(4), sh.rng64.Info())
	})
	add("shared ini, factories, errors", func(o *w, _ string) {
		s := append([]string(nil), sh.ini.Sections()...)
		sort.Strings(s)
		k := append([]string(nil), sh.ini.Keys("s")...)
		sort.Strings(k)
		o.p(s, k, sh.ini.GetString("s", "k", "d"), sh.ini.GetString("", "a", "d"), sh.ini.GetString("q", "a", "d"))
		o.p(sh.fs.Create("a", 1), sh.fi.Create(1, 2), factory.Create("c47", 3), factory.Create("c47x"))
		o.p(sh.err.Error(), sh.err.Id(), sh.errf.Error(), sh.errf.Id())
	})
	add("shared registered values", func(o *w, _ string) {
		for _, i := range []int{0, 3, 4} {
			d, b := sh.ids[i], sh.objs[i]
			o.p(d.Valid(), d.GetNoErr(), d.String(), b.Valid(), b.GetNoErr(), b.String(), b.Id())
			o.p(d.Get())
			o.p(d.Ids())
			o.p(d.Name())
			o.p(d.Oject().Name())
			o.p(b.Get())
			o.p(b.Name())
		}
		o.p(regable.Uint32Id(0).Valid(), regable.Uint32Id(1<<24+200).Valid())
	})
	return
}()
