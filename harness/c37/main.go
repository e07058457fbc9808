// C37: registered values.
package main

import (
	"fmt"
	"strings"
	"time"

	greg "github.com/vipally/gx/regable"
	sreg "gxs/regable"
	"gxv/mc"
	"gxv/sched"
)

// The two copies of the package (plain and instrumented) behind one interface.

type objT interface {
	Valid() bool
	Get() (uint32, error)
	GetNoErr() uint32
	Set(uint32) (uint32, error)
	String() string
	Name() (string, error)
}
type idI[O any] interface {
	~uint32
	Valid() bool
	Get() (uint32, error)
	GetNoErr() uint32
	Set(uint32) (uint32, error)
	String() string
	Name() (string, error)
	Ids() (uint32, uint32)
	Oject() O
}
type objI[I any] interface {
	objT
	Id() I
}
type regerI[I, O any] interface {
	MaxReg(uint32) (uint32, error)
	Reg(string, uint32) (I, error)
	MustReg(string, uint32) I
	RegO(string, uint32) (O, error)
	MustRegO(string, uint32) O
	String() string
}

type reger struct {
	maxReg func(uint32) (uint32, error)
	reg    [2]func(string, uint32) (uint32, error)
	regO   [2]func(string, uint32) (object, error)
	str    func() string
}
type object struct {
	objT
	id func() uint32
}
type api struct {
	newR    [2]func(string) (*reger, error)
	showAll func() string
	show    func() string
	finish  func()
	make    func(a, b uint32) uint32
	id      func(uint32) objT
	ids     func(uint32) (uint32, uint32)
	obj     func(uint32) object
}

func wrap[I idI[O], O objI[I], R regerI[I, O]](newR func(string) (R, error), must func(string) R, showAll, show func() string, finish func(), mk func(a, b uint32) uint32) *api {
	ob := func(o O) object { return object{o, func() uint32 { return uint32(o.Id()) }} }
	rg := func(r R) *reger {
		return &reger{
			maxReg: r.MaxReg, str: r.String,
			reg: [2]func(string, uint32) (uint32, error){
				func(n string, v uint32) (uint32, error) { i, e := r.Reg(n, v); return uint32(i), e },
				func(n string, v uint32) (uint32, error) { return uint32(r.MustReg(n, v)), nil }},
			regO: [2]func(string, uint32) (object, error){
				func(n string, v uint32) (object, error) { o, e := r.RegO(n, v); return ob(o), e },
				func(n string, v uint32) (object, error) { return ob(r.MustRegO(n, v)), nil }},
		}
	}
	return &api{
		newR: [2]func(string) (*reger, error){
			func(n string) (*reger, error) {
				r, e := newR(n)
				if e != nil {
					return nil, e
				}
				return rg(r), nil
			},
			func(n string) (*reger, error) { return rg(must(n)), nil }},
		showAll: showAll, show: show, finish: finish, make: mk,
		id:  func(i uint32) objT { return I(i) },
		ids: func(i uint32) (uint32, uint32) { return I(i).Ids() },
		obj: func(i uint32) object { return ob(I(i).Oject()) },
	}
}

var plain = wrap(greg.NewUint32Reger, greg.MustNewUint32Reger, greg.ShowAllRegs, greg.ShowAllUint32Regers, greg.FinishReg, greg.MakeRegedId)
var copied = wrap(sreg.NewUint32Reger, sreg.MustNewUint32Reger, sreg.ShowAllRegs, sreg.ShowAllUint32Regers, sreg.FinishReg, sreg.MakeRegedId)

// model

type rec struct {
	name string
	val  uint32
}
type mReger struct {
	name string
	max  int
	recs []*rec
}
type model struct {
	a      *api
	regers []*mReger
	impl   []*reger
	objs   map[uint32]object
	locked bool
}

func fresh(a *api) *model { return &model{a: a, objs: map[uint32]object{}} }

func (m *model) get(id uint32) *rec {
	r, i := int(id>>24), int(id&0xffffff)
	if r < 1 || r > len(m.regers) || i < 1 || i > len(m.regers[r-1].recs) {
		return nil
	}
	return m.regers[r-1].recs[i-1]
}

// panics runs f; a panic is a failure as much as an error is.
func failed(f func() error) (bad bool) {
	bad = true
	defer func() { recover() }()
	return f() != nil
}

func (m *model) doNew(name string, v int) error {
	var r *reger
	bad := failed(func() (e error) { r, e = m.a.newR[v](name); return })
	if ok := !m.locked && len(m.regers) < 255; ok == bad {
		return fmt.Errorf("new reger number %d: failed %v, expected success %v", len(m.regers)+1, bad, ok)
	}
	if !bad {
		m.regers = append(m.regers, &mReger{name: name, max: 1024})
		m.impl = append(m.impl, r)
	}
	return nil
}

func (m *model) doReg(r int, name string, val uint32, v int) error {
	var id uint32
	var o object
	bad := failed(func() (e error) {
		if v < 2 {
			id, e = m.impl[r].reg[v](name, val)
		} else if o, e = m.impl[r].regO[v-2](name, val); e == nil {
			id = o.id()
		}
		return
	})
	q := m.regers[r]
	if ok := !m.locked && len(q.recs) < q.max; ok == bad {
		return fmt.Errorf("registration number %d of at most %d: failed %v, expected success %v", len(q.recs)+1, q.max, bad, ok)
	}
	if bad {
		return nil
	}
	q.recs = append(q.recs, &rec{name, val})
	if w := uint32(r+1)<<24 | uint32(len(q.recs)); id != w {
		return fmt.Errorf("registered id %x, expected %x", id, w)
	}
	if v >= 2 {
		m.objs[id] = o
	}
	return nil
}

func (m *model) doMax(r int, n uint32) error {
	g, e := m.impl[r].maxReg(n)
	q := m.regers[r]
	ok := n >= 1 && n < 1<<24 && int(n) >= len(q.recs)
	if ok != (e == nil) || ok && g != n {
		return fmt.Errorf("MaxReg(%d) with %d registered: %d, %v; expected success %v", n, len(q.recs), g, e, ok)
	}
	if ok {
		q.max = int(n)
	}
	return nil
}

func (m *model) checkObj(what string, id uint32, o objT, invalid string) error {
	w := m.get(id)
	if o.Valid() != (w != nil) {
		return fmt.Errorf("%s %x: Valid %v", what, id, o.Valid())
	}
	v, e := o.Get()
	n, e2 := o.Name()
	var g uint32
	bad := failed(func() error { g = o.GetNoErr(); return nil })
	if w == nil {
		if e == nil || e2 == nil || v != 0 || n != "" || !bad {
			return fmt.Errorf("%s %x is not registered: Get %d, %v; Name %q, %v; GetNoErr panics %v", what, id, v, e, n, e2, bad)
		}
		if s := o.String(); s != invalid {
			return fmt.Errorf("%s %x is not registered: String %q", what, id, s)
		}
		if r, e := o.Set(5); e == nil || r != 0 {
			return fmt.Errorf("%s %x is not registered: Set %d, %v", what, id, r, e)
		}
		return nil
	}
	if e != nil || e2 != nil || v != w.val || n != w.name || bad || g != w.val {
		return fmt.Errorf("%s %x: Get %d, %v; Name %q, %v; GetNoErr %d %v; expected %d %q", what, id, v, e, n, e2, g, bad, w.val, w.name)
	}
	if s, x := o.String(), fmt.Sprintf("Uint32#(%d|%d|%s)%d", id>>24, id&0xffffff, w.name, w.val); s != x {
		return fmt.Errorf("%s %x: String %q, expected %q", what, id, s, x)
	}
	return nil
}

func (m *model) checkId(id uint32) error {
	o := m.a.obj(id)
	if err := m.checkObj("id", id, m.a.id(id), fmt.Sprintf("invalid Uint32Id#(%d|%d)", id>>24, id&0xffffff)); err != nil {
		return err
	}
	if err := m.checkObj("object of", id, o, "invalid uint32 object"); err != nil {
		return err
	}
	w := id
	if m.get(id) == nil {
		w = 0
	}
	if g := o.id(); g != w {
		return fmt.Errorf("object of %x: Id %x, expected %x", id, g, w)
	}
	return nil
}

func (m *model) checkShow() error {
	all := m.a.show()
	if w := fmt.Sprintf("[Uint32Regers] count:%d", len(m.regers)); !strings.HasPrefix(all, w) {
		return fmt.Errorf("ShowAllUint32Regers: %.200q", all)
	}
	if s := m.a.showAll(); !strings.HasPrefix(s, fmt.Sprintf("[regable] locked:%v\n", m.locked)) || !strings.HasSuffix(s, all) {
		return fmt.Errorf("ShowAllRegs: %.200q", s)
	}
	for i, q := range m.regers {
		s := m.impl[i].str()
		var b strings.Builder
		for k, r := range q.recs {
			fmt.Fprintf(&b, "\n#%d [%s]: %d", k+1, r.name, r.val)
		}
		l := b.String()
		if !strings.HasPrefix(s, fmt.Sprintf("[Uint32Reger#%d: %s] ", i+1, q.name)) || !strings.HasSuffix(s, l) || strings.Count(s, "\n") != strings.Count(l, "\n") {
			return fmt.Errorf("reger %d shows %.300q, expected the entries %.300q", i+1, s, l)
		}
		if !strings.Contains(all, s) {
			return fmt.Errorf("reger %d is not shown", i+1)
		}
	}
	return nil
}

func (m *model) check(t *mc.T, whole bool) error {
	var ids []uint32
	for _, r := range []int{0, 1, 2, 3, len(m.regers), len(m.regers) + 1, 255} {
		n := 0
		if r >= 1 && r <= len(m.regers) {
			n = len(m.regers[r-1].recs)
		}
		l := []int{0, 1, 2, 3, n - 1, n, n + 1, n + 2, 1023, 1024, 1025, 1<<24 - 1}
		if whole {
			for i := 0; i <= n; i++ {
				l = append(l, i)
			}
		}
		for _, i := range l {
			if i >= 0 && r < 256 {
				ids = append(ids, uint32(r)<<24|uint32(i))
			}
		}
	}
	for _, id := range ids {
		if err := m.checkId(id); err != nil {
			return err
		}
		t.Steps += 10
	}
	for id, o := range m.objs {
		if err := m.checkObj("object", id, o, ""); err != nil {
			return err
		}
	}
	return m.checkShow()
}

func (m *model) set(id, val uint32, viaObj bool) error {
	o := m.a.id(id)
	if viaObj {
		if x, ok := m.objs[id]; ok {
			o = x
		} else {
			o = m.a.obj(id)
		}
	}
	r, e := o.Set(val)
	w := m.get(id)
	if (e == nil) != (w != nil) || w != nil && r != val {
		return fmt.Errorf("Set of %x: %d, %v", id, r, e)
	}
	if w != nil {
		w.val = val
	}
	return nil
}

var opNames = []string{"New", "Reg(first)", "Reg(last)", "RegO(first)", "RegO(last)", "MaxReg(first,1)", "MaxReg(first,2)", "MaxReg(last,0)", "MaxReg(last,1)", "Set(first)", "SetO(last)", "SetO(first)", "FinishReg"}

func (m *model) op(k, step int) error {
	last := len(m.regers) - 1
	name := []string{"n0", "", "%d] x"}[step%3] // names repeat
	val := uint32(100 + step)
	if last < 0 && k >= 1 && k <= 8 {
		return nil
	}
	pick := func(r int, f func(n uint32) error) error {
		if r < 0 {
			return f(0)
		}
		return f(uint32(r+1)<<24 | uint32(len(m.regers[r].recs)))
	}
	switch k {
	case 0:
		return m.doNew(name, step&1)
	case 1, 2, 3, 4:
		r := 0
		if k == 2 || k == 4 {
			r = last
		}
		v := step & 1
		if k >= 3 {
			v += 2
		}
		return m.doReg(r, name, val, v)
	case 5, 6:
		return m.doMax(0, uint32(k-4))
	case 7, 8:
		return m.doMax(last, uint32(k-7))
	case 9:
		return m.set(1<<24|1, val, false)
	case 10:
		return pick(last, func(n uint32) error { return m.set(n, val, true) })
	case 11:
		return m.set(1<<24|1, val, true)
	}
	m.a.finish()
	m.locked = true
	return nil
}

// schedules

// An operation is (kind, record, via object).
var kinds = []string{"Get", "Set", "Name", "String", "GetNoErr"}

type call struct {
	kind, rec  int
	val        uint32
	res        string
	begin, end int
}

func (c *call) run(o objT) string {
	switch c.kind {
	case 0:
		v, e := o.Get()
		return fmt.Sprint(v, e == nil)
	case 1:
		v, e := o.Set(c.val)
		return fmt.Sprint(v, e == nil)
	case 2:
		s, e := o.Name()
		return fmt.Sprint(s, e == nil)
	case 3:
		return o.String()
	}
	return fmt.Sprint(o.GetNoErr())
}

func (c *call) spec(v *[2]uint32) string {
	n := fmt.Sprintf("r%d", c.rec)
	switch c.kind {
	case 0:
		return fmt.Sprint(v[c.rec], true)
	case 1:
		v[c.rec] = c.val
		return fmt.Sprint(c.val, true)
	case 2:
		return fmt.Sprint(n, true)
	case 3:
		return fmt.Sprintf("Uint32#(%d|1|%s)%d", c.rec+1, n, v[c.rec])
	}
	return fmt.Sprint(v[c.rec])
}

func linearizable(calls []*call, final [2]uint32) bool {
	var try func(used int, v [2]uint32) bool
	try = func(used int, v [2]uint32) bool {
		if used == 1<<uint(len(calls))-1 {
			return v == final
		}
	next:
		for i, c := range calls {
			if used>>uint(i)&1 == 1 {
				continue
			}
			for j, d := range calls {
				if j != i && used>>uint(j)&1 == 0 && d.end < c.begin {
					continue next
				}
			}
			vv := v
			if c.spec(&vv) == c.res && try(used|1<<uint(i), vv) {
				return true
			}
		}
		return false
	}
	return try(0, [2]uint32{7, 8})
}

// op code: kind + 5*record + 10*object
func explore(c []int, deadline time.Time) *sched.Result {
	bound := c[0]
	var th [][]int
	for p := c[1:]; len(p) > 0; {
		th = append(th, p[1:1+p[0]])
		p = p[1+p[0]:]
	}
	return sched.Explore(&sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		sreg.GxvReset()
		var ids [2]uint32
		var objs [2]object
		for i := range ids {
			r, _ := copied.newR[0]("x")
			ids[i], _ = r.reg[0](fmt.Sprintf("r%d", i), uint32(7+i))
			objs[i] = copied.obj(ids[i])
		}
		clock := 0
		res := make([][]*call, len(th))
		return func(t int) {
				for i, o := range th[t] {
					sched.OpBegin()
					clock++
					k := &call{kind: o % 5, rec: o / 5 % 2, val: uint32(100*t + i + 10), begin: clock}
					x := copied.id(ids[k.rec])
					if o >= 10 {
						x = objs[k.rec]
					}
					k.res = k.run(x)
					sched.OpBegin()
					clock++
					k.end = clock
					res[t] = append(res[t], k)
				}
			}, func() error {
				var all []*call
				for _, r := range res {
					all = append(all, r...)
				}
				a, _ := copied.id(ids[0]).Get()
				b, _ := objs[1].Get()
				if !linearizable(all, [2]uint32{a, b}) {
					var s []string
					for t, r := range res {
						for _, k := range r {
							s = append(s, fmt.Sprintf("T%d:%s#%d=%q[%d,%d]", t, kinds[k.kind], k.rec, k.res, k.begin, k.end))
						}
					}
					return fmt.Errorf("not the results of any sequential order: %s; final %d %d", strings.Join(s, " "), a, b)
				}
				return nil
			}
	}}, bound, deadline)
}

func show(c mc.Case) string {
	s := fmt.Sprintf("preemptions<=%d:", c[0])
	for p := c[1:]; len(p) > 0; {
		s += " ["
		for _, o := range p[1 : 1+p[0]] {
			s += fmt.Sprintf(" %s(%s%d)", kinds[o%5], map[bool]string{true: "object", false: "id"}[o >= 10], o/5%2)
		}
		s += " ]"
		p = p[1+p[0]:]
	}
	return s
}

func main() {
	sched.Serve(explore)
	mc.Main("C37", func(r *mc.Run) {
		n := r.Pick(5, 6)
		r.Enumerate(mc.Enum{Name: "histories", Serial: true, Bounds: fmt.Sprintf("all sequences of %d of %d operations (new regers, registrations by id and object, limits, sets, end of registration); all ids around the registered ones after each", n, len(opNames)), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(opNames), n-1, n-1, func(c mc.Case) { emit(append(mc.Case{0}, c...)) })
		}, Show: func(c mc.Case) string {
			var s []string
			for _, x := range c {
				s = append(s, opNames[x])
			}
			return strings.Join(s, " ")
		}, Run: func(c mc.Case, t *mc.T) error {
			sreg.GxvReset()
			m := fresh(copied)
			for k := 0; k <= len(c); k++ {
				rest := 0
				for _, x := range c[k:] {
					rest += x
				}
				if rest == 0 {
					if err := m.check(t, false); err != nil {
						return fmt.Errorf("after %d: %v", k, err)
					}
				}
				if k < len(c) {
					if err := m.op(c[k], k); err != nil {
						return err
					}
					t.Steps++
				}
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "capacity", Serial: true, Bounds: "255 regers and one too many; 1024 registrations and one too many; limits raised to 70000 and filled, limits 1..2^24-1 at their ends; on the package itself", Gen: func(emit func(mc.Case)) {
			emit(mc.Case{0})
		}, Run: func(c mc.Case, t *mc.T) error {
			m := fresh(plain)
			if err := m.check(t, true); err != nil {
				return fmt.Errorf("at start: %v", err)
			}
			for i := 0; i < 258; i++ {
				if err := m.doNew(fmt.Sprint("r", i), i&1); err != nil {
					return err
				}
				if err := m.check(t, true); err != nil {
					return fmt.Errorf("%d regers: %v", i, err)
				}
			}
			t.Steps += 258
			fill := func(r, n int) error {
				for i := 0; i < n; i++ {
					if err := m.doReg(r, fmt.Sprint("v", i), uint32(i), i&3); err != nil {
						return err
					}
					if i&(i+1) == 0 {
						if err := m.check(t, false); err != nil {
							return err
						}
					}
				}
				t.Steps += int64(n)
				return m.check(t, true)
			}
			for _, x := range [][2]int{{0, 1027}, {254, 1027}, {1, 5}, {127, 3}, {128, 3}} {
				if err := fill(x[0], x[1]); err != nil {
					return fmt.Errorf("reger %d: %v", x[0]+1, err)
				}
			}
			for _, k := range []uint32{0, 4, 5, 6, 1 << 24, 1<<24 - 1, 1<<24 + 1, 1<<32 - 1, 1 << 31, 70000, 1023, 1024} {
				for _, q := range []int{0, 1} {
					if err := m.doMax(q, k); err != nil {
						return err
					}
				}
			}
			m.doMax(1, 70000)
			if err := fill(1, 70002); err != nil {
				return err
			}
			if err := m.doMax(0, 1030); err != nil {
				return err
			}
			if err := fill(0, 9); err != nil {
				return err
			}
			m.a.finish()
			m.locked = true
			if err := m.doNew("late", 0); err != nil {
				return err
			}
			return fill(3, 2)
		}})
		r.Enumerate(mc.Enum{Name: "id codes", Bounds: "every reger id 0..255 with every power of two, its neighbours and the extremes as real id, and reals beyond 24 bits", Gen: func(emit func(mc.Case)) {
			for a := 0; a < 256; a++ {
				emit(mc.Case{a})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			for b := 0; b < 26; b++ {
				for d := -1; d <= 1; d++ {
					v := uint32(1<<uint(b) + d)
					id := plain.make(uint32(c[0]), v)
					g, i := plain.ids(id)
					if g != uint32(c[0]) || i != v&(1<<24-1) {
						return fmt.Errorf("MakeRegedId(%d, %x) = %x, parts %d %x", c[0], v, id, g, i)
					}
					t.Steps += 2
				}
			}
			return nil
		}})
		var one []mc.Case
		for i := 0; i < 20; i++ {
			one = append(one, mc.Case{1, i})
		}
		for i := 0; i < 4; i++ { // Get, Set on record 0, mixed access
			for j := 0; j < 4; j++ {
				f := func(k int) int { return k%2 + k/2*10 }
				one = append(one, mc.Case{2, f(i), f(j)})
			}
		}
		two, three := r.Pick(3, 6), r.Pick(2, 3)
		sched.Part(r, "2 threads", fmt.Sprintf("2 threads, one of {Get, Set, Name, String, GetNoErr} by id or object on one of two values, or two of {Get, Set}; preemption bound %d; linearizable, no data race, no deadlock", two), func(emit func(mc.Case)) {
			for i := range one {
				for j := i; j < len(one); j++ {
					emit(append(append(mc.Case{two}, one[i]...), one[j]...))
				}
			}
		}, show)
		sched.Part(r, "3 threads", fmt.Sprintf("3 threads, one operation each on one value; preemption bound %d", three), func(emit func(mc.Case)) {
			var small []int
			for i := 0; i < 20; i++ {
				if i/5%2 == 0 {
					small = append(small, i)
				}
			}
			for i := range small {
				for j := i; j < len(small); j++ {
					for k := j; k < len(small); k++ {
						emit(mc.Case{three, 1, small[i], 1, small[j], 1, small[k]})
					}
				}
			}
		}, show)
		r.Assume = append(r.Assume, "sequentially consistent execution; data races on fields of registered values and on package variables are reported")
	})
}
