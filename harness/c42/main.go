// C42: the template of registered values, for every kind of value of reg.gpg.
package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"gxs/regk"
	"gxv/mc"
	"gxv/sched"
)

// kind is what a section of reg.gpg promises.
type kind struct {
	name, typ string
	set, rev  bool
	named     bool
	instead   string // shown for the name of a nameless kind
	vals      []any
	zero      any
	impl      regk.Kind
}

var u32 = []any{uint32(3), uint32(1<<32 - 1), uint32(0), uint32(5)}
var u64 = []any{uint64(3), uint64(1<<64 - 1), uint64(1 << 32), uint64(5)}
var strs = []any{"a", "%s%d\n", "", "ä\xff"}
var any4 = []any{5, nil, "x", [2]int{1, 2}}

var kinds = []*kind{
	{name: "Bool", typ: "bool", set: true, rev: true, named: true, vals: []any{true, false, true, true}, zero: false},
	{name: "Uint32", typ: "uint32", set: true, named: true, vals: u32, zero: uint32(0)},
	{name: "ConstUint32", typ: "uint32", named: true, vals: u32, zero: uint32(0)},
	{name: "NoNameConstUint32", typ: "uint32", instead: "no name", vals: u32, zero: uint32(0)},
	{name: "String", typ: "string", set: true, vals: strs, zero: ""},
	{name: "ConstString", typ: "string", vals: strs, zero: ""},
	{name: "Inerface", typ: "interface{}", set: true, named: true, vals: any4, zero: nil},
	{name: "ConstInerface", typ: "interface{}", named: true, vals: any4, zero: nil},
	{name: "Uint64", typ: "uint64", set: true, named: true, vals: u64, zero: uint64(0)},
	{name: "ConstUint64", typ: "uint64", named: true, vals: u64, zero: uint64(0)},
	{name: "NoNameConstUint64", typ: "uint64", instead: "no name", vals: u64, zero: uint64(0)},
}

func init() {
	for _, k := range kinds {
		for _, i := range regk.Kinds {
			if i.Name == k.name {
				k.impl = i
			}
		}
		if k.impl.New == nil {
			k.name = "" // not declared any more
		}
	}
	n := 0
	for _, k := range kinds {
		if k.name != "" {
			kinds[n] = k
			n++
		}
	}
	kinds = kinds[:n]
}

func has(o any, m string) bool { return reflect.ValueOf(o).MethodByName(m).IsValid() }

// call calls a method by its name.
func call(o any, m string, args ...any) []any {
	f := reflect.ValueOf(o).MethodByName(m)
	if !f.IsValid() {
		panic("no method " + m)
	}
	var in []reflect.Value
	for i, a := range args {
		if a == nil {
			in = append(in, reflect.Zero(f.Type().In(i)))
		} else {
			in = append(in, reflect.ValueOf(a))
		}
	}
	var out []any
	for _, v := range f.Call(in) {
		out = append(out, v.Interface())
	}
	return out
}

func toID(v any) uint32 { return uint32(reflect.ValueOf(v).Uint()) }

// model

type rec struct {
	name string
	val  any
	obj  any
}
type mReger struct {
	name string
	max  int
	recs []*rec
	impl any
}
type world struct {
	regers map[*kind][]*mReger
	locked bool
}

func (w *world) get(k *kind, id uint32) *rec {
	l := w.regers[k]
	r, i := int(id>>24), int(id&0xffffff)
	if r < 1 || r > len(l) || i < 1 || i > len(l[r-1].recs) {
		return nil
	}
	return l[r-1].recs[i-1]
}

func failed(f func() error) (bad bool) {
	bad = true
	defer func() { recover() }()
	return f() != nil
}

func errOf(v any) error {
	if v == nil {
		return nil
	}
	return v.(error)
}

func (w *world) doNew(k *kind, name string, must bool) error {
	var r any
	bad := failed(func() (e error) {
		if must {
			r = k.impl.MustNew(name)
		} else {
			r, e = k.impl.New(name)
		}
		return
	})
	l := w.regers[k]
	if ok := !w.locked && len(l) < 255; ok == bad {
		return fmt.Errorf("%s: new reger number %d: failed %v, expected success %v", k.name, len(l)+1, bad, ok)
	}
	if !bad {
		w.regers[k] = append(l, &mReger{name: name, max: 1024, impl: r})
	}
	return nil
}

func (w *world) doReg(k *kind, r int, name string, val any, how int) error {
	q := w.regers[k][r]
	args := []any{val}
	if k.named {
		args = []any{name, val}
	}
	var id uint32
	var obj any
	bad := failed(func() error {
		o := call(q.impl, []string{"Reg", "MustReg", "RegO", "MustRegO"}[how], args...)
		if how%2 == 0 && o[1] != nil {
			return errOf(o[1])
		}
		if how >= 2 {
			obj = o[0]
			id = toID(call(obj, "Id")[0])
		} else {
			id = toID(o[0])
		}
		return nil
	})
	if ok := !w.locked && len(q.recs) < q.max; ok == bad {
		return fmt.Errorf("%s: registration number %d of at most %d: failed %v, expected success %v", k.name, len(q.recs)+1, q.max, bad, ok)
	}
	if bad {
		return nil
	}
	q.recs = append(q.recs, &rec{name, val, obj})
	if x := uint32(r+1)<<24 | uint32(len(q.recs)); id != x {
		return fmt.Errorf("%s: registered id %x, expected %x", k.name, id, x)
	}
	return nil
}

func (w *world) doMax(k *kind, r int, n uint32) error {
	q := w.regers[k][r]
	o := call(q.impl, "MaxReg", n)
	ok := n >= 1 && n < 1<<24 && int(n) >= len(q.recs)
	if ok != (o[1] == nil) || ok && o[0].(uint32) != n {
		return fmt.Errorf("%s: MaxReg(%d) with %d registered: %v; expected success %v", k.name, n, len(q.recs), o, ok)
	}
	if ok {
		q.max = int(n)
	}
	return nil
}

func (w *world) access(k *kind, id uint32, viaObj bool) any {
	o := k.impl.Id(id)
	if viaObj {
		if r := w.get(k, id); r != nil && r.obj != nil {
			return r.obj
		}
		return call(o, "Oject")[0]
	}
	return o
}

func (w *world) doSet(k *kind, id uint32, val any, viaObj bool) error {
	o := call(w.access(k, id, viaObj), "Set", val)
	r := w.get(k, id)
	if (o[1] == nil) != (r != nil) || r != nil && o[0] != val || r == nil && o[0] != k.zero {
		return fmt.Errorf("%s: Set of %x: %v", k.name, id, o)
	}
	if r != nil {
		r.val = val
	}
	return nil
}

func (w *world) doReverse(k *kind, id uint32, viaObj bool) error {
	o := call(w.access(k, id, viaObj), "Reverse")
	r := w.get(k, id)
	if (o[1] == nil) != (r != nil) || r != nil && o[0] != !r.val.(bool) || r == nil && o[0] != false {
		return fmt.Errorf("%s: Reverse of %x: %v", k.name, id, o)
	}
	if r != nil {
		r.val = o[0]
	}
	return nil
}

func (k *kind) shown(name string) string {
	if k.named {
		return name
	}
	return k.instead
}

func (w *world) checkAccess(k *kind, what string, id uint32, o any, invalid string) error {
	r := w.get(k, id)
	if g := call(o, "Valid")[0] == true; g != (r != nil) {
		return fmt.Errorf("%s %s %x: Valid %v", k.name, what, id, g)
	}
	g := call(o, "Get")
	var n any
	bad := failed(func() error { n = call(o, "GetNoErr")[0]; return nil })
	want, name, str := k.zero, "", invalid
	if r != nil {
		want, name = r.val, r.name
		str = fmt.Sprintf("%s#(%d|%d|%s)%v", k.name, id>>24, id&0xffffff, k.shown(r.name), r.val)
	}
	if g[0] != want || (g[1] == nil) != (r != nil) || bad != (r == nil) || !bad && n != want {
		return fmt.Errorf("%s %s %x (registered: %v): Get %v, GetNoErr %v, panic %v; expected %v", k.name, what, id, r != nil, g, n, bad, want)
	}
	if s := call(o, "String")[0]; s != str {
		return fmt.Errorf("%s %s %x: String %q, expected %q", k.name, what, id, s, str)
	}
	if k.named {
		if x := call(o, "Name"); x[0] != name || (x[1] == nil) != (r != nil) {
			return fmt.Errorf("%s %s %x: Name %q, expected %q", k.name, what, id, x, name)
		}
	}
	if r == nil && k.set {
		if x := call(o, "Set", k.vals[0]); x[1] == nil || x[0] != k.zero {
			return fmt.Errorf("%s %s %x is not registered: Set %v", k.name, what, id, x)
		}
	}
	if r == nil && k.rev {
		if x := call(o, "Reverse"); x[1] == nil || x[0] != false {
			return fmt.Errorf("%s %s %x is not registered: Reverse %v", k.name, what, id, x)
		}
	}
	return nil
}

func (w *world) check(k *kind, t *mc.T) error {
	l := w.regers[k]
	for r := 0; r <= len(l)+1 && r < 256; r++ {
		n := 0
		if r >= 1 && r <= len(l) {
			n = len(l[r-1].recs)
		}
		for i := 0; i <= n+2; i++ {
			if i == n+2 {
				i = 1<<24 - 1
			}
			id := uint32(r)<<24 | uint32(i)
			a := k.impl.Id(id)
			o := call(a, "Oject")[0]
			if err := w.checkAccess(k, "id", id, a, fmt.Sprintf("invalid %sId#(%d|%d)", k.name, r, i)); err != nil {
				return err
			}
			if err := w.checkAccess(k, "object", id, o, "invalid "+k.typ+" object"); err != nil {
				return err
			}
			x := id
			if rc := w.get(k, id); rc == nil {
				x = 0
			} else if rc.obj != nil {
				if err := w.checkAccess(k, "first object", id, rc.obj, ""); err != nil {
					return err
				}
			}
			if g := toID(call(o, "Id")[0]); g != x {
				return fmt.Errorf("%s: object of %x: Id %x, expected %x", k.name, id, g, x)
			}
			p := call(a, "Ids")
			if p[0] != uint32(r) || p[1] != uint32(i) {
				return fmt.Errorf("%s: Ids of %x: %v", k.name, id, p)
			}
			t.Steps += 12
		}
	}
	all := k.impl.Show()
	if p := fmt.Sprintf("[%sRegers] count:%d", k.name, len(l)); !strings.HasPrefix(all, p) {
		return fmt.Errorf("%s: ShowAll %.200q, expected %q...", k.name, all, p)
	}
	for i, q := range l {
		s := call(q.impl, "String")[0].(string)
		e := ""
		for j, rc := range q.recs {
			e += fmt.Sprintf("\n#%d [%s]: %v", j+1, k.shown(rc.name), rc.val)
		}
		if !strings.HasPrefix(s, fmt.Sprintf("[%sReger#%d: %s] ", k.name, i+1, q.name)) || !strings.HasSuffix(s, e) || strings.Count(s, "\n") != strings.Count(e, "\n") {
			return fmt.Errorf("%s: reger %d shows %.300q, expected the entries %.300q", k.name, i+1, s, e)
		}
		if !strings.Contains(all, s) {
			return fmt.Errorf("%s: reger %d is not shown", k.name, i+1)
		}
	}
	s := regk.ShowAll()
	if !strings.HasPrefix(s, fmt.Sprintf("[regable] locked:%v\n", w.locked)) || !strings.Contains(s, all) {
		return fmt.Errorf("%s: ShowAllRegs: %.200q", k.name, s)
	}
	return nil
}

var opNames = []string{"New", "Reg(first)", "RegO(last)", "MaxReg(first,1)", "MaxReg(last,2)", "Set(first)", "SetO(last)", "Reverse(first)", "ReverseO(last)", "FinishReg"}

func (w *world) op(k *kind, op, step int) error {
	l := w.regers[k]
	last := len(l) - 1
	name, val := []string{"n0", "", "%d] x"}[step%3], k.vals[step%len(k.vals)]
	if last < 0 && op >= 1 && op <= 4 {
		return nil
	}
	id := uint32(1<<24 | 1)
	if (op == 6 || op == 8) && last >= 0 {
		id = uint32(last+1)<<24 | uint32(len(l[last].recs))
	}
	switch op {
	case 0:
		return w.doNew(k, name, step%2 == 1)
	case 1:
		return w.doReg(k, 0, name, val, step%2)
	case 2:
		return w.doReg(k, last, name, val, 2+step%2)
	case 3:
		return w.doMax(k, 0, 1)
	case 4:
		return w.doMax(k, last, 2)
	case 5, 6:
		if k.set {
			return w.doSet(k, id, val, op == 6)
		}
	case 7, 8:
		if k.rev {
			return w.doReverse(k, id, op == 8)
		}
	case 9:
		regk.Finish()
		w.locked = true
	}
	return nil
}

// schedules: kind, bound, then threads; an operation is code + 6*object.
var codes = []string{"Get", "Set", "Reverse", "String", "GetNoErr", "Name"}

type ev struct {
	op, arg    int
	res        string
	begin, end int
}

func explore(c []int, deadline time.Time) *sched.Result {
	k, bound := kinds[c[0]], c[1]
	var th [][]int
	for p := c[2:]; len(p) > 0; {
		th = append(th, p[1:1+p[0]])
		p = p[1+p[0]:]
	}
	return sched.Explore(&sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		regk.Reset()
		w := &world{regers: map[*kind][]*mReger{}}
		w.doNew(k, "x", false)
		w.doReg(k, 0, "r", k.vals[0], 2)
		id := uint32(1<<24 | 1)
		acc := [2]any{k.impl.Id(id), w.access(k, id, true)}
		clock := 0
		res := make([][]*ev, len(th))
		return func(t int) {
				for i, o := range th[t] {
					sched.OpBegin()
					clock++
					e := &ev{op: o % 6, arg: 1 + (2*t+i)%(len(k.vals)-1), begin: clock}
					var args []any
					if e.op == 1 {
						args = []any{k.vals[e.arg]}
					}
					e.res = fmt.Sprint(call(acc[o/6], codes[e.op], args...)...)
					sched.OpBegin()
					clock++
					e.end = clock
					res[t] = append(res[t], e)
				}
			}, func() error {
				var all []*ev
				for _, r := range res {
					all = append(all, r...)
				}
				final := call(acc[0], "Get")[0]
				if !k.linearizable(all, final) {
					var s []string
					for t, r := range res {
						for _, e := range r {
							s = append(s, fmt.Sprintf("T%d:%s=%q[%d,%d]", t, codes[e.op], e.res, e.begin, e.end))
						}
					}
					return fmt.Errorf("not the results of any sequential order: %s; final %v", strings.Join(s, " "), final)
				}
				return nil
			}
	}}, bound, deadline)
}

func (k *kind) spec(e *ev, v *any) string {
	switch e.op {
	case 0:
		return fmt.Sprint(*v, nil)
	case 1:
		*v = k.vals[e.arg]
		return fmt.Sprint(*v, nil)
	case 2:
		*v = !(*v).(bool)
		return fmt.Sprint(*v, nil)
	case 3:
		return fmt.Sprintf("%s#(1|1|%s)%v", k.name, k.shown("r"), *v)
	case 4:
		return fmt.Sprint(*v)
	}
	return fmt.Sprint("r", nil)
}

func (k *kind) linearizable(evs []*ev, final any) bool {
	var try func(used int, v any) bool
	try = func(used int, v any) bool {
		if used == 1<<uint(len(evs))-1 {
			return v == final
		}
	next:
		for i, c := range evs {
			if used>>uint(i)&1 == 1 {
				continue
			}
			for j, d := range evs {
				if j != i && used>>uint(j)&1 == 0 && d.end < c.begin {
					continue next
				}
			}
			vv := v
			if k.spec(c, &vv) == c.res && try(used|1<<uint(i), vv) {
				return true
			}
		}
		return false
	}
	return try(0, k.vals[0])
}

func show(c mc.Case) string {
	s := fmt.Sprintf("%s, preemptions<=%d:", kinds[c[0]].name, c[1])
	for p := c[2:]; len(p) > 0; {
		s += " ["
		for _, o := range p[1 : 1+p[0]] {
			s += fmt.Sprintf(" %s(%s)", codes[o%6], map[bool]string{true: "object", false: "id"}[o >= 6])
		}
		s += " ]"
		p = p[1+p[0]:]
	}
	return s
}

// ops lists the concurrent operations a kind has.
func (k *kind) ops() (l []int) {
	for _, b := range []int{0, 6} {
		l = append(l, b, b+3, b+4)
		if k.set {
			l = append(l, b+1)
		}
		if k.rev {
			l = append(l, b+2)
		}
		if k.named {
			l = append(l, b+5)
		}
	}
	return
}

func main() {
	sched.Serve(explore)
	mc.Main("C42", func(r *mc.Run) {
		r.Enumerate(mc.Enum{Name: "kinds", Serial: true, Bounds: "the operations every kind of value has and has not", Gen: func(emit func(mc.Case)) {
			emit(mc.Case{-1})
			for i := range kinds {
				emit(mc.Case{i})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			if c[0] < 0 {
				if len(kinds) != 11 || len(regk.Kinds) < 11 {
					return fmt.Errorf("%d of the 11 kinds of values are declared", len(kinds))
				}
				return nil
			}
			k := kinds[c[0]]
			for _, o := range []any{k.impl.Id(0), call(k.impl.Id(0), "Oject")[0]} {
				if has(o, "Set") != k.set || has(o, "Reverse") != k.rev || has(o, "Name") != k.named {
					return fmt.Errorf("%s: Set %v, Reverse %v, Name %v", k.name, has(o, "Set"), has(o, "Reverse"), has(o, "Name"))
				}
				if g := reflect.ValueOf(o).MethodByName("Get").Type().Out(0).String(); g != strings.Replace(k.typ, "interface{}", "interface {}", 1) {
					return fmt.Errorf("%s: Get gives a %s", k.name, g)
				}
			}
			return nil
		}})
		n := r.Pick(4, 5)
		r.Enumerate(mc.Enum{Name: "histories", Serial: true, Bounds: fmt.Sprintf("every kind: New, then all sequences of %d of %d operations; all ids around the registered ones at the end", n, len(opNames)), Gen: func(emit func(mc.Case)) {
			for i := range kinds {
				mc.Strings(len(opNames), n, n, func(c mc.Case) { emit(append(mc.Case{i, 0}, c...)) })
			}
		}, Show: func(c mc.Case) string {
			s := kinds[c[0]].name + ":"
			for _, x := range c[1:] {
				s += " " + opNames[x]
			}
			return s
		}, Run: func(c mc.Case, t *mc.T) error {
			regk.Reset()
			w := &world{regers: map[*kind][]*mReger{}}
			for i, o := range c[1:] {
				if err := w.op(kinds[c[0]], o, i); err != nil {
					return err
				}
				t.Steps++
			}
			return w.check(kinds[c[0]], t)
		}})
		m := r.Pick(3, 4)
		r.Enumerate(mc.Enum{Name: "two kinds", Serial: true, Bounds: fmt.Sprintf("every pair of kinds, one reger each, all sequences of %d of 5 operations of either: no influence on each other", m), Gen: func(emit func(mc.Case)) {
			for i := range kinds {
				for j := range kinds {
					if i < j {
						mc.Strings(10, m, m, func(c mc.Case) { emit(append(mc.Case{i, j}, c...)) })
					}
				}
			}
		}, Show: func(c mc.Case) string {
			s := ""
			for _, x := range c[2:] {
				s += kinds[c[x%2]].name + "." + opNames[[]int{0, 1, 2, 5, 8}[x/2]] + " "
			}
			return s
		}, Run: func(c mc.Case, t *mc.T) error {
			regk.Reset()
			w := &world{regers: map[*kind][]*mReger{}}
			w.doNew(kinds[c[0]], "p", false)
			w.doNew(kinds[c[1]], "q", true)
			for i, x := range c[2:] {
				if err := w.op(kinds[c[x%2]], []int{0, 1, 2, 5, 8}[x/2], i); err != nil {
					return err
				}
				t.Steps++
			}
			if err := w.check(kinds[c[0]], t); err != nil {
				return err
			}
			return w.check(kinds[c[1]], t)
		}})
		r.Enumerate(mc.Enum{Name: "capacity", Serial: true, Bounds: "every kind: 255 regers and two too many, 1024 registrations and two too many in the first and the last", Gen: func(emit func(mc.Case)) {
			for i := range kinds {
				emit(mc.Case{i})
			}
		}, Run: func(c mc.Case, t *mc.T) error {
			regk.Reset()
			k := kinds[c[0]]
			w := &world{regers: map[*kind][]*mReger{}}
			for i := 0; i < 257; i++ {
				if err := w.doNew(k, fmt.Sprint("r", i), i%2 == 0); err != nil {
					return err
				}
			}
			for _, q := range []int{0, 254} {
				for i := 0; i < 1026; i++ {
					if err := w.doReg(k, q, fmt.Sprint("v", i), k.vals[i%4], i%4); err != nil {
						return err
					}
				}
			}
			return w.check(k, t)
		}})
		two, three := r.Pick(3, 5), r.Pick(2, 3)
		sched.Part(r, "2 threads", fmt.Sprintf("every kind: 2 threads of one operation (by id or object), or 2..3 changes and reads; preemption bound %d; linearizable, no data race, no deadlock", two), func(emit func(mc.Case)) {
			for i, k := range kinds {
				var progs []mc.Case
				for _, o := range k.ops() {
					progs = append(progs, mc.Case{1, o})
				}
				if k.set {
					progs = append(progs, mc.Case{2, 1, 0}, mc.Case{2, 6, 7})
				}
				if k.rev {
					progs = append(progs, mc.Case{2, 2, 8}, mc.Case{2, 1, 2}, mc.Case{2, 8, 0}, mc.Case{3, 2, 2, 0}, mc.Case{3, 2, 1, 8})
				}
				for a := range progs {
					for b := a; b < len(progs); b++ {
						emit(append(append(mc.Case{i, two}, progs[a]...), progs[b]...))
					}
				}
			}
		}, show)
		sched.Part(r, "3 threads", fmt.Sprintf("kinds with Set: 3 threads, one operation each; preemption bound %d", three), func(emit func(mc.Case)) {
			for i, k := range kinds {
				if !k.set {
					continue
				}
				l := k.ops()
				for a := range l {
					for b := a; b < len(l); b++ {
						for d := b; d < len(l); d++ {
							emit(mc.Case{i, three, 1, l[a], 1, l[b], 1, l[d]})
						}
					}
				}
			}
		}, show)
		r.Assume = append(r.Assume, "sequentially consistent execution; data races on fields of registered values and on package variables are reported")
	})
}
