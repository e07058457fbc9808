// C33: registered error ids.
package main

import (
	stderr "errors"
	"fmt"
	"strings"
	"time"

	gerr "github.com/vipally/gx/errors"
	serr "gxs/errors"
	"gxv/mc"
	"gxv/sched"
)

const first, last = 1001, 9999

// api hides the unexported id type of either copy of the package.
type api struct {
	reg     func(name string) (uint32, error)
	get     func(id uint32) (string, error)
	str     func(id uint32) string
	newE    func(id uint32) (error, uint32)
	newf    func(id uint32, f string, a ...interface{}) (error, uint32)
	std     func(e error) (error, uint32)
	show    func() string
	errorf  func(f string, a ...interface{}) error
	unknown uint32
	stdID   func() uint32
}

type idT interface {
	~uint32
	Get() (string, error)
	String() string
}

type errT[I idT] interface {
	error
	Id() I
}

func wrap[I idT, E errT[I]](unknown I, stdID func() I, reg func(string) (I, error), newE func(I) E, newf func(I, string, ...interface{}) E, std func(error) E, show func() string, errorf func(string, ...interface{}) error) api {
	return api{
		reg:  func(n string) (uint32, error) { i, e := reg(n); return uint32(i), e },
		get:  func(i uint32) (string, error) { return I(i).Get() },
		str:  func(i uint32) string { return I(i).String() },
		newE: func(i uint32) (error, uint32) { e := newE(I(i)); return e, uint32(e.Id()) },
		newf: func(i uint32, f string, a ...interface{}) (error, uint32) {
			e := newf(I(i), f, a...)
			return e, uint32(e.Id())
		},
		std:     func(e error) (error, uint32) { r := std(e); return r, uint32(r.Id()) },
		show:    show,
		errorf:  errorf,
		unknown: uint32(unknown),
		stdID:   func() uint32 { return uint32(stdID()) },
	}
}

var gid, sid = gerr.ERRID_UNKNOWN, serr.ERRID_UNKNOWN

var real = wrap(gid, getter(&gerr.ERRID_STD), gerr.Reg, gerr.New, gerr.Newf, gerr.StdErr, gerr.ShowAll, gerr.NewError)

var copied = wrap(sid, getter(&serr.ERRID_STD), serr.Reg, serr.New, serr.Newf, serr.StdErr, serr.ShowAll, serr.NewError)

func getter[T any](p *T) func() T { return func() T { return *p } }

// model
type model struct{ names []string }

func fresh() *model { return &model{[]string{"unknown error", "standard error"}} }

func (m *model) reg(n string) (uint32, bool) {
	if first+len(m.names)-1 >= last {
		return 0, false
	}
	m.names = append(m.names, n)
	return uint32(first + len(m.names) - 1), true
}
func (m *model) get(id uint32) (string, bool) {
	if id < first || id >= first+uint32(len(m.names)) {
		return "", false
	}
	return m.names[id-first], true
}
func (m *model) show() string {
	s := fmt.Sprintf("[errors] Count:%d", len(m.names))
	for i, n := range m.names {
		s += fmt.Sprintf("\nerror#%d (%s)", first+i, n)
	}
	return s
}

func (m *model) text(id uint32) string {
	n, ok := m.get(id)
	if !ok {
		return fmt.Sprintf("invalid error id:%d", id)
	}
	return fmt.Sprintf("error#%d (%s)", id, n)
}

// one id against the model
func (m *model) check(a *api, id uint32) error {
	n, e := a.get(id)
	w, ok := m.get(id)
	if (e == nil) != ok || n != w {
		return fmt.Errorf("Get of %d: %q, %v; expected %q, valid %v", id, n, e, w, ok)
	}
	if s := a.str(id); s != m.text(id) {
		return fmt.Errorf("String of %d: %q, expected %q", id, s, m.text(id))
	}
	er, i := a.newE(id)
	if er.Error() != m.text(id) || i != id {
		return fmt.Errorf("New(%d): %q id %d, expected %q", id, er, i, m.text(id))
	}
	er, i = a.newf(id, "x%dy%s", 7, "z%")
	want := m.text(id)
	if ok {
		want += ": x7yz%"
	}
	if er.Error() != want || i != id {
		return fmt.Errorf("Newf(%d): %q id %d, expected %q", id, er, i, want)
	}
	return nil
}

var edge = []uint32{0, 1, 2, 999, 1000, 1001, 1002, 1003, 9998, 9999, 10000, 10001, 1<<16 - 1, 1 << 16, 1<<16 + 1001, 1<<31 - 1, 1 << 31, 1<<31 + 1001, 1<<32 - 1, 1<<32 - 1000}

func (m *model) checkAll(a *api, t *mc.T, whole bool) error {
	for _, id := range edge {
		if err := m.check(a, id); err != nil {
			return err
		}
		t.Steps += 4
	}
	for i := range m.names {
		if whole || i < 20 || i > len(m.names)-20 {
			if err := m.check(a, uint32(first+i)); err != nil {
				return err
			}
			t.Steps += 4
		}
	}
	for i := 0; i < 20; i++ {
		if err := m.check(a, uint32(first+len(m.names)+i)); err != nil {
			return err
		}
	}
	if s := a.show(); s != m.show() {
		return fmt.Errorf("ShowAll: %.300q, expected %.300q", s, m.show())
	}
	if a.unknown != first || a.stdID() != first+1 {
		return fmt.Errorf("ERRID_UNKNOWN %d, ERRID_STD %d", a.unknown, a.stdID())
	}
	return nil
}

var names = []string{"", "a", "%d%s%!", "two words\nline", "unknown error", "\x00\xff", "错误"}

func (m *model) doReg(a *api, n string) error {
	id, e := a.reg(n)
	w, ok := m.reg(n)
	if (e == nil) != ok {
		return fmt.Errorf("Reg(%q) number %d: error %v, expected success %v", n, len(m.names), e, ok)
	}
	if ok && id != w {
		return fmt.Errorf("Reg(%q): id %d, expected %d", n, id, w)
	}
	if !ok {
		if _, e := a.get(id); e == nil {
			return fmt.Errorf("failed Reg gives the valid id %d", id)
		}
	}
	return nil
}

// concurrent part: kinds 0 Reg, 1 Get, 2 ShowAll, 3 New().Error()
var opsList = []struct {
	n    string
	kind int
	arg  uint32
}{
	{"Reg", 0, 0},
	{"Get(1003)", 1, 1003},
	{"ShowAll", 2, 0},
	{"New(1004).Error", 3, 1004},
	{"Get(1005)", 1, 1005},
}

type call struct {
	op         int
	name       string
	res        string
	begin, end int
}

func (m *model) apply(c *call) string {
	o := opsList[c.op]
	switch o.kind {
	case 0:
		id, ok := m.reg(c.name)
		return fmt.Sprint(id, ok)
	case 1:
		s, ok := m.get(o.arg)
		return fmt.Sprint(s, ok)
	case 2:
		return m.show()
	}
	return m.text(o.arg)
}

func run(a *api, c *call) string {
	o := opsList[c.op]
	switch o.kind {
	case 0:
		id, e := a.reg(c.name)
		return fmt.Sprint(id, e == nil)
	case 1:
		s, e := a.get(o.arg)
		return fmt.Sprint(s, e == nil)
	case 2:
		return a.show()
	}
	e, _ := a.newE(o.arg)
	return e.Error()
}

func linearizable(calls []*call, final string) bool {
	n := len(calls)
	var try func(used int, m model) bool
	try = func(used int, m model) bool {
		if used == 1<<uint(n)-1 {
			return m.show() == final
		}
	next:
		for i, c := range calls {
			if used>>uint(i)&1 == 1 {
				continue
			}
			for j, d := range calls {
				if j != i && used>>uint(j)&1 == 0 && d.end < c.begin {
					continue next
				}
			}
			mm := model{append([]string(nil), m.names...)}
			if mm.apply(c) == c.res && try(used|1<<uint(i), mm) {
				return true
			}
		}
		return false
	}
	return try(0, *fresh())
}

func explore(c []int, deadline time.Time) *sched.Result {
	bound := c[0]
	var th [][]int
	for p := c[1:]; len(p) > 0; {
		th = append(th, p[1:1+p[0]])
		p = p[1+p[0]:]
	}
	return sched.Explore(&sched.Prog{Threads: len(th), New: func() (func(int), func() error) {
		serr.GxvReset()
		clock := 0
		res := make([][]*call, len(th))
		return func(t int) {
				for i, o := range th[t] {
					sched.OpBegin()
					clock++
					k := &call{op: o, name: fmt.Sprintf("n%d%d", t, i), begin: clock}
					k.res = run(&copied, k)
					sched.OpBegin()
					clock++
					k.end = clock
					res[t] = append(res[t], k)
				}
			}, func() error {
				var all []*call
				for _, r := range res {
					all = append(all, r...)
				}
				if !linearizable(all, copied.show()) {
					var s []string
					for t, r := range res {
						for _, k := range r {
							s = append(s, fmt.Sprintf("T%d:%s=%q[%d,%d]", t, opsList[k.op].n, k.res, k.begin, k.end))
						}
					}
					return fmt.Errorf("not the results of any sequential order: %s; final %q", strings.Join(s, " "), copied.show())
				}
				return nil
			}
	}}, bound, deadline)
}

func show(c mc.Case) string {
	s := fmt.Sprintf("preemptions<=%d:", c[0])
	for p := c[1:]; len(p) > 0; {
		s += " ["
		for _, o := range p[1 : 1+p[0]] {
			s += " " + opsList[o].n
		}
		s += " ]"
		p = p[1+p[0]:]
	}
	return s
}

func main() {
	sched.Serve(explore)
	mc.Main("C33", func(r *mc.Run) {
		maxL := r.Pick(5, 6)
		r.Enumerate(mc.Enum{Name: "histories", Serial: true, Bounds: fmt.Sprintf("all sequences of up to %d registrations over %d names (empty, repeated, format verbs, control bytes), every id checked after each", maxL, len(names)), Gen: func(emit func(mc.Case)) {
			mc.Strings(len(names), maxL, maxL, emit)
		}, Show: func(c mc.Case) string {
			var s []string
			for _, x := range c {
				s = append(s, fmt.Sprintf("Reg(%q)", names[x]))
			}
			return strings.Join(s, " ")
		}, Run: func(c mc.Case, t *mc.T) error {
			serr.GxvReset()
			m := fresh()
			for k := 0; k <= len(c); k++ {
				// longer histories have the shorter ones as prefixes: check those once
				rest := 0
				for _, x := range c[k:] {
					rest += x
				}
				if rest == 0 {
					if err := m.checkAll(&copied, t, true); err != nil {
						return fmt.Errorf("after %d: %v", k, err)
					}
				}
				if k < len(c) {
					if err := m.doReg(&copied, names[c[k]]); err != nil {
						return err
					}
					t.Steps++
				}
			}
			return nil
		}})
		r.Enumerate(mc.Enum{Name: "exhaustion", Serial: true, Bounds: "registering until the id range 1001..9999 is used up and 6 times more; observers after every registration, all 8999 ids at the end; on the package itself (not the instrumented copy)", Gen: func(emit func(mc.Case)) {
			emit(mc.Case{0})
		}, Run: func(c mc.Case, t *mc.T) error {
			m := fresh()
			a := &real
			if err := m.checkAll(a, t, true); err != nil {
				return fmt.Errorf("at start: %v", err)
			}
			for k := 0; k < 9004; k++ {
				n := names[k%len(names)] + fmt.Sprint(k/3)
				if err := m.doReg(a, n); err != nil {
					return err
				}
				t.Steps++
				for _, d := range []int{-2, -1, 0, 1} {
					if err := m.check(a, uint32(first+len(m.names)+d)); err != nil {
						return fmt.Errorf("after %d registrations: %v", k+1, err)
					}
				}
				if k&(k+1) == 0 {
					if err := m.checkAll(a, t, true); err != nil {
						return fmt.Errorf("after %d registrations: %v", k+1, err)
					}
				}
			}
			return m.checkAll(a, t, true)
		}})
		texts := []string{"a", "%", "d", "s", "v", "!", "\n", "%%", "é", "\xff"}
		r.Enumerate(mc.Enum{Name: "texts", Serial: true, Bounds: "StdErr and Newf(\"%s\") of every text of up to 4 of 10 tokens (format verbs, line feed, invalid UTF-8); formats with operands", Gen: func(emit func(mc.Case)) {
			mc.Strings(len(texts), 0, 4, emit)
		}, Show: func(c mc.Case) string {
			s := ""
			for _, x := range c {
				s += texts[x]
			}
			return fmt.Sprintf("%q", s)
		}, Run: func(c mc.Case, t *mc.T) error {
			s := ""
			for _, x := range c {
				s += texts[x]
			}
			serr.GxvReset()
			a := &copied
			e, id := a.std(stderr.New(s))
			if w := "error#1002 (standard error): " + s; e.Error() != w || id != 1002 {
				return fmt.Errorf("StdErr: %q id %d, expected %q", e, id, w)
			}
			e, id = a.newf(1001, "%s", s)
			if w := "error#1001 (unknown error): " + s; e.Error() != w || id != 1001 {
				return fmt.Errorf("Newf: %q id %d, expected %q", e, id, w)
			}
			e, _ = a.newf(1002, s, 5, "q")
			if w := "error#1002 (standard error): " + fmt.Sprintf(s, 5, "q"); e.Error() != w {
				return fmt.Errorf("Newf as format: %q, expected %q", e, w)
			}
			if e, w := a.errorf(s, 5, "q"), fmt.Sprintf(s, 5, "q"); e == nil || e.Error() != w {
				return fmt.Errorf("NewError: %q, expected %q", e, w)
			}
			// a registered name is text, too
			id, err := a.reg(s)
			if w := fmt.Sprintf("error#%d (", id) + s + ")"; err != nil || a.str(id) != w {
				return fmt.Errorf("registered name: %q, expected %q", a.str(id), w)
			}
			t.Steps += 6
			return nil
		}})
		var one []mc.Case
		for n := 1; n <= 2; n++ {
			mc.Strings(len(opsList), n, n, func(c mc.Case) { one = append(one, append(mc.Case{n}, c...)) })
		}
		two, three := r.Pick(3, 5), r.Pick(2, 3)
		sched.Part(r, "2 threads", fmt.Sprintf("2 threads, every program of 1..2 of {Reg, Get, ShowAll, New.Error}; preemption bound %d; linearizable, no data race on package variables, no deadlock", two), func(emit func(mc.Case)) {
			for i := range one {
				for j := i; j < len(one); j++ {
					emit(append(append(mc.Case{two}, one[i]...), one[j]...))
				}
			}
		}, show)
		sched.Part(r, "3 threads", fmt.Sprintf("3 threads, one operation each or two Reg; preemption bound %d", three), func(emit func(mc.Case)) {
			var small []mc.Case
			for _, c := range one {
				if c[0] == 1 || c[1] == 0 && c[2] == 0 {
					small = append(small, c)
				}
			}
			for i := range small {
				for j := i; j < len(small); j++ {
					for k := j; k < len(small); k++ {
						emit(append(append(append(mc.Case{three}, small[i]...), small[j]...), small[k]...))
					}
				}
			}
		}, show)
		r.Assume = append(r.Assume, "sequentially consistent execution; data races on package variables are reported")
	})
}
