package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/vipally/gx/debug"
	"gxv/mc"
)

type frame struct {
	fn, file string
	line     int
}

// stackHere is the oracle: the frames of its caller, innermost first.
//
//go:noinline
func stackHere() []frame {
	pcs := make([]uintptr, 4000)
	n := runtime.Callers(2, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	var l []frame
	for more := n > 0; more; {
		var f runtime.Frame
		f, more = fs.Next()
		l = append(l, frame{f.Function, f.File, f.Line})
	}
	return l
}

// script drives one chain: the kinds of the frames still to be entered.
type script struct {
	c    []int
	leaf int
	arg  int
	err  error
	want []frame
	got  interface{}
}

type ifc interface{ call(s *script) }
type obj struct{ x int }
type val struct{ x, y int }
type outer struct{ obj }

// ---- frame kinds -----------------------------------------------------------

//go:noinline
func plain(s *script) {
	s.next()
}

func small(s *script) { s.next() }

func (o *obj) call(s *script) {
	s.next()
	o.x++
}

//go:noinline
func (v val) call(s *script) {
	if v.x == 0 {
		s.next()
	}
}

func generic[T any](s *script, v T) (r T) {
	r = v
	s.next()
	return
}

func closure(s *script) {
	f := func() {
		s.next()
	}
	f()
}

func deferred(s *script) {
	defer s.next()
	s.arg += 0
}

func panicking(s *script) {
	defer func() {
		recover()
	}()
	defer func() {
		s.next()
	}()
	panic("x")
}

func goroutine(s *script) {
	ch := make(chan int)
	go func() {
		s.next()
		ch <- 1
	}()
	<-ch
}

func lines(s *script) int {
	return add(
		1,
		s.value(),
		2,
	)
}

func inExpr(s *script) bool {
	x := s.value() + 1; y := x * 2
	return y > 0 && s != nil
}

func tail(s *script) int {
	return s.value()
}

func loop(s *script) {
	for i := 0; i < 1; i++ {
		s.next()
	}
}

//line /gxv/generated/other_name.go:12345
func relocated(s *script) {
	s.next()
}

//line main.go:9000
func add(a ...int) (r int) {
	for _, x := range a {
		r += x
	}
	return
}

func (s *script) value() int {
	s.next()
	return 1
}

var kinds = []string{"plain", "inlinable", "pointer method via interface", "value method via interface", "promoted method via interface", "generic", "closure", "deferred", "deferred during panic", "goroutine", "multi-line call", "expression", "tail call", "loop", "line directive", "method value"}

func (s *script) next() {
	if len(s.c) == 0 {
		s.end()
		return
	}
	k := s.c[0]
	s.c = s.c[1:]
	switch k {
	case 0:
		plain(s)
	case 1:
		small(s)
	case 2:
		ifc(&obj{}).call(s)
	case 3:
		ifc(val{}).call(s)
	case 4:
		ifc(&outer{}).call(s)
	case 5:
		generic(s, "x")
	case 6:
		closure(s)
	case 7:
		deferred(s)
	case 8:
		panicking(s)
	case 9:
		goroutine(s)
	case 10:
		lines(s)
	case 11:
		inExpr(s)
	case 12:
		tail(s)
	case 13:
		loop(s)
	case 14:
		relocated(s)
	case 15:
		f := (&obj{}).call
		f(s)
	}
}

var leaves = []string{"Bt", "BtFunc", "BtFileLine", "Caller", "CallerFunc", "CallerFileLine", "Bts", "CallStackList", "Assert(true)", "Assert(false)"}

func put(s *script, want []frame, got interface{}) { s.want, s.got = want, got }

func caught(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func (s *script) end() {
	// the oracle and the code under test are called on one line of one function
	switch s.leaf {
	case 0:
		put(s, stackHere(), debug.Bt())
	case 1:
		put(s, stackHere(), debug.BtFunc())
	case 2:
		put(s, stackHere(), debug.BtFileLine())
	case 3:
		put(s, stackHere(), debug.Caller(s.arg))
	case 4:
		put(s, stackHere(), debug.CallerFunc(s.arg))
	case 5:
		put(s, stackHere(), debug.CallerFileLine(s.arg))
	case 6:
		put(s, stackHere(), debug.Bts())
	case 7:
		put(s, stackHere(), debug.CallStackList(2+s.arg))
	case 8:
		put(s, stackHere(), debug.Assert(true))
	case 9:
		s.got = caught(func() { s.want = stackHere(); debug.Assert(false) })
	}
}

var reFunc = regexp.MustCompile(`Func\{([^}]*)\}`)
var reLine = regexp.MustCompile(`(?:FileLine|File)\{([^}]*) : (\d+)\}`)

func one(s string, w frame, fn, fl bool) error {
	if m := reFunc.FindStringSubmatch(s); fn {
		if m == nil || m[1] != w.fn {
			return fmt.Errorf("%q does not name the function %s", s, w.fn)
		}
	}
	if m := reLine.FindStringSubmatch(s); fl {
		if m == nil || m[1] != w.file || m[2] != strconv.Itoa(w.line) {
			return fmt.Errorf("%q does not name %s : %d (%s)", s, w.file, w.line, w.fn)
		}
	}
	return nil
}

func list(l []string, want []frame) error {
	n := len(want)
	if n > 50 {
		n = 50
	}
	if len(l) != n {
		return fmt.Errorf("%d frames listed, want %d (of %d)", len(l), n, len(want))
	}
	for i, s := range l {
		if err := one(s, want[i], true, true); err != nil {
			return fmt.Errorf("frame %d: %v", i, err)
		}
	}
	return nil
}

func split(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func run(chain []int, leaf, arg int) error {
	s := &script{c: chain, leaf: leaf, arg: arg}
	s.next()
	w := s.want
	str, _ := s.got.(string)
	pick := func(i int, fn, fl bool) error {
		if i >= len(w) {
			if str != "" {
				return fmt.Errorf("%q beyond the outermost frame (%d levels, %d frames)", str, i, len(w))
			}
			return nil
		}
		return one(str, w[i], fn, fl)
	}
	switch leaf {
	case 0:
		return pick(0, true, true)
	case 1:
		return pick(0, true, false)
	case 2:
		return pick(0, false, true)
	case 3:
		return pick(1+arg, true, true)
	case 4:
		return pick(1+arg, true, false)
	case 5:
		return pick(1+arg, false, true)
	case 6:
		l := split(str)
		if err := list(l, w); err != nil {
			return err
		}
		for i, x := range l {
			if !strings.HasPrefix(x, fmt.Sprintf("#%d ", i)) {
				return fmt.Errorf("frame %d is numbered %q", i, x)
			}
		}
	case 7:
		l, _ := s.got.([]string)
		if arg >= len(w) {
			w = nil
		} else {
			w = w[arg:]
		}
		return list(l, w)
	case 8:
		if s.got != true {
			return fmt.Errorf("Assert(true)=%v", s.got)
		}
	case 9:
		if s.got == nil {
			return fmt.Errorf("Assert(false) did not panic")
		}
		text := fmt.Sprint(s.got)
		// the caller's frames must appear in order, innermost first
		var l []string
		for _, x := range split(text) {
			if reFunc.MatchString(x) {
				l = append(l, x)
			}
		}
		for len(l) > 0 && one(l[0], w[0], true, true) != nil {
			if len(l) == 0 || !strings.Contains(l[0], "gx/debug.") {
				return fmt.Errorf("panic text %q does not start with the caller %v", text, w[0])
			}
			l = l[1:]
		}
		if len(l) == 0 {
			return fmt.Errorf("panic text %q does not name the caller %v", text, w[0])
		}
		for i := range l {
			if i >= len(w) {
				return fmt.Errorf("too many frames in the panic text")
			}
			if err := one(l[i], w[i], true, true); err != nil {
				return fmt.Errorf("panic text frame %d: %v", i, err)
			}
		}
		if len(l) < len(w) && len(l) < 45 {
			return fmt.Errorf("panic text names %d of %d frames", len(l), len(w))
		}
	}
	return nil
}

func main() {
	mc.Main("C27", func(r *mc.Run) {
		r.Assume = append(r.Assume, "runtime.Callers with CallersFrames is the truth about the call chain")
		show := func(c mc.Case) string {
			s := leaves[c[0]] + fmt.Sprintf("(%d) through:", c[1])
			for _, k := range c[2:] {
				s += " " + kinds[k] + ","
			}
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			return s
		}
		depth := r.Pick(3, 4)
		r.Enumerate(mc.Enum{Name: "chains", Bounds: fmt.Sprintf("every call chain of up to %d frames over %d kinds of calls, every function of the package, levels 0..4 for the Caller variants", depth, len(kinds)), Show: show,
			Gen: func(emit func(mc.Case)) {
				mc.Strings(len(kinds), 0, depth, func(c mc.Case) {
					for l := range leaves {
						n := 1
						if l >= 3 && l <= 5 || l == 7 {
							n = 5
						}
						for a := 0; a < n; a++ {
							emit(append(mc.Case{l, a}, c...))
						}
					}
				})
			},
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps++
				return run(c[2:], c[0], c[1])
			}})
		r.Enumerate(mc.Enum{Name: "deep chains", Bounds: "chains of 0..70 and up to 500 frames of each kind (also alternating with inlinable ones), every function; levels 0..160 beyond the outermost frame", Show: show,
			Gen: func(emit func(mc.Case)) {
				for k := range kinds {
					for alt := 0; alt < 2; alt++ {
						var ns []int
						for n := 0; n <= r.Pick(40, 70); n++ {
							ns = append(ns, n)
						}
						for _, n := range append(ns, 99, 100, 101, 127, 128, 129, 256, 500) {
							c := mc.Case{0, 0}
							for i := 0; i < n; i++ {
								if alt == 1 && i%2 == 1 {
									c = append(c, 1)
								} else {
									c = append(c, k)
								}
							}
							for l := range leaves {
								c[0] = l
								args := []int{0}
								if l >= 3 && l <= 5 || l == 7 {
									args = []int{0, 1, n, 2 * n, 2*n + 1, 2*n + 2, 2*n + 3, 2*n + 4, 2*n + 5, 2*n + 6, 2*n + 7, 2*n + 8, 3*n + 9, 160, 1000}
								}
								for _, a := range args {
									c[1] = a
									emit(c)
								}
							}
						}
					}
				}
			},
			Run: func(c mc.Case, t *mc.T) error {
				t.Steps++
				return run(c[2:], c[0], c[1])
			}})
	})
}
