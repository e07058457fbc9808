// C47: objects used by one goroutine each, and read-only uses of shared ones, do not
// interfere.  Every pair of scenarios of the catalogue runs in two goroutines that
// share nothing but the package (and the read-only inputs).  The binary is built with
// the race detector: when no two accesses of the pair conflict, all its interleavings
// are equivalent to the one that ran, and its results must be those of a run alone.
package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"

	"gxv/mc"
)

// scenario works on objects of its own (and on the shared inputs, which it only
// reads); dir is a directory of its own.
type scenario struct {
	name string
	f    func(w *w, dir string)
}

// w collects results.
type w struct {
	strings.Builder
	n  int    // steps taken
	at int    // before this step ...
	do func() // ... the other scenario runs
}

// p ends a step.
func (o *w) p(a ...interface{}) {
	if o.n++; o.do != nil && o.n == o.at {
		done := make(chan bool)
		go func() {
			defer close(done)
			o.do()
		}()
		<-done
	}
	s := fmt.Sprintln(a...)
	if len(s) > 200 {
		h := uint64(14695981039346656037)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		s = fmt.Sprintf("%d bytes %x\n", len(s), h)
	}
	o.WriteString(s)
}

func play(s scenario, dir string) string { return playO(s, dir, &w{}) }

func playO(s scenario, dir string, o *w) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = o.String() + fmt.Sprintf("PANIC %v", e)
		}
	}()
	s.f(o, dir)
	return o.String()
}

const dirPairs = 32

var scratch string
var raceLog string

func reports() string {
	b, _ := os.ReadFile(raceLog)
	return string(b)
}

// pair runs two scenarios n times each in two goroutines.
func pair(a, b scenario, n int) (ra, rb []string) {
	var ready int32
	run := func(s scenario, dir string, out *[]string, done chan bool) {
		defer close(done)
		atomic.AddInt32(&ready, 1)
		for i := 0; atomic.LoadInt32(&ready) < 2; i++ {
			if i > 100000 { // not enough processors
				runtime.Gosched()
			}
		}
		for i := 0; i < n; i++ {
			*out = append(*out, play(s, dir))
		}
	}
	d1, d2 := make(chan bool), make(chan bool)
	go run(a, scratch+"/a", &ra, d1)
	go run(b, scratch+"/b", &rb, d2)
	<-d1
	<-d2
	return
}

func main() {
	cwd, _ := os.Getwd()
	var err error
	if scratch, err = os.MkdirTemp(cwd, "scratch"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p := strings.TrimPrefix(f, "log_path="); p != f {
			raceLog = fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	mc.Main("C47", func(r *mc.Run) {
		defer os.RemoveAll(scratch)
		// the detector itself must work
		x := 0
		pair(scenario{f: func(*w, string) { x++ }}, scenario{f: func(*w, string) { x++ }}, 2)
		if raceLog == "" || !strings.Contains(reports(), "DATA RACE") {
			panic("the race detector reports nothing: GORACE=" + os.Getenv("GORACE"))
		}
		for _, d := range []string{"/a", "/b", "/s"} {
			makeDir(scratch + d)
		}
		dirs := make(chan int, dirPairs)
		for i := 0; i < dirPairs; i++ {
			makeDir(fmt.Sprint(scratch, "/d", 2*i))
			makeDir(fmt.Sprint(scratch, "/d", 2*i+1))
			dirs <- 2 * i
		}
		share(scratch + "/s")
		alone := make([]string, len(all))
		for i, s := range all {
			alone[i] = play(s, scratch+"/a")
		}
		r.Enumerate(mc.Enum{Name: "alone", Bounds: fmt.Sprintf("each of %d scenarios three times in sequence: the same results each time", len(all)), Serial: true,
			Gen:  func(emit func(mc.Case)) { mc.Product(emit, len(all)) },
			Show: func(c mc.Case) string { return all[c[0]].name },
			Run: func(c mc.Case, t *mc.T) error {
				for i := 0; i < 3; i++ {
					t.Steps++
					if g := play(all[c[0]], scratch+"/b"); g != alone[c[0]] {
						return fmt.Errorf("%s: the run gives\n%s\nthe first gave\n%s", all[c[0]].name, g, alone[c[0]])
					}
				}
				return nil
			}})
		n := r.Pick(3, 20)
		r.Enumerate(mc.Enum{Name: "pairs", Bounds: fmt.Sprintf("all pairs of %d scenarios (every package; own objects, shared read-only inputs) in two goroutines, %d rounds: no conflicting accesses, the results of a run alone", len(all), n), Serial: true,
			Gen: func(emit func(mc.Case)) {
				for i := range all {
					for j := i; j < len(all); j++ {
						emit(mc.Case{i, j})
					}
				}
			},
			Show: func(c mc.Case) string { return all[c[0]].name + " || " + all[c[1]].name },
			Run: func(c mc.Case, t *mc.T) error {
				before := len(reports())
				ra, rb := pair(all[c[0]], all[c[1]], n)
				t.Steps += int64(2 * n)
				if l := reports(); len(l) > before {
					l = l[before:]
					if len(l) > 1500 {
						l = l[:1500]
					}
					return fmt.Errorf("conflicting accesses:\n%s", l)
				}
				for k, l := range [][]string{ra, rb} {
					for _, g := range l {
						if g != alone[c[k]] {
							return fmt.Errorf("%s gives\n%s\nalone it gives\n%s", all[c[k]].name, g, alone[c[k]])
						}
					}
				}
				return nil
			}})
		steps := make([]int, len(all))
		for i, s := range all {
			o := &w{}
			playO(s, scratch+"/a", o)
			steps[i] = o.n
		}
		r.Enumerate(mc.Enum{Name: "switches", Bounds: fmt.Sprintf("every ordered pair of %d scenarios, one running as a whole between any two steps of the other (%d steps in all): the results of a run alone", len(all), sum(steps)),
			Gen: func(emit func(mc.Case)) {
				for i := range all {
					for j := range all {
						for k := 1; k <= steps[i]; k++ {
							if n := all[j].name; !r.Thorough() && k%6 != 1 && (strings.Contains(n, "rsa") || strings.Contains(n, "keys") || strings.Contains(n, "listings") || strings.Contains(n, "content")) {
								continue // the slow ones
							}
							emit(mc.Case{i, j, k})
						}
					}
				}
			},
			Show: func(c mc.Case) string {
				return fmt.Sprintf("%s, %s before its step %d", all[c[0]].name, all[c[1]].name, c[2])
			},
			Run: func(c mc.Case, t *mc.T) error {
				var b string
				d := <-dirs
				defer func() { dirs <- d }()
				o := &w{at: c[2], do: func() { b = play(all[c[1]], fmt.Sprint(scratch, "/d", d+1)) }}
				a := playO(all[c[0]], fmt.Sprint(scratch, "/d", d), o)
				t.Steps += 2
				for k, g := range []string{a, b} {
					if g != alone[c[k]] {
						return fmt.Errorf("%s gives\n%s\nalone it gives\n%s", all[c[k]].name, g, alone[c[k]])
					}
				}
				return nil
			}})
		r.Assume = append(r.Assume, "a pair without conflicting accesses (vector clocks of Go's race detector) has one equivalence class of interleavings")
	})
}

func sum(l []int) (n int) {
	for _, x := range l {
		n += x
	}
	return
}
