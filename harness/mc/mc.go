// Package mc is a small explicit-state model checker that runs real Go objects in
// lockstep with a reference model.
package mc

import (
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Op is one operation of a history.
type Op struct {
	N string
	A []int
}

func O(n string, a ...int) Op { return Op{n, a} }

func (o Op) String() string {
	s := make([]string, len(o.A))
	for i, x := range o.A {
		s[i] = fmt.Sprint(x)
	}
	return o.N + "(" + strings.Join(s, ",") + ")"
}

// Inst is an implementation object paired with its reference model.
type Inst interface {
	Ops() []Op      // operations enabled in the current model state
	Do(op Op) error // run op on both; error = they disagree
	Check() error   // compare all non-destructive observers
	Drain() error   // destructive comparison of the remaining contents
	Key(d *Dump)    // canonical state
}

// Sys is a transition system to explore.
type Sys struct {
	Name     string
	New      func() Inst
	MaxDepth int // 0: until closure
	Bounds   string
}

// Case is one input of an enumeration, coded as integers.
type Case []int

// T collects per-case counters.
type T struct {
	Steps  int64 // calls into the implementation
	Traces int64 // executions, where one case stands for many (0: one per case)
	States int64
	Capped bool // a case was cut off at its time limit
	Note   string
}

// Enum is an exhaustive enumeration of cases.
type Enum struct {
	Name   string
	Gen    func(emit func(c Case))
	Run    func(c Case, t *T) error
	Show   func(c Case) string
	Bounds string
	Serial bool // run on one worker
	Small  bool // few, long cases: hand them out one by one
	Engine string
	Slack  time.Duration // added to the hang limit
}

// Large are lengths around powers of two and ten, for the parts with a few long cases.
var Large = []int{400, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000}

// Huge go on from Large.
var Huge = []int{8191, 8192, 8193, 10000, 16385, 32769, 65535, 65536, 65537, 100000}

// Texts are byte lengths for the parts with long texts.
var Texts = append(append(append([]int{}, Large...), Huge...), 99999, 131071, 131072, 131073, 200000, 262143, 262144, 262145, 500000, 524287, 524288, 524289, 1000000, 1048575, 1048576, 1048577)

// Violation describes one failing execution.
type Violation struct {
	Part string
	Kind string
	Path []Op   `json:",omitempty"`
	Case Case   `json:",omitempty"`
	Aux  string `json:",omitempty"`
	Show string
	Msg  string
}

// Part is the coverage of one exploration.
type Part struct {
	Name        string
	Engine      string
	Bounds      string
	States      int64
	Transitions int64
	Traces      int64
	Depth       int
	Exhaustive  bool
	Seconds     float64
	Extra       map[string]int64 `json:",omitempty"`
}

// Run is one run of a harness.
type Run struct {
	ID       string
	Tier     string
	Seed     int
	Workers  int
	Deadline time.Time
	Parts    []*Part
	Samples  []string
	Viol     []*Violation
	Assume   []string
	replay   *Violation
	replayed bool
	only     string
	trace    *os.File
	mu       sync.Mutex
	out      string
	slots    []slot
	tick     atomic.Int64 // the watchdog's clock, read instead of the time between cases
	smax     map[string]int
}

type slot struct {
	since atomic.Int64
	cur   atomic.Pointer[Violation]
	at    atomic.Uint64 // Range: the integer being tried
	_     [5]int64
}

const hangLimit = 100 * time.Second

var (
	flagOut     = flag.String("out", "", "report file")
	flagReplay  = flag.String("replay", "", "replay a violation file")
	flagWorkers = flag.Int("workers", 0, "workers")
	flagTrace   = flag.String("trace", "", "journal every execution here before running it (single worker)")
	flagBudget  = flag.Int("budget", 0, "seconds")
	flagOnly    = flag.String("only", "", "only parts whose name contains this")
)

// Thorough tells the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Main runs a harness.
func Main(id string, body func(r *Run)) {
	flag.Parse()
	debug.SetGCPercent(200)
	r := &Run{ID: id, Tier: os.Getenv("VERIF_TIER"), Workers: *flagWorkers, out: *flagOut, only: *flagOnly, smax: map[string]int{}}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	if r.Workers == 0 {
		r.Workers = runtime.NumCPU()
	}
	budget := *flagBudget
	if budget == 0 {
		budget = r.Pick(300, 3000)
	}
	r.Deadline = time.Now().Add(time.Duration(budget) * time.Second)
	if *flagTrace != "" {
		r.Workers = 1
		r.trace, _ = os.Create(*flagTrace)
	}
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err == nil {
			r.replay = &Violation{}
			err = json.Unmarshal(b, r.replay)
		}
		if err != nil {
			fmt.Println("replay:", err)
			os.Exit(2)
		}
	}
	r.slots = make([]slot, r.Workers+1)
	go r.watch()
	body(r)
	r.finish()
}

func (r *Run) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.replay != nil {
		if len(r.Viol) > 0 {
			fmt.Println("REPRODUCED", r.Viol[0].Msg)
			os.Exit(1)
		}
		if !r.replayed {
			fmt.Println("NOT REPLAYABLE: no part", r.replay.Part)
			os.Exit(2)
		}
		fmt.Println("NOT REPRODUCED")
		os.Exit(0)
	}
	rep := map[string]interface{}{"ID": r.ID, "Parts": r.Parts, "Samples": r.Samples, "Violations": r.Viol, "Assumptions": r.Assume}
	b, _ := json.MarshalIndent(rep, "", " ")
	if r.out != "" {
		os.WriteFile(r.out, b, 0644)
	} else {
		fmt.Println(string(b))
	}
	if len(r.Viol) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// watch reports an execution that does not end: when one exceeds the limit, every
// execution in flight for more than half of it is a candidate, longest first; the
// replays decide which of them really do not end.
func (r *Run) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		r.tick.Store(now)
		over := false
		var age []int64
		var cand []*Violation
		for i := range r.slots {
			s := r.slots[i].since.Load()
			v := r.slots[i].cur.Load()
			if s == 0 || v == nil || now-s < int64(hangLimit/2) {
				continue
			}
			over = over || now-s > int64(hangLimit)
			c := *v
			if c.Kind == "range" {
				c.Case = Case{int(r.slots[i].at.Load())}
				c.Show = fmt.Sprint(c.Case[0])
			}
			if c.Show == "" {
				c.Show = showPath(c.Path)
				if c.Case != nil {
					c.Show = fmt.Sprint([]int(c.Case))
				}
			}
			c.Kind, c.Msg = "hang", "execution does not terminate"
			age, cand = append(age, s), append(cand, &c)
		}
		if !over {
			continue
		}
		sort.SliceStable(cand, func(a, b int) bool { return age[a] < age[b] })
		r.mu.Lock()
		r.Viol = append(r.Viol, cand...)
		for _, p := range r.Parts { // the part in progress is not finished
			if p.Seconds == 0 {
				p.Exhaustive = false
			}
		}
		r.mu.Unlock()
		r.finish()
	}
}

func (r *Run) enter(w int, v *Violation) {
	if r.trace != nil {
		b, _ := json.Marshal(v)
		r.trace.Truncate(0)
		r.trace.WriteAt(b, 0)
	}
	r.slots[w].cur.Store(v)
	r.slots[w].since.Store(time.Now().UnixNano())
}

func (r *Run) leave(w int) { r.slots[w].since.Store(0) }

func (r *Run) skip(name string) bool {
	if r.replay != nil {
		return r.replay.Part != name
	}
	return r.only != "" && !strings.Contains(name, r.only)
}

func (r *Run) expired() bool { return time.Now().After(r.Deadline) }

// Sample records an example execution (a few per part).
func (r *Run) Sample(part, s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.smax[part] < 2 && len(r.Samples) < 24 {
		r.smax[part]++
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.Samples = append(r.Samples, part+": "+s)
	}
}

func (r *Run) report(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Viol = append(r.Viol, v)
}

// guard turns a panic of f into an error.
func guard(f func() error) (err error) {
	done := false
	defer func() {
		if p := recover(); p != nil || !done { // panic(nil) counts, too
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1200 {
				st = st[:1200]
			}
			err = fmt.Errorf("unexpected panic: %v\n%s", p, st)
		}
	}()
	err = f()
	done = true
	return
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	p = true // panic(nil) counts, too
	defer func() { recover() }()
	f()
	return false
}

type node struct {
	parent *node
	op     Op
	depth  int
}

func (n *node) path() []Op {
	p := make([]Op, n.depth)
	for m := n; m.parent != nil; m = m.parent {
		p[m.depth-1] = m.op
	}
	return p
}

func showPath(p []Op) string {
	var b strings.Builder
	for i, o := range p {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(o.String())
	}
	return b.String()
}

type hkey [20]byte

// runPath replays a history; it returns the instance.
func runPath(s *Sys, path []Op, checkAll bool) (in Inst, err error) {
	err = guard(func() error {
		in = s.New()
		if len(path) == 0 || checkAll {
			if e := in.Check(); e != nil {
				return e
			}
		}
		for i, op := range path {
			if e := in.Do(op); e != nil {
				return fmt.Errorf("step %d %s: %v", i+1, op, e)
			}
			if checkAll || i == len(path)-1 {
				if e := in.Check(); e != nil {
					return fmt.Errorf("after step %d %s: %v", i+1, op, e)
				}
			}
		}
		return nil
	})
	return
}

// closeInst releases what an instance holds outside of memory.
func closeInst(in Inst) {
	if c, ok := in.(interface{ Close() }); ok {
		c.Close()
	}
}

// Explore does a breadth-first search of the system's states.
func (r *Run) Explore(s Sys) {
	if r.skip(s.Name) {
		return
	}
	if r.replay != nil {
		r.replayed = true
		v := &Violation{Part: s.Name, Path: r.replay.Path}
		r.enter(0, v)
		in, err := runPath(&s, r.replay.Path, true)
		if err == nil {
			err = guard(in.Drain)
		}
		closeInst(in)
		r.leave(0)
		if err != nil {
			v.Msg = err.Error()
			r.report(v)
		}
		return
	}
	t0 := time.Now()
	part := &Part{Name: s.Name, Engine: "history-bfs", Bounds: s.Bounds, Exhaustive: true}
	r.Parts = append(r.Parts, part)
	type shard struct {
		mu sync.Mutex
		m  map[hkey]struct{}
	}
	shards := make([]shard, 64)
	for i := range shards {
		shards[i].m = map[hkey]struct{}{}
	}
	add := func(k hkey) bool {
		sh := &shards[k[0]&63]
		sh.mu.Lock()
		defer sh.mu.Unlock()
		if _, ok := sh.m[k]; ok {
			return false
		}
		sh.m[k] = struct{}{}
		return true
	}
	key := func(in Inst) hkey {
		d := NewDump()
		in.Key(d)
		return sha1.Sum(d.Buf)
	}
	type bad struct {
		n  int
		op int
		v  *Violation
	}
	var trans, traces, states int64
	root := &node{}
	r.enter(0, &Violation{Part: s.Name, Kind: "history", Path: []Op{}, Show: "(initial state)"})
	in, err := runPath(&s, nil, true)
	if err == nil {
		err = guard(func() error { add(key(in)); return in.Drain() })
	}
	closeInst(in)
	r.leave(0)
	states, traces = 1, 1
	if err != nil {
		r.report(&Violation{Part: s.Name, Kind: "history", Path: []Op{}, Show: "(initial state)", Msg: err.Error()})
		part.States, part.Traces = 1, 1
		return
	}
	// a state space that does not close within its share leaves time for the other parts
	share := time.Until(r.Deadline) / 2
	if r.Thorough() {
		share = share * 8 / 5
	}
	limit := t0.Add(share)
	over := func() bool { return time.Now().After(limit) }
	level := []*node{root}
	for depth := 0; len(level) > 0; depth++ {
		part.Depth = depth
		if s.MaxDepth > 0 && depth >= s.MaxDepth {
			break
		}
		if over() {
			part.Exhaustive = false
			break
		}
		next := make([][]*node, len(level))
		var bads []bad
		var bmu sync.Mutex
		var idx int64
		var wg sync.WaitGroup
		for w := 0; w < r.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for {
					i := int(atomic.AddInt64(&idx, 1)) - 1
					if i >= len(level) || over() {
						return
					}
					n := level[i]
					path := n.path()
					fail := func(oi int, p []Op, err error) {
						bmu.Lock()
						bads = append(bads, bad{i, oi, &Violation{Part: s.Name, Kind: "history", Path: p, Show: showPath(p), Msg: err.Error()}})
						bmu.Unlock()
					}
					r.enter(w, &Violation{Part: s.Name, Kind: "history", Path: path, Show: showPath(path)})
					in, err := runPath(&s, path, false)
					if err != nil {
						fail(-1, path, err)
						r.leave(w)
						continue
					}
					ops := in.Ops()
					for oi, op := range ops {
						p := append(append(make([]Op, 0, len(path)+1), path...), op)
						if r.trace != nil || oi%16 == 0 || len(path) > 64 {
							r.enter(w, &Violation{Part: s.Name, Kind: "history", Path: p, Show: showPath(p)})
						} else {
							r.slots[w].cur.Store(&Violation{Part: s.Name, Kind: "history", Path: p})
						}
						atomic.AddInt64(&trans, 1)
						atomic.AddInt64(&traces, 1)
						err := guard(func() error {
							if oi > 0 {
								in = s.New()
								for _, o := range path {
									if e := in.Do(o); e != nil {
										return fmt.Errorf("replay diverged at %s: %v", o, e)
									}
								}
							}
							if e := in.Do(op); e != nil {
								return fmt.Errorf("last step %s: %v", op, e)
							}
							if e := in.Check(); e != nil {
								return fmt.Errorf("after last step %s: %v", op, e)
							}
							if add(key(in)) {
								atomic.AddInt64(&states, 1)
								if e := in.Drain(); e != nil {
									return fmt.Errorf("draining after last step %s: %v", op, e)
								}
								next[i] = append(next[i], &node{n, op, n.depth + 1})
							}
							return nil
						})
						closeInst(in)
						if err != nil {
							fail(oi, p, err)
							break
						}
					}
					if len(ops) == 0 {
						closeInst(in)
					}
					r.leave(w)
				}
			}(w)
		}
		wg.Wait()
		if len(bads) > 0 {
			sort.Slice(bads, func(a, b int) bool {
				if bads[a].n != bads[b].n {
					return bads[a].n < bads[b].n
				}
				return bads[a].op < bads[b].op
			})
			r.report(bads[0].v)
			part.Exhaustive = false
			break
		}
		if int(idx) < len(level) {
			part.Exhaustive = false
		}
		var nl []*node
		for _, x := range next {
			nl = append(nl, x...)
		}
		if len(nl) > 0 {
			r.Sample(s.Name, "") // keep slot order stable; replaced below
			r.replaceSample(s.Name, showPath(nl[len(nl)/2].path()))
		}
		level = nl
	}
	part.States, part.Transitions, part.Traces = states, trans, traces
	part.Seconds = time.Since(t0).Seconds()
}

func (r *Run) replaceSample(part, s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	for i := len(r.Samples) - 1; i >= 0; i-- {
		if strings.HasPrefix(r.Samples[i], part+": ") {
			r.Samples[i] = part + ": " + s
			return
		}
	}
}

// Enumerate runs every case.
func (r *Run) Enumerate(e Enum) {
	if r.skip(e.Name) {
		return
	}
	show := e.Show
	if show == nil {
		show = func(c Case) string { return fmt.Sprint([]int(c)) }
	}
	if r.replay != nil {
		r.replayed = true
		v := &Violation{Part: e.Name, Case: r.replay.Case}
		r.enter(0, v)
		err := guard(func() error { return e.Run(r.replay.Case, &T{}) })
		r.leave(0)
		if err != nil {
			v.Msg = err.Error()
			r.report(v)
		}
		return
	}
	t0 := time.Now()
	part := &Part{Name: e.Name, Engine: "enumeration", Bounds: e.Bounds, Exhaustive: true}
	if e.Engine != "" {
		part.Engine = e.Engine
	}
	size := 128
	if e.Small {
		size = 1
	}
	r.Parts = append(r.Parts, part)
	type batch struct {
		seq int64
		cs  []Case
	}
	ch := make(chan batch, 64)
	var steps, cases, traces, states int64
	var capped atomic.Bool
	var stop atomic.Bool
	var bmu sync.Mutex
	var best *Violation
	var bestSeq int64
	var wg sync.WaitGroup
	nw := r.Workers
	if e.Serial {
		nw = 1
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t := &T{}
			var done, tick int64
			for b := range ch {
				for j, c := range b.cs {
					if stop.Load() {
						break
					}
					if j%32 == 0 || r.trace != nil {
						r.enter(w, &Violation{Part: e.Name, Kind: "input", Case: c, Show: show(c)})
						r.slots[w].since.Add(int64(e.Slack))
					} else {
						r.slots[w].cur.Store(&Violation{Part: e.Name, Kind: "input", Case: c})
						if now := r.tick.Load(); now != tick { // slow cases: each has the whole limit
							tick = now
							r.slots[w].since.Store(now + int64(e.Slack))
						}
					}
					err := guard(func() error { return e.Run(c, t) })
					done++
					if err != nil {
						bmu.Lock()
						if best == nil || b.seq+int64(j) < bestSeq {
							best, bestSeq = &Violation{Part: e.Name, Kind: "input", Case: c, Show: show(c), Msg: err.Error()}, b.seq+int64(j)
						}
						bmu.Unlock()
						stop.Store(true)
						break
					}
				}
				r.leave(w)
			}
			atomic.AddInt64(&steps, t.Steps)
			atomic.AddInt64(&traces, t.Traces)
			atomic.AddInt64(&states, t.States)
			if t.Capped {
				capped.Store(true)
			}
			atomic.AddInt64(&cases, done)
		}(w)
	}
	var cur []Case
	var arena []int
	var seq int64
	var total int64
	type stopT struct{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopT); !ok {
					panic(p)
				}
			}
		}()
		e.Gen(func(c Case) {
			if cap(arena)-len(arena) < len(c) {
				arena = make([]int, 0, 4096+len(c))
			}
			l := len(arena)
			arena = append(arena, c...)
			cur = append(cur, arena[l:l+len(c):l+len(c)])
			total++
			if total == 3 || total == 500 {
				r.Sample(e.Name, show(cur[len(cur)-1]))
			}
			if len(cur) == size {
				ch <- batch{seq, cur}
				seq += int64(len(cur))
				cur = make([]Case, 0, size)
				if stop.Load() || ((seq%4096 == 0 || e.Small) && r.expired()) {
					part.Exhaustive = false
					panic(stopT{})
				}
			}
		})
		ch <- batch{seq, cur}
	}()
	close(ch)
	wg.Wait()
	if total > 0 && total < 3 {
		r.Sample(e.Name, fmt.Sprint(total, " case(s)"))
	}
	if best != nil {
		part.Exhaustive = false
		r.report(best)
	}
	part.States, part.Transitions, part.Traces = cases, steps, cases
	if traces > 0 {
		part.States, part.Traces = states, traces
		part.Extra = map[string]int64{"cases": cases}
	}
	if capped.Load() {
		part.Exhaustive = false
	}
	part.Seconds = time.Since(t0).Seconds()
}

// Range runs f on every i in [lo,hi] (very large spaces); f gets blocks.
func (r *Run) Range(name, bounds string, lo, hi uint64, f func(i uint64) error) {
	if r.skip(name) {
		return
	}
	if r.replay != nil {
		r.replayed = true
		i := uint64(r.replay.Case[0])
		v := &Violation{Part: name, Case: r.replay.Case}
		r.enter(0, v)
		err := guard(func() error { return f(i) })
		r.leave(0)
		if err != nil {
			v.Msg = err.Error()
			r.report(v)
		}
		return
	}
	t0 := time.Now()
	part := &Part{Name: name, Engine: "enumeration", Bounds: bounds, Exhaustive: true}
	r.Parts = append(r.Parts, part)
	const blk = 1 << 14
	var nextb uint64
	var done int64
	var stop atomic.Bool
	var bmu sync.Mutex
	var best *Violation
	var bestI uint64
	var wg sync.WaitGroup
	for w := 0; w < r.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				b := lo + (atomic.AddUint64(&nextb, 1)-1)*blk
				if b > hi || stop.Load() || b < lo {
					return
				}
				if r.expired() {
					bmu.Lock()
					part.Exhaustive = false
					bmu.Unlock()
					return
				}
				e := b + blk - 1
				if e > hi || e < b {
					e = hi
				}
				i := b
				r.slots[w].at.Store(i)
				r.enter(w, &Violation{Part: name, Kind: "range"})
				var n int64
				err := guard(func() error {
					for ; ; i++ {
						if r.trace != nil {
							r.enter(w, &Violation{Part: name, Kind: "input", Case: Case{int(i)}, Show: fmt.Sprint(i)})
						} else {
							r.slots[w].at.Store(i)
						}
						n++
						if err := f(i); err != nil {
							return err
						}
						if i == e {
							return nil
						}
					}
				})
				r.leave(w)
				atomic.AddInt64(&done, n)
				if err != nil {
					bmu.Lock()
					if best == nil || i < bestI {
						best, bestI = &Violation{Part: name, Kind: "input", Case: Case{int(i)}, Show: fmt.Sprint(i), Msg: err.Error()}, i
					}
					bmu.Unlock()
					stop.Store(true)
				}
			}
		}(w)
	}
	wg.Wait()
	if best != nil {
		part.Exhaustive = false
		r.report(best)
	}
	r.Sample(name, fmt.Sprintf("every integer of [%d,%d], e.g. %d", lo, hi, lo+(hi-lo)/3))
	part.States, part.Transitions, part.Traces = done, done, done
	part.Seconds = time.Since(t0).Seconds()
}

// Strings emits every vector over 0..k-1 of length lo..hi.
func Strings(k, lo, hi int, emit func(c Case)) {
	for n := lo; n <= hi; n++ {
		c := make(Case, n)
		for {
			emit(c)
			i := n - 1
			for ; i >= 0; i-- {
				if c[i]++; c[i] < k {
					break
				}
				c[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

// Product emits every vector with c[i] in 0..dims[i]-1.
func Product(emit func(c Case), dims ...int) {
	c := make(Case, len(dims))
	for _, d := range dims {
		if d <= 0 {
			return
		}
	}
	for {
		emit(c)
		i := len(dims) - 1
		for ; i >= 0; i-- {
			if c[i]++; c[i] < dims[i] {
				break
			}
			c[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Perms emits every permutation of 0..n-1.
func Perms(n int, emit func(c Case)) {
	c := make(Case, n)
	for i := range c {
		c[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			emit(c)
			return
		}
		for i := k; i < n; i++ {
			c[k], c[i] = c[i], c[k]
			rec(k + 1)
			c[k], c[i] = c[i], c[k]
		}
	}
	rec(0)
}

// pair runs two independent objects side by side.
type pair struct{ a, b Inst }

// Pair explores interleaved histories of two objects (they must not interfere).
func Pair(name string, mk func() Inst, depth int, bounds string) Sys {
	return Sys{Name: name, New: func() Inst { return &pair{mk(), mk()} }, MaxDepth: depth, Bounds: bounds}
}

func (p *pair) Ops() []Op {
	var r []Op
	for _, o := range p.a.Ops() {
		r = append(r, Op{"a." + o.N, o.A})
	}
	for _, o := range p.b.Ops() {
		r = append(r, Op{"b." + o.N, o.A})
	}
	return r
}
func (p *pair) Do(o Op) error {
	in := p.a
	if o.N[0] == 'b' {
		in = p.b
	}
	return in.Do(Op{o.N[2:], o.A})
}
func (p *pair) Check() error {
	if e := p.a.Check(); e != nil {
		return fmt.Errorf("object a: %v", e)
	}
	if e := p.b.Check(); e != nil {
		return fmt.Errorf("object b: %v", e)
	}
	return nil
}
func (p *pair) Drain() error {
	if e := p.a.Drain(); e != nil {
		return fmt.Errorf("object a: %v", e)
	}
	if e := p.b.Drain(); e != nil {
		return fmt.Errorf("object b: %v", e)
	}
	return nil
}
func (p *pair) Key(d *Dump) { p.a.Key(d); p.b.Key(d) }
