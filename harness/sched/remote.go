package sched

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"time"

	"gxv/mc"
)

// One process runs one execution at a time (the scheduler is global), so explorations
// are farmed out to worker processes: the harness binary itself, started as a server.

type request struct {
	Case  []int
	Limit int // seconds
}

type worker struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	err *tail
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

var free = make(chan *worker, 64)

// Serve turns the process into a worker if it was started as one; explore runs one case.
func Serve(explore func(c []int, deadline time.Time) *Result) {
	if os.Getenv("GXV_SCHED_WORKER") == "" {
		return
	}
	runtime.GOMAXPROCS(1)
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	for {
		var q request
		if in.Decode(&q) != nil {
			os.Exit(0)
		}
		out.Encode(explore(q.Case, time.Now().Add(time.Duration(q.Limit)*time.Second)))
	}
}

// Remote explores a case in a worker process.
func Remote(c []int, limit int) (*Result, error) {
	var w *worker
	select {
	case w = <-free:
	default:
		w = &worker{cmd: exec.Command(os.Args[0]), err: &tail{}}
		w.cmd.Env = append(os.Environ(), "GXV_SCHED_WORKER=1")
		w.cmd.Stderr = w.err
		i, _ := w.cmd.StdinPipe()
		o, _ := w.cmd.StdoutPipe()
		if err := w.cmd.Start(); err != nil {
			panic(err)
		}
		w.in, w.out = json.NewEncoder(i), json.NewDecoder(o)
	}
	w.in.Encode(request{c, limit})
	var r Result
	if err := w.out.Decode(&r); err != nil {
		w.cmd.Wait()
		return nil, fmt.Errorf("the process died: %s", w.err.b)
	}
	free <- w
	return &r, nil
}

// Part explores every case as one part of a run.
func Part(r *mc.Run, name, bounds string, gen func(emit func(mc.Case)), show func(mc.Case) string) {
	r.Enumerate(mc.Enum{Name: name, Engine: "schedules", Bounds: bounds, Gen: gen, Show: show, Small: true,
		Slack: time.Duration(r.Pick(25, 3000)) * time.Second,
		Run: func(c mc.Case, t *mc.T) error {
			res, err := Remote(c, r.Pick(25, 3000))
			if err != nil {
				return err
			}
			t.Steps += res.Steps
			t.Traces += res.Schedules
			t.States += res.Choices
			if res.Err != "" {
				return fmt.Errorf("%s\nschedule (thread taken at each choice): %v", res.Err, res.Trail)
			}
			if !res.Exhaustive {
				t.Capped = true
			}
			return nil
		}})
}
