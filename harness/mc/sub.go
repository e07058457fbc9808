package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// report is what a harness writes with -out.
type subReport struct {
	Parts      []*Part
	Samples    []string
	Violations []*Violation
}

// Sub runs another harness binary as parts of this run, their names prefixed.
func (r *Run) Sub(prefix, bin string) {
	if r.replay != nil {
		if !strings.HasPrefix(r.replay.Part, prefix+"/") {
			return
		}
		r.replayed = true
		v := *r.replay
		v.Part = strings.TrimPrefix(v.Part, prefix+"/")
		b, _ := json.Marshal(v)
		f := filepath.Join(os.TempDir(), fmt.Sprintf("sub-%d.json", os.Getpid()))
		os.WriteFile(f, b, 0644)
		defer os.Remove(f)
		out, err := exec.Command(bin, "-replay", f).CombinedOutput()
		if err != nil && !strings.Contains(string(out), "NOT REPLAYABLE") {
			v.Msg = string(out)
			r.report(&v)
		}
		return
	}
	if r.only != "" && !strings.Contains(prefix, r.only) {
		return
	}
	left := int(time.Until(r.Deadline).Seconds())
	if left < 5 {
		left = 5
	}
	dir, err := os.MkdirTemp("", "sub")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	rep, tr := filepath.Join(dir, "r.json"), filepath.Join(dir, "t.json")
	args := []string{"-out", rep, "-budget", fmt.Sprint(left)}
	out, err := exec.Command(bin, args...).CombinedOutput()
	var s subReport
	read := func() bool {
		b, e := os.ReadFile(rep)
		return e == nil && json.Unmarshal(b, &s) == nil && len(s.Parts)+len(s.Violations) > 0
	}
	if !read() { // it died: find the execution that kills it
		out2, _ := exec.Command(bin, append(args, "-trace", tr)...).CombinedOutput()
		if !read() {
			v := &Violation{Part: "?", Show: "?"}
			if b, e := os.ReadFile(tr); e == nil {
				json.Unmarshal(b, v)
			}
			v.Kind = "crash"
			v.Msg = fmt.Sprintf("process died (%v): %.1500s", err, string(out)+string(out2))
			s.Violations = append(s.Violations, v)
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, p := range s.Parts {
		p.Name = prefix + "/" + p.Name
		r.Parts = append(r.Parts, p)
	}
	for _, v := range s.Violations {
		v.Part = prefix + "/" + v.Part
		r.Viol = append(r.Viol, v)
	}
	for i, x := range s.Samples {
		if i < 2 && len(r.Samples) < 40 {
			r.Samples = append(r.Samples, prefix+"/"+x)
		}
	}
}
