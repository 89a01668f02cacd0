package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/scn"
)

// LibDoc, Job, Stats, Found: as in the worker.
type LibDoc struct {
	Kind  string `json:"kind"`
	Text  []byte `json:"text"`
	Known bool   `json:"known"`
	Ok    bool   `json:"ok"`
	Panic bool   `json:"panic"`
	Steps uint64 `json:"steps"`
	Stmts int    `json:"stmts"`
	Good  bool   `json:"good"`
}

type job struct {
	Prop   string   `json:"prop"`
	Lib    string   `json:"lib"`
	Refs   string   `json:"refs"`
	Focus  string   `json:"focus"`
	Seeds  []uint64 `json:"seeds"`
	Events bool     `json:"events"`
	Stop   int64    `json:"stop"`
	Init   uint64   `json:"init"`
}

type stats struct {
	Runs     int            `json:"runs"`
	Evals    int            `json:"evals"`
	Trivial  int            `json:"trivial"`
	Steps    uint64         `json:"steps"`
	Preempt  int            `json:"preempt"`
	Classes  map[string]int `json:"classes"`
	Strats   map[string]int `json:"strats"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Seams    map[string]int `json:"seams"`
	Hashes   []uint64       `json:"hashes"`
	Cov      []byte         `json:"cov"`
	Stopped  bool           `json:"stopped"`
	RefProcs int            `json:"refProcs"`
}

type found struct {
	Scenario *scn.Scenario `json:"scenario"`
	Outcome  *scn.Outcome  `json:"outcome"`
	history  []uint64      // seeds run before it in the same process
}

var procSeq atomic.Int64

// procTimeout is a watchdog against a stuck worker: an error, never a verdict.
var procTimeout = 400 * time.Second

type procResult struct {
	lines  []string
	crash  string // the process died of the code under test
	stderr string
}

// runProc runs one worker process. A death that the code under test may have
// caused is returned in crash; any other trouble is an error.
func (b *build) runProc(cmd string, input any) (*procResult, error) {
	return b.runProcIn(cmd, input, 0)
}

// runProcIn runs it with the given set-up of the process.
func (b *build) runProcIn(cmd string, input any, setup uint64) (*procResult, error) {
	in, err := json.Marshal(input)
	if err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), procTimeout)
	defer cancel()
	c := exec.CommandContext(ctx, b.bin, cmd, "-sites", b.sites)
	logp := filepath.Join(b.dir, fmt.Sprintf("race-%d", procSeq.Add(1)))
	c.Env = append(os.Environ(), "GORACE=log_path="+logp+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2", "GOTRACEBACK=all", "GODEBUG=", "GOMAXPROCS=", fmt.Sprintf("ZZSIM_INIT=%d", setup))
	c.Stdin = bytes.NewReader(in)
	var out, stderr bytes.Buffer
	c.Stdout, c.Stderr = &out, &stderr
	err = c.Run()
	if m, _ := filepath.Glob(logp + ".*"); len(m) > 0 {
		for _, f := range m {
			os.Remove(f)
		}
	}
	r := &procResult{stderr: stderr.String()}
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for sc.Scan() {
		r.lines = append(r.lines, sc.Text())
	}
	if err == nil {
		return r, nil
	}
	if ctx.Err() != nil {
		return nil, fmt.Errorf("worker %s: no answer after %v", cmd, procTimeout)
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && !strings.Contains(r.stderr, "harness:") && !strings.Contains(r.stderr, "zzsim: ") {
		for _, s := range []string{"fatal error: concurrent map", "fatal error: all goroutines", "stack overflow", "stack exceeds", "fatal error: sync:"} {
			if strings.Contains(r.stderr, s) {
				r.crash = firstLines(r.stderr, 12)
				return r, nil
			}
		}
	}
	return nil, fmt.Errorf("worker %s: %v\n%s", cmd, err, firstLines(r.stderr, 60))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// parallel runs f(0..n-1) on w goroutines until one returns false.
func parallel(n, w int, f func(i int) bool) {
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if !f(i) {
					stop.Store(true)
				}
			}
		}()
	}
	wg.Wait()
}

// batch runs chunks of seeds.
type batch struct {
	b      *build
	job    job
	chunks [][]uint64
	width  int
	events map[uint64]string

	mu     sync.Mutex
	st     stats
	hashes map[uint64]bool
	found  []*found
	err    error
	procs  int
}

func newBatch(b *build, j job, chunks [][]uint64, width int) *batch {
	return &batch{b: b, job: j, chunks: chunks, width: width, hashes: map[uint64]bool{}, events: map[uint64]string{},
		st: stats{Classes: map[string]int{}, Strats: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Seams: map[string]int{}}}
}

func (q *batch) run() error {
	parallel(len(q.chunks), q.width, func(i int) bool {
		j := q.job
		j.Seeds = q.chunks[i]
		j.Init = 1 + uint64(uint32(j.Seeds[0]))
		r, err := q.b.runProcIn("run", j, j.Init)
		q.mu.Lock()
		defer q.mu.Unlock()
		q.procs++
		if err != nil {
			if q.err == nil {
				q.err = err
			}
			return false
		}
		return q.take(&j, r)
	})
	return q.err
}

func before(seeds []uint64, s uint64) []uint64 {
	for i, x := range seeds {
		if x == s {
			return seeds[:i]
		}
	}
	return nil
}

func (q *batch) take(j *job, r *procResult) bool {
	seeds := j.Seeds
	var last uint64
	for _, l := range r.lines {
		switch l[0] {
		case 'B':
			last, _ = strconv.ParseUint(l[2:], 10, 64)
		case 'E':
			f := strings.SplitN(l[2:], " ", 2)
			s, _ := strconv.ParseUint(f[0], 10, 64)
			q.events[s] = f[1]
		case 'V':
			var f found
			if err := json.Unmarshal([]byte(l[2:]), &f); err != nil {
				q.err = err
				return false
			}
			f.history = before(seeds, f.Scenario.Seed)
			q.found = append(q.found, &f)
		case 'S':
			var s stats
			if err := json.Unmarshal([]byte(l[2:]), &s); err != nil {
				q.err = err
				return false
			}
			q.merge(&s)
		}
	}
	if r.crash != "" {
		q.found = append(q.found, &found{Scenario: &scn.Scenario{Prop: q.job.Prop, Seed: last, Init: j.Init}, Outcome: &scn.Outcome{Violation: &scn.Violation{Class: "crash", Detail: r.crash}}, history: before(seeds, last)})
	}
	return len(q.found) == 0
}

func (q *batch) merge(s *stats) {
	t := &q.st
	t.Runs += s.Runs
	t.Evals += s.Evals
	t.Trivial += s.Trivial
	t.Steps += s.Steps
	t.Preempt += s.Preempt
	t.RefProcs += s.RefProcs
	t.Stopped = t.Stopped || s.Stopped
	for _, p := range []struct{ a, b map[string]int }{{t.Classes, s.Classes}, {t.Strats, s.Strats}, {t.Faults, s.Faults}, {t.Probes, s.Probes}, {t.Seams, s.Seams}} {
		for k, v := range p.b {
			scn.AddTo(p.a, k, v)
		}
	}
	for _, h := range s.Hashes {
		q.hashes[h] = true
	}
	if len(t.Cov) < len(s.Cov) {
		t.Cov = append(t.Cov, make([]byte, len(s.Cov)-len(t.Cov))...)
	}
	for i, c := range s.Cov {
		t.Cov[i] |= c
	}
}

// outcome of executing scenarios in a fresh process: that of the last one.
func (b *build) exec(refs string, ss ...*scn.Scenario) (*scn.Outcome, error) {
	r, err := b.runProcIn("exec", map[string]any{"refs": refs, "scenarios": ss}, ss[len(ss)-1].Init)
	if err != nil {
		return nil, err
	}
	if r.crash != "" {
		return &scn.Outcome{Violation: &scn.Violation{Class: "crash", Detail: r.crash}}, nil
	}
	o := &scn.Outcome{}
	n := 0
	for _, l := range r.lines {
		if l[0] == 'O' {
			*o = scn.Outcome{}
			n++
			if err := json.Unmarshal([]byte(l[2:]), o); err != nil {
				return nil, err
			}
		}
	}
	if o.Violation != nil && n != len(ss) {
		o.Violation = nil // failed earlier in the history: another failure
		o.Switches = nil
	}
	return o, nil
}

// scenarios regenerates the scenarios of seeds.
func (b *build) scenarios(j job, seeds []uint64) ([]*scn.Scenario, error) {
	j.Seeds = seeds
	r, err := b.runProc("gen", j)
	if err != nil {
		return nil, err
	}
	var out []*scn.Scenario
	for _, l := range r.lines {
		if l[0] == 'G' {
			s := &scn.Scenario{}
			if err := json.Unmarshal([]byte(l[2:]), s); err != nil {
				return nil, err
			}
			out = append(out, s)
		}
	}
	if len(out) != len(seeds) {
		return nil, fmt.Errorf("gen: %d scenarios for %d seeds", len(out), len(seeds))
	}
	return out, nil
}
