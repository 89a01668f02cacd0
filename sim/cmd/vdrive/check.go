package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifsim/scn"
	"verifsim/zzsim"
)

// conf says how much a check does.
type conf struct {
	runs  int // runs of the quick tier
	lib   int // documents of the library
	max   int // longest document
	chunk int // runs per process
	refs  bool
	rule  string
}

var confs = map[string]conf{
	"C01": {runs: 24000, lib: 700, max: 4000, chunk: 60, refs: true},
	"C02": {runs: 40000, lib: 520, max: 4000, chunk: 100, refs: true},
	"C03": {runs: 50000, lib: 800, max: 6000, chunk: 100, refs: true},
	"C04": {runs: 120000, lib: 520, max: 6000, chunk: 200, refs: true},
	"C05": {runs: 90000, lib: 520, max: 8000, chunk: 200},
	"C06": {runs: 120000, lib: 520, max: 8000, chunk: 200},
	"C09": {runs: 80000, lib: 900, max: 8000, chunk: 200},
	"C10": {runs: 80000, lib: 900, max: 20000, chunk: 200},
	"C11": {runs: 90000, lib: 900, max: 20000, chunk: 100},
	"C12": {runs: 180000, lib: 520, max: 8000, chunk: 200},
	"C13": {runs: 13000, lib: 520, max: 4000, chunk: 100, refs: true},
	"C14": {runs: 16000, lib: 480, max: 4000, chunk: 100, refs: true},
	"C15": {runs: 160000, lib: 520, max: 4000, chunk: 200, refs: true},
}

const workers = 8

type checker struct {
	prop    string
	tier    string
	seed    uint64
	cf      conf
	b       *build
	job     job
	start   time.Time
	lib     []LibDoc
	exclude int
	refTook time.Duration
	replay  *replayFile

	reached, groups, susReached int // of the library alone
}

// replayFile reproduces a violation.
type replayFile struct {
	Property  string          `json:"property"`
	VerifSeed uint64          `json:"verifSeed"`
	Seed      uint64          `json:"seed"`
	Class     string          `json:"class"`
	Detail    string          `json:"detail"`
	Found     string          `json:"found"` // how it looked before minimisation
	Scenarios []*scn.Scenario `json:"scenarios,omitempty"`
	CLI       *cliCase        `json:"cli,omitempty"`
}

func newChecker(prop, tier string, seed uint64) (*checker, error) {
	c := &checker{prop: prop, tier: tier, seed: seed, cf: confs[prop], start: time.Now()}
	dir := filepath.Join(verifDir, "build", prop)
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(filepath.Join(dir, "refs"), 0o755); err != nil {
		return nil, err
	}
	b, err := buildWorker(dir, raceProps[prop])
	if err != nil {
		return nil, err
	}
	c.b = b
	c.job = job{Prop: prop, Lib: filepath.Join(dir, "lib.json"), Refs: filepath.Join(dir, "refs")}
	return c, nil
}

// prepare makes the library and its references.
func (c *checker) prepare() error {
	corpus, err := scn.LoadCorpus(filepath.Join(verifDir, "corpus"))
	if err != nil {
		return err
	}
	n := c.cf.lib
	grown := 300
	if !c.cf.refs {
		grown = 2000
	}
	if c.tier == "thorough" {
		n *= 2
		grown = 1 << 20
	}
	for _, d := range scn.Library(corpus, c.seed, n, grown, c.cf.max) {
		c.lib = append(c.lib, LibDoc{Kind: d.Kind, Text: []byte(d.Text)})
	}
	most := 700
	if !c.cf.refs {
		most = 1500
	}
	for _, t := range newDocs(corpus, c.seed, c.cf.max, most) {
		c.lib = append(c.lib, LibDoc{Kind: "dict", Text: []byte(t)})
	}
	if c.cf.refs {
		t0 := time.Now()
		var firstErr error
		parallel(len(c.lib), workers, func(i int) bool {
			if err := c.reference(i); err != nil {
				firstErr = err
				return false
			}
			return true
		})
		if firstErr != nil {
			return firstErr
		}
		for _, d := range c.lib {
			if d.Panic {
				c.exclude++
			}
		}
		if c.exclude*4 > len(c.lib) {
			return fmt.Errorf("%d of %d documents can't be parsed and read even alone", c.exclude, len(c.lib))
		}
		c.refTook = time.Since(t0)
	}
	if err := writeJSON(c.job.Lib, c.lib); err != nil {
		return err
	}
	return c.profile()
}

// reference has a fresh process parse and read a document alone.
func (c *checker) reference(i int) error {
	d := &c.lib[i]
	r, err := c.b.runProc("ref", struct{ Text []byte }{d.Text})
	if err != nil {
		return err
	}
	if r.crash != "" {
		d.Panic, d.Known = true, true
		return nil
	}
	if len(r.lines) != 1 {
		return fmt.Errorf("reference of document %d: no answer", i)
	}
	var ref struct {
		Failed bool   `json:"failed"`
		Panic  string `json:"panic"`
		Steps  uint64 `json:"steps"`
		Stmts  []struct {
			Panics bool `json:"panics"`
		} `json:"stmts"`
		Hash string `json:"hash"`
	}
	if err := json.Unmarshal([]byte(r.lines[0]), &ref); err != nil {
		return err
	}
	d.Known, d.Ok, d.Steps, d.Stmts = true, !ref.Failed, ref.Steps, len(ref.Stmts)
	d.Panic = ref.Panic != ""
	for _, s := range ref.Stmts {
		d.Panic = d.Panic || s.Panics
	}
	return os.WriteFile(filepath.Join(c.job.Refs, ref.Hash), []byte(r.lines[0]), 0o644)
}

func (c *checker) seedOf(i int) uint64 {
	return scn.Mix(c.seed, 0x5eed)<<32 | uint64(uint32(i))
}

func (c *checker) chunks(runs int) [][]uint64 {
	var out [][]uint64
	i := 0
	for n := 0; i < runs; n++ {
		size := c.cf.chunk
		if n%3 == 1 {
			size = max(1, size/4)
		}
		if n%9 == 2 {
			size = max(1, size/15)
		}
		if n%16 == 7 && c.prop == "C03" { // long-lived processes
			size = 8 * c.cf.chunk
		}
		var l []uint64
		for ; len(l) < size && i < runs; i++ {
			l = append(l, c.seedOf(i))
		}
		out = append(out, l)
	}
	return out
}

// check runs a property's check and returns the exit code.
func check(prop, tier string, seed uint64, runs int) int {
	fmt.Printf("property=%s tier=%s seed=%d\n", prop, tier, seed)
	if prop == "C07" || prop == "C08" {
		return cliCheck(prop, tier, seed, runs)
	}
	c, err := newChecker(prop, tier, seed)
	if err == nil {
		err = c.prepare()
	}
	if err != nil {
		die("%s: %v", prop, err)
	}
	if runs == 0 {
		runs = c.cf.runs
		if tier == "thorough" {
			runs *= 12
		}
	}
	c.job.Stop = c.start.Unix() + 420
	if tier == "thorough" {
		c.job.Stop = c.start.Unix() + 3*3600
		procTimeout = 4 * time.Hour
	}
	q := newBatch(c.b, c.job, c.chunks(runs), workers)
	t0 := time.Now()
	if err := q.run(); err != nil {
		die("%s: %v", prop, err)
	}
	took := time.Since(t0)
	code := 0
	if len(q.found) > 0 {
		code = c.report(q)
	}
	c.evidence(q, took, code)
	return code
}

// report confirms, minimises and writes out a violation.
func (c *checker) report(q *batch) int {
	sort.Slice(q.found, func(i, j int) bool { return q.found[i].Scenario.Seed < q.found[j].Scenario.Seed })
	f := q.found[0]
	v := f.Outcome.Violation
	fmt.Printf("violation at seed %d: %s; confirming\n", f.Scenario.Seed, v.Class)
	all, err := c.b.scenarios(c.job, append(append([]uint64{}, f.history...), f.Scenario.Seed))
	if err != nil {
		die("%s: %v", c.prop, err)
	}
	for _, s := range all {
		s.Init = f.Scenario.Init
	}
	last := all[len(all)-1]
	orig := *last
	orig.Plan = zzsim.Plan{Strategy: last.Plan.Strategy, Seed: last.Plan.Seed, Mean: last.Plan.Mean, Points: last.Plan.Points, Horizon: last.Plan.Horizon, Stall: last.Plan.Stall, StallAt: last.Plan.StallAt}
	cand := []*scn.Scenario{last}
	o, err := c.b.exec(c.job.Refs, cand...)
	if err != nil {
		die("%s: %v", c.prop, err)
	}
	if o.Violation == nil {
		cand = all
		if o, err = c.b.exec(c.job.Refs, cand...); err != nil {
			die("%s: %v", c.prop, err)
		}
	}
	for k := 0; k < 3 && o.Violation == nil; k++ {
		if o, err = c.b.exec(c.job.Refs, cand...); err != nil {
			die("%s: %v", c.prop, err)
		}
	}
	if o.Violation == nil {
		// The simulator is deterministic (selftest): the code under test has
		// a source of randomness that is behind no seam.
		fmt.Println("the violation does not replay: it depends on something the simulator does not control")
		c.replay = &replayFile{Property: c.prop, VerifSeed: c.seed, Seed: last.Seed, Class: v.Class, Detail: v.Detail + "\n(not reproduced: depends on something behind no seam)", Scenarios: all, Found: v.Class}
		return writeReplay(c.replay, 0)
	}
	m := &minimiser{b: c.b, refs: c.job.Refs, class: o.Violation.Class, stop: time.Now().Add(60 * time.Second)}
	ss, o2 := m.minimise(cand, o)
	ob, _ := json.Marshal(orig)
	rf := &replayFile{Property: c.prop, VerifSeed: c.seed, Seed: last.Seed, Class: o2.Violation.Class, Detail: o2.Violation.Detail, Scenarios: ss,
		Found: fmt.Sprintf("%s: %s; %d scenarios before it in the process; scenario %s", v.Class, cut(v.Detail, 2000), len(f.history), cut(string(ob), 4000))}
	c.replay = rf
	return writeReplay(rf, m.tries)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(rf *replayFile, tries int) int {
	dir := filepath.Join(verifDir, "out")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", rf.Property, rf.Seed))
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
	ops, sw := 0, 0
	for _, s := range rf.Scenarios {
		for _, t := range s.Threads {
			ops += len(t)
		}
		sw += len(s.Plan.Switches)
	}
	fmt.Printf("minimised with %d executions: %d scenarios, %d operations, %d switches\n%s: %s\n", tries, len(rf.Scenarios), ops, sw, rf.Class, rf.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// replay executes a replay file in a fresh process.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		die("%v", err)
	}
	if rf.CLI != nil {
		return cliReplay(rf)
	}
	c, err := newChecker(rf.Property, "quick", rf.VerifSeed)
	if err != nil {
		die("%v", err)
	}
	o, err := c.b.exec(c.job.Refs, rf.Scenarios...)
	if err != nil {
		die("%v", err)
	}
	if o.Violation == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", o.Violation.Class, o.Violation.Detail)
	if o.Violation.Class == rf.Class && o.Violation.Detail == rf.Detail {
		fmt.Println("the same violation as recorded")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// selftest runs seeds twice with different process histories and widths and
// compares everything observed.
func selftest(prop string, seed uint64, runs int) int {
	c, err := newChecker(prop, "quick", seed)
	if err == nil {
		err = c.prepare()
	}
	if err != nil {
		die("%s: %v", prop, err)
	}
	c.job.Events = true
	var ev []map[uint64]string
	for k, ch := range []int{c.cf.chunk, 7, 1 + runs/3} {
		c.cf.chunk = ch
		if k == 2 {
			c.cf.chunk = ch
		}
		q := newBatch(c.b, c.job, c.chunks(runs), []int{8, 3, 5}[k])
		if err := q.run(); err != nil {
			die("%s: %v", prop, err)
		}
		if len(q.found) > 0 {
			fmt.Printf("%s: violation %s: %s\n", prop, q.found[0].Outcome.Violation.Class, cut(q.found[0].Outcome.Violation.Detail, 3000))
			return 1
		}
		ev = append(ev, q.events)
	}
	bad := 0
	for s, e := range ev[0] {
		for _, o := range ev[1:] {
			if o[s] != e {
				bad++
				if bad < 5 {
					fmt.Printf("%s: seed %d differs: %s and %s\n", prop, s, e, o[s])
				}
			}
		}
	}
	fmt.Printf("%s: %d runs, three times each, %d differences\n", prop, len(ev[0]), bad)
	if bad > 0 {
		return 1
	}
	return 0
}

var _ = strings.Join
