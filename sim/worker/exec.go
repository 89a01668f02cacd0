package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
	"verifsim/zzsim"
)

// run is one scenario being executed.
type run struct {
	s       *scn.Scenario
	o       *scn.Outcome
	docs    []string
	refs    []*DocRef
	shared  []*parsed
	thr     []*thr
	refined []scn.Op
	buf     []byte
	parts   [][3]int
}

// thr is one simulated thread's own state; nothing here is shared.
type thr struct {
	r      *run
	id     int
	own    map[int]*parsed
	shadow map[int][]parser.Expr
	kept   []kept
	fail   *scn.Violation
	faults map[string]int
	probes map[string]int
	evals  int
	hash   uint64
	depth  int
	forms  map[int]*form
}

type kept struct {
	what, s, hash string
}

func (t *thr) failf(class, format string, args ...any) {
	if t.fail == nil {
		t.fail = &scn.Violation{Class: class, Detail: fmt.Sprintf("thread %d: ", t.id) + fmt.Sprintf(format, args...)}
	}
}
func (t *thr) fault(k string) { t.faults[k]++ }
func (t *thr) probe(k string) { t.probes[k]++ }
func (t *thr) event(s string) { t.hash = (t.hash ^ scn.HashStr(s)) * 0x100000001b3 }

func decodeDocs(s *scn.Scenario) []string {
	docs := append([]string{}, s.Docs...)
	for _, i := range s.B64 {
		b, err := base64.StdEncoding.DecodeString(docs[i])
		if err != nil {
			fatal("bad base64 document %d", i)
		}
		docs[i] = string(b)
	}
	return docs
}

// encodeDocs makes texts that are not valid UTF-8 survive JSON.
func encodeDocs(s *scn.Scenario) {
	for i, d := range s.Docs {
		if !utf8.ValidString(d) {
			s.Docs[i] = base64.StdEncoding.EncodeToString([]byte(d))
			s.B64 = append(s.B64, i)
		}
	}
}

// execute runs a scenario. It is a function of the scenario and the code.
func execute(s *scn.Scenario, store *refStore) *scn.Outcome {
	o := &scn.Outcome{}
	r := &run{s: s, o: o, docs: decodeDocs(s)}
	zzsim.SetHidden(s.Hidden)
	defer zzsim.SetHidden(zzsim.Hidden{Canonical: true})
	switch s.Prop {
	case "C05", "C06", "C09", "C10", "C11", "C12":
		for range r.docs {
			r.refs = append(r.refs, nil)
		}
	default:
		for _, d := range r.docs {
			r.refs = append(r.refs, store.get(d))
		}
	}
	for i := range s.Threads {
		r.thr = append(r.thr, &thr{r: r, id: i, own: map[int]*parsed{}, shadow: map[int][]parser.Expr{}, faults: map[string]int{}, probes: map[string]int{}})
	}
	races := zzsim.RaceErrors()
	if f := prologues[s.Prop]; f != nil {
		f(r)
	}
	var fns []func()
	for i := range s.Threads {
		t, ops := r.thr[i], s.Threads[i]
		fns = append(fns, func() { t.main(ops) })
	}
	res := zzsim.Run(s.Plan, runLimit(r), fns...)
	r.finish(res, races)
	if o.Violation != nil && len(r.refined) > 0 {
		c := *s
		c.Threads = [][]scn.Op{r.refined[:1]}
		o.Refined = &c
	}
	return o
}

// prologues run before the threads start, in the thread that starts them.
var prologues = map[string]func(*run){"C02": shareTrees, "C14": shareTrees}

func shareTrees(r *run) {
	res := zzsim.Run(zzsim.Plan{Strategy: "none"}, runLimit(r), func() {
		for _, d := range r.docs {
			p := doParse(d)
			p.enumerate()
			r.shared = append(r.shared, p)
		}
	})
	if res.Panics[0] != nil {
		r.o.Fail("panic", fmt.Sprint(res.Panics[0]))
	}
}

var totalLen = func(r *run) int {
	n := 0
	for _, d := range r.docs {
		n += len(d)
	}
	return n
}

func countOps(ops []scn.Op) int {
	n := 0
	for _, o := range ops {
		n += 1 + countOps(o.Sub)
	}
	return n
}

// runLimit bounds the steps of a run generously: it only catches runs that
// would never end. Tight bounds are checked by C11.
func runLimit(r *run) uint64 {
	n, size, exact := 1, totalLen(r), uint64(0)
	unit := func(text string) uint64 { return uint64(len(text)+16) * uint64(1+intervals(text)) }
	for _, t := range r.s.Threads {
		n += countOps(t)
		for _, op := range t {
			if op.K == "bound" && op.A > 0 {
				exact += unit(scn.NestDoc(op.B, op.A))
			}
			if op.K == "spin" {
				exact += uint64(op.A) * 2000
			}
			if op.K == "fill" {
				n += op.A / 20
				exact += unit(r.docs[op.D]) * uint64(op.A)
			}
			if op.K == "append" && op.A > 1 {
				n += op.A
				exact += 3 * unit(r.docs[op.D]) * uint64(op.A)
			}
			if op.K == "tower" {
				n += op.A
			}
			if op.K == "sweep" {
				exact += (unit(r.docs[op.D]) + unit(r.docs[op.N%len(r.docs)])) * uint64(2*op.B+600)
			}
			if op.K == "cutbound" {
				exact += unit(r.docs[op.D]) * 300
			}
			if op.K == "grow" {
				exact += unit(scn.ParsePattern(op.T).Doc(5 * max(op.A, 8)))
			}
		}
	}
	for _, d := range r.docs {
		exact += unit(d)
	}
	return 3 * (uint64(n)*(3_000_000+20_000*uint64(size)) + 2*parseRate*exact)
}

func (r *run) finish(res *zzsim.Result, races int) {
	o := r.o
	for _, st := range res.Steps {
		o.Steps += st
	}
	o.Preempt = res.Preempt
	o.Switches = res.Switches
	o.Hash = res.Hash ^ scn.HashStr(strings.Join(r.docs, "\x00")) ^ opsHash(r.s.Threads)
	o.EventHash = res.Hash
	for _, t := range r.thr {
		if res.Deadlock != "" && t.fail == nil {
			continue // still parked: its state is not ours to read
		}
		o.EventHash = (o.EventHash ^ t.hash) * 0x100000001b3
		o.Evals += t.evals
		for k, v := range t.faults {
			o.AddFault(k, v)
		}
		for k, v := range t.probes {
			o.AddProbe(k, v)
		}
		if t.fail != nil {
			o.Fail(t.fail.Class, t.fail.Detail)
		}
	}
	for i, p := range res.Panics {
		if p == nil {
			continue
		}
		if s, ok := p.(string); ok && strings.HasPrefix(s, "harness:") {
			fatal("%s\n%s", s, res.Stacks[i])
		}
		if l, ok := p.(zzsim.LimitExceeded); ok {
			o.Fail("endless", fmt.Sprintf("thread %d: not done after %d steps", i, l.Steps))
			continue
		}
		o.Fail("panic", fmt.Sprintf("thread %d: %v\n%s", i, p, trimStack(res.Stacks[i])))
	}
	if res.Deadlock != "" {
		o.Fail("deadlock", res.Deadlock)
	}
	if n := zzsim.RaceErrors() - races; n > 0 {
		o.Fail("race", fmt.Sprintf("%d unsynchronised accesses to shared memory\n%s", n, raceLog()))
	}
	if res.StallBlock {
		o.Fail("blocked-by-stalled-thread", fmt.Sprintf("thread %d is stalled at its step %d, and another thread could only go on after it was released", r.s.Plan.Stall, r.s.Plan.StallAt))
	}
	if e := epilogues[r.s.Prop]; e != nil && o.Violation == nil {
		e(r)
	}
}

var epilogues = map[string]func(*run){"C02": sharedUnchanged, "C14": sharedUnchanged, "C13": disjoint}

func sharedUnchanged(r *run) {
	for i, p := range r.shared {
		if got := hashOf(p.String()); got != r.refs[i].Parse {
			r.o.Fail("tree-changed", fmt.Sprintf("the shared tree of document %d is no longer what a fresh parse gives", i)+r.explainParse(i, p.String()))
		}
		r.o.Evals++
	}
}

func opsHash(th [][]scn.Op) uint64 {
	h := uint64(1)
	var f func(ops []scn.Op)
	f = func(ops []scn.Op) {
		for _, o := range ops {
			h = scn.Mix(h, scn.HashStr(o.K), uint64(o.D), uint64(o.S), uint64(o.N), uint64(o.A), uint64(o.B), scn.HashStr(o.T), scn.HashStr(o.F))
			f(o.Sub)
		}
	}
	for _, ops := range th {
		f(ops)
		h++
	}
	return h
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "clickhouse-sql-parser/parser.") {
			out = append(out, lines[i], lines[i+1])
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// raceLog returns what the race detector wrote.
func raceLog() string {
	g := os.Getenv("GORACE")
	i := strings.Index(g, "log_path=")
	if i < 0 {
		return ""
	}
	p := strings.Fields(g[i+9:])[0]
	fs, _ := filepath.Glob(fmt.Sprintf("%s.%d", p, os.Getpid()))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if len(b) > 6000 {
			b = b[:6000]
		}
		return string(b)
	}
	return ""
}

// explainParse shows how a parse result differs from a fresh one made now.
func (r *run) explainParse(d int, got string) string {
	return "\n document: " + clip(r.docs[d], 600) + "\n" + explainVs(r.docs[d], "parse", "", got)
}

func clip(s string, n int) string {
	q := fmt.Sprintf("%q", s)
	if len(q) > n {
		q = q[:n] + "..."
	}
	return q
}

// explainVs asks a fresh process for the full text of an operation's result.
func explainVs(text, what, arg, got string) string {
	want, err := runFull(text, what, arg)
	if err != nil {
		return "\n got " + clip(got, 1500)
	}
	return diffAt(got, want)
}

func (t *thr) main(ops []scn.Op) {
	for _, op := range ops {
		if t.fail != nil {
			break
		}
		t.do(op)
		zzsim.Yield()
	}
	t.late()
}

// late re-checks at the end of the thread everything it still holds.
func (t *thr) late() {
	t.lateForms()
	for _, k := range t.kept {
		t.evals++
		if hashOf(k.s) != k.hash {
			t.failf("late-change", "the text returned by %s changed after it was returned; now %s", k.what, clip(k.s, 1000))
		}
	}
	var ds []int
	for d := range t.own {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	for _, d := range ds {
		if t.shadow[d] != nil || t.r.refs[d] == nil {
			continue
		}
		t.evals++
		if s := t.own[d].String(); hashOf(s) != t.r.refs[d].Parse {
			t.failf("late-change", "the result of parsing document %d changed after it was returned%s", d, t.r.explainParse(d, s))
		}
	}
}

// statement picks the tree and its reference for an operation.
func pick(p *parsed, ref *DocRef, op scn.Op) (*tree, *StmtRef, int) {
	if p == nil || len(p.trees) == 0 || len(ref.Stmts) != len(p.trees) {
		return nil, nil, 0
	}
	i := op.S % len(p.trees)
	sr := &ref.Stmts[i]
	n := sr.Sel[op.N%len(sr.Sel)]
	if op.T == "kin" && len(sr.Kin) > 0 {
		kin := sr.Kin[op.N%len(sr.Kin)]
		n = kin[op.B%len(kin)]
	}
	if n >= len(p.trees[i].nodes) {
		return nil, nil, 0
	}
	return p.trees[i], sr, n
}

// do executes one operation.
func (t *thr) do(op scn.Op) {
	r := t.r
	switch op.K {
	case "parse":
		p := doParse(r.docs[op.D])
		s := p.String()
		t.event(s)
		t.evals++
		if hashOf(s) != r.refs[op.D].Parse {
			t.failf("parse-differs", "parsing document %d gives another result than alone%s", op.D, r.explainParse(op.D, s))
			return
		}
		p.enumerate()
		t.own[op.D] = p
		delete(t.shadow, op.D)
		t.probe("parse")
		if p.err != nil {
			t.probe("parse-error")
		}
	case "again":
		p := t.own[op.D]
		if p == nil || t.shadow[op.D] != nil {
			return
		}
		s := p.again()
		p.p = nil
		t.event(s)
		t.evals++
		if s != "no parser" && hashOf(s) != r.refs[op.D].Again {
			t.failf("again-differs", "asking the parser of document %d once more gives another result than alone\n%s", op.D, explainVs(r.docs[op.D], "again", "", s))
		}
	case "errtext":
		p := t.own[op.D]
		if p == nil || t.shadow[op.D] != nil {
			return
		}
		s := p.String()
		t.evals++
		if hashOf(s) != r.refs[op.D].Parse {
			t.failf("late-change", "the result of parsing document %d changed after it was returned%s", op.D, r.explainParse(op.D, s))
		}
	case "read", "sread":
		var p *parsed
		if op.K == "read" {
			p = t.own[op.D]
			if t.shadow[op.D] != nil {
				return
			}
		} else if op.D < len(r.shared) {
			p = r.shared[op.D]
		}
		tr, sr, n := pick(p, r.refs[op.D], op)
		if tr == nil {
			return
		}
		t.read(readOps[op.A%len(readOps)], tr, sr, n, op)
	case "gc":
		runtime.GC()
		t.probe("gc")
	case "panicky":
		// a user of the library that fails in the middle of a callback
		p := t.own[op.D]
		tr, _, n := pick(p, r.refs[op.D], op)
		if tr == nil || t.shadow[op.D] != nil {
			return
		}
		t.abort(op, tr, n)
	case "nest":
		t.nest(op)
	case "edit":
		t.edit(op)
	case "cedit":
		t.cedit(op)
	case "eread":
		t.eread(op)
	case "own":
		t.ownTree(op)
	default:
		if f := opKinds[op.K]; f != nil {
			f(t, op)
			return
		}
		panic("harness: unknown operation " + op.K)
	}
}

var opKinds = map[string]func(*thr, scn.Op){}

// read performs a read and compares it with the same read done alone.
func (t *thr) read(name string, tr *tree, sr *StmtRef, n int, op scn.Op) {
	s := readStr(name, tr, n)
	h := hashOf(s)
	t.event(h)
	t.evals++
	t.probe("read-" + name)
	want, ok := sr.Ops[fmt.Sprintf("%s@%d", name, n)]
	if !ok {
		panic("harness: no reference for " + name)
	}
	if h != want {
		t.failf("read-differs", "%s of node %s of statement %d of document %d gives another result than alone\n document: %s\n%s", name, tr.name(tr.nodes[n]), op.S, op.D,
			clip(t.r.docs[op.D], 600), explainVs(t.r.docs[op.D], name, fmt.Sprintf("%d/%d", op.S%max(1, len(t.r.refs[op.D].Stmts)), n), s))
		return
	}
	if len(t.kept) < 40 && (name == "fmt" || strings.HasPrefix(name, "beau")) {
		t.kept = append(t.kept, kept{name, s, h})
	}
}
