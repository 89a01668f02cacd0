// Package zzsim is the simulator that is woven under the parser package with
// go build -overlay: preemption points, a cooperative scheduler, a step
// clock, and simulated versions of the sources of nondeterminism Go code can
// reach (map order, clock, random numbers, pools, locks).
//
// Exactly one simulated thread runs at any time; who runs next is decided
// here only. Hand-overs are hidden from the race detector, so that in a -race
// build it judges accesses by the synchronisation the code under test does,
// not by the order in which the simulator ran them.
package zzsim

import (
	"fmt"
	"runtime/debug"
	"sync/atomic"
)

// MaxThreads bounds the number of simulated threads of one run.
const MaxThreads = 1024

// Switch is one scheduling decision: thread From, at its Step-th step, hands
// over to thread To. Forced marks decisions taken because From could not go
// on (it ended or has to wait).
type Switch struct {
	From   int    `json:"from"`
	Step   uint64 `json:"step"`
	To     int    `json:"to"`
	Forced bool   `json:"forced,omitempty"`
}

// Plan says how a run is scheduled.
type Plan struct {
	// Strategy: "none" (run each thread to its end), "geo" (geometric gaps of
	// mean Mean), "points" (Points preemptions within Horizon steps), "hot"
	// (at statements touching package-level variables), "sus" (at suspect
	// statements), "hotgeo" and "susgeo" (both), "robin" (every Mean
	// steps), "ops" (only at explicit Yield calls), "explicit" (Switches),
	// "stall" (thread Stall stops at step StallAt, or after as many suspect
	// statements as Points says, until all others are done).
	Strategy string   `json:"strategy"`
	Seed     uint64   `json:"seed,omitempty"`
	Mean     uint64   `json:"mean,omitempty"`
	Points   int      `json:"points,omitempty"`
	Horizon  uint64   `json:"horizon,omitempty"`
	Stall    int      `json:"stall,omitempty"`
	StallAt  uint64   `json:"stallAt,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
}

// Result describes a finished run.
type Result struct {
	Switches   []Switch
	Steps      []uint64 // per thread
	Panics     []any    // per thread, nil if it ended normally
	Stacks     []string
	Deadlock   string // non-empty: nobody could go on
	Limit      bool   // step limit hit
	StallBlock bool   // a thread had to wait for the stalled one
	Hash       uint64 // of the interleaving
	Preempt    int    // number of unforced switches
}

const (
	stRun = iota
	stBlocked
	stDone
	stStalled
)

type thread struct {
	id    int
	ch    chan struct{}
	state int
	on    any
	steps uint64
	next  uint64
	idx   int // next entry of list
	list  []Switch
	fidx  int      // next entry of flist
	flist []Switch // forced decisions
	code  bool     // started by a go statement of the code under test
}

var (
	steps   uint64 // steps of the running thread
	next    uint64 = ^uint64(0)
	hotMask uint8  // which kinds of sites are looked at: 1 hot, 2 suspect
	cov     []uint8
	edges   []uint8
	prev    uint32
	hot     []uint8

	active  bool
	cur     *thread
	threads [MaxThreads]*thread
	nthr    int
	plan    Plan
	rng     uint64
	res     *Result
	done    chan struct{}
	limit   uint64
	total   uint64 // steps of all threads but the running one
	alltime uint64 // steps of all earlier runs
)

// Init sets the number of sites and which of them are hot, and suspect.
func Init(n int, hotSites, susSites []int) {
	cov = make([]uint8, n)
	hot = make([]uint8, n)
	for _, s := range hotSites {
		hot[s] |= 1
	}
	for _, s := range susSites {
		hot[s] |= 2
	}
}

// Edges makes runs note which statement came after which, in a map of that size.
func Edges(n int) []uint8 {
	edges = make([]uint8, n)
	for i := range hot {
		hot[i] |= 4
	}
	return edges
}

// Cov returns the sites reached so far.
func Cov() []uint8 { return cov }

// Y is the preemption point before every statement of the code under test.
//
//go:norace
func Y(site uint32) {
	steps++
	if int(site) < len(cov) {
		cov[site] = 1
		if hot[site]&hotMask != 0 {
			atHot(site)
			return
		}
	}
	if steps >= next {
		point()
	}
}

// Charge advances the clock for work done outside instrumented code.
//
//go:norace
func Charge(n int) {
	if n > 0 {
		steps += uint64(n)
	}
}

// Steps returns the steps of the running thread.
//
//go:norace
func Steps() uint64 { return steps }

// Total returns the simulated time: the steps executed in this process.
//
//go:norace
func Total() uint64 { return alltime + total + steps }

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func gap() uint64 {
	m := plan.Mean
	if m == 0 {
		m = 50
	}
	// sum of geometric-like draws without floating point: scale by a random
	// power of two, so that short and long slices both occur
	g := rnd()%(2*m) + 1
	if rnd()%8 == 0 {
		g *= 8
	}
	return g
}

// setNext computes the next point at which the running thread is looked at.
//
//go:norace
func setNext(t *thread) {
	n := ^uint64(0)
	switch plan.Strategy {
	case "geo":
		n = steps + gap()
	case "robin":
		n = steps + plan.Mean
	case "points":
		if plan.Points > 0 {
			n = steps + rnd()%(plan.Horizon+1) + 1
		}
	case "explicit":
		for t.idx < len(t.list) && t.list[t.idx].Step < steps {
			t.idx++
		}
		if t.idx < len(t.list) {
			n = t.list[t.idx].Step
		}
	case "stall":
		if t.id == plan.Stall && plan.StallAt > steps {
			n = plan.StallAt
		}
	case "hotgeo", "susgeo":
		n = steps + gap()
	}
	if limit > 0 {
		if limit <= total {
			n = 0
		} else if n > limit-total {
			n = limit - total
		}
	}
	t.next = n
	next = n
}

//go:norace
func point() {
	if !active {
		next = ^uint64(0)
		if limit > 0 && total+steps >= limit {
			limitHit()
		}
		return
	}
	t := cur
	if limit > 0 && total+steps >= limit {
		limitHit()
	}
	switch plan.Strategy {
	case "explicit":
		for t.idx < len(t.list) && t.list[t.idx].Step < steps {
			t.idx++
		}
		if t.idx < len(t.list) && t.list[t.idx].Step == steps {
			to := t.list[t.idx].To
			t.idx++
			if to < nthr && threads[to].state == stRun && to != t.id {
				switchTo(t, threads[to], false)
				return
			}
		}
	case "stall":
		if t.id == plan.Stall && steps >= plan.StallAt && t.state == stRun {
			plan.StallAt = 0
			t.state = stStalled
			if o := other(t); o != nil {
				switchTo(t, o, false)
				return
			}
			t.state = stRun
		}
	case "points":
		if plan.Points > 0 {
			plan.Points--
			if o := other(t); o != nil {
				switchTo(t, o, false)
				return
			}
		}
	default:
		if o := other(t); o != nil {
			switchTo(t, o, false)
			return
		}
	}
	setNext(t)
}

//go:norace
func atHot(site uint32) {
	if edges != nil {
		i := (prev*31 ^ site) % uint32(len(edges))
		edges[i] = 1
		prev = site
		if steps >= next {
			point()
		}
		return
	}
	if !active {
		return
	}
	t := cur
	if plan.Strategy == "stall" {
		if t.id == plan.Stall && plan.Points > 0 {
			if plan.Points--; plan.Points == 0 {
				plan.StallAt = steps + 1 + rnd()%4
				setNext(t)
				hotMask = 0
			}
		}
		if steps >= next {
			point()
		}
		return
	}
	if rnd()%3 == 0 {
		if o := other(t); o != nil {
			switchTo(t, o, false)
			return
		}
	}
	// look again right after the statement
	if rnd()%2 == 0 {
		t.next = steps + 1
		next = t.next
	} else if steps >= next {
		point()
	}
}

// LimitExceeded is the panic value a run ends with when it exceeds its step limit.
type LimitExceeded struct{ Steps uint64 }

//go:norace
func limitHit() {
	if res != nil {
		res.Limit = true
	}
	n := total + steps
	limit = n + 1_000_000 // other threads may go round for ever, too
	panic(LimitExceeded{n})
}

// other picks another runnable thread, or nil.
//
//go:norace
func other(t *thread) *thread {
	n := 0
	for i := 0; i < nthr; i++ {
		if threads[i].state == stRun && threads[i] != t {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := 0
	if plan.Strategy == "robin" {
		for d := 1; d < nthr; d++ {
			o := threads[(t.id+d)%nthr]
			if o.state == stRun {
				return o
			}
		}
	}
	if plan.Strategy != "none" && plan.Strategy != "explicit" && plan.Strategy != "stall" {
		k = int(rnd() % uint64(n))
	}
	for i := 0; i < nthr; i++ {
		if threads[i].state == stRun && threads[i] != t {
			if k == 0 {
				return threads[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func record(t, to *thread, forced bool) {
	if len(res.Switches) < 200000 {
		res.Switches = append(res.Switches, Switch{t.id, steps, to.id, forced})
	}
	h := res.Hash
	h = (h ^ uint64(t.id)<<8 ^ uint64(to.id)) * 0x100000001b3
	h = (h ^ steps) * 0x100000001b3
	res.Hash = h
	if !forced {
		res.Preempt++
	}
}

// switchTo hands the run to o and returns when t is resumed.
//
//go:norace
func switchTo(t, o *thread, forced bool) {
	record(t, o, forced)
	t.steps = steps
	total += steps
	steps = o.steps
	total -= steps
	cur = o
	setNext(o)
	raceOff()
	o.ch <- struct{}{}
	<-t.ch
	raceOn()
}

// Yield is an explicit preemption point (operation boundaries, callbacks).
//
//go:norace
func Yield() {
	steps++
	if !active {
		return
	}
	if plan.Strategy == "ops" && rnd()%2 == 0 {
		if o := other(cur); o != nil {
			switchTo(cur, o, false)
			return
		}
	}
	if steps >= next {
		point()
	}
}

// block makes the running thread wait until wake(on) is called.
//
//go:norace
func block(on any) {
	if !active {
		panic("zzsim: deadlock: waiting outside a simulated thread")
	}
	t := cur
	t.state = stBlocked
	t.on = on
	o := forcedNext(t)
	if o == nil {
		// a stalled thread may hold what everybody waits for
		for i := 0; i < nthr; i++ {
			if threads[i].state == stStalled {
				if _, ok := on.(*Once); !ok {
					res.StallBlock = true
				}
				threads[i].state = stRun
				o = threads[i]
				break
			}
		}
	}
	if o == nil {
		res.Deadlock = fmt.Sprintf("thread %d waits for %T and no other thread can run\n%s", t.id, on, debug.Stack())
		end()
		raceOff()
		select {}
	}
	switchTo(t, o, true)
}

// forcedNext picks who runs when t can't.
//
//go:norace
func forcedNext(t *thread) *thread {
	if plan.Strategy == "explicit" {
		for t.fidx < len(t.flist) && t.flist[t.fidx].Step < steps {
			t.fidx++
		}
		if t.fidx < len(t.flist) && t.flist[t.fidx].Step == steps {
			to := t.flist[t.fidx].To
			t.fidx++
			if to < nthr && threads[to].state == stRun && to != t.id {
				return threads[to]
			}
		}
	}
	return other(t)
}

//go:norace
func wake(on any) {
	for i := 0; i < nthr; i++ {
		if threads[i].state == stBlocked && threads[i].on == on {
			threads[i].state = stRun
			threads[i].on = nil
		}
	}
}

//go:norace
func end() {
	active = false
	raceOff()
	done <- struct{}{}
	raceOn()
}

//go:norace
func finish(t *thread) {
	t.state = stDone
	t.steps = steps
	res.Steps[t.id] = steps
	o := forcedNext(t)
	if o == nil {
		for i := 0; i < nthr; i++ {
			if threads[i].state == stStalled {
				threads[i].state = stRun
				o = threads[i]
				break
			}
		}
	}
	if o == nil {
		for i := 0; i < nthr; i++ {
			if threads[i].state == stBlocked {
				res.Deadlock = fmt.Sprintf("thread %d waits for %T for ever", threads[i].id, threads[i].on)
			}
		}
		end()
		return
	}
	record(t, o, true)
	total += steps
	steps = o.steps
	total -= steps
	cur = o
	setNext(o)
	raceOff()
	o.ch <- struct{}{}
	raceOn()
}

//go:norace
func park(t *thread) {
	raceOff()
	<-t.ch
	raceOn()
}

func spawn(f func(), code bool) {
	t := newThread(code)
	if t == nil {
		panic("zzsim: too many threads")
	}
	go func() {
		park(t)
		func() {
			defer func() {
				if r := recover(); r != nil {
					res.Panics[t.id] = r
					res.Stacks[t.id] = string(debug.Stack())
				}
			}()
			f()
		}()
		// a real synchronisation edge to the caller of Run
		joined.Add(1)
		finish(t)
	}()
}

//go:norace
func newThread(code bool) *thread {
	t := &thread{id: nthr, ch: make(chan struct{}, 1), code: code}
	if code {
		// in the place of one that is done, going on with its count of steps
		for i := 0; i < nthr; i++ {
			if o := threads[i]; o.code && o.state == stDone && res.Panics[i] == nil {
				t.id, t.steps = i, o.steps
				t.idx, t.list, t.fidx, t.flist = o.idx, o.list, o.fidx, o.flist
				threads[i] = t
				return t
			}
		}
	}
	if nthr >= MaxThreads {
		return nil
	}
	for _, s := range plan.Switches {
		if s.From == t.id && s.Forced {
			t.flist = append(t.flist, s)
		} else if s.From == t.id {
			t.list = append(t.list, s)
		}
	}
	threads[nthr] = t
	nthr++
	if len(res.Steps) < nthr {
		res.Steps = append(res.Steps, 0)
		res.Panics = append(res.Panics, nil)
		res.Stacks = append(res.Stacks, "")
	}
	return t
}

// joined carries the real synchronisation edges from the threads to the
// caller of Run.
var joined atomic.Uint32

// Run executes the functions as simulated threads under the plan. stepLimit
// bounds the steps of all threads together (0: none).
func Run(p Plan, stepLimit uint64, fns ...func()) *Result {
	if active {
		panic("zzsim: nested Run")
	}
	r := &Result{Hash: 0xcbf29ce484222325}
	setup(p, stepLimit, r)
	for _, f := range fns {
		spawn(f, false)
	}
	start()
	waitDone()
	teardown()
	joined.Load()
	return r
}

//go:norace
func setup(p Plan, stepLimit uint64, r *Result) {
	plan, res, limit = p, r, stepLimit
	rng = p.Seed*0x9e3779b97f4a7c15 + 1
	nthr, total = 0, 0
	alltime += steps
	steps = 0
	switch p.Strategy {
	case "hot", "hotgeo":
		hotMask = 3
	case "sus", "susgeo":
		hotMask = 2
	default:
		hotMask = 0
	}
	if p.Strategy == "stall" && p.Points > 0 {
		// after so many suspect statements
		hotMask, plan.StallAt = 2, ^uint64(0)
	}
	if prev = 0; edges != nil {
		hotMask = 4
	}
	done = make(chan struct{}, 1)
}

//go:norace
func start() {
	if plan.Strategy == "points" && plan.Horizon == 0 {
		plan.Horizon = 3000
	}
	first := 0
	if plan.Strategy != "none" && plan.Strategy != "explicit" && plan.Strategy != "stall" && nthr > 0 {
		first = int(rnd() % uint64(nthr))
	} else if plan.Strategy == "explicit" {
		for _, s := range plan.Switches {
			if s.From == -1 && s.To < nthr {
				first = s.To
			}
		}
	}
	res.Switches = append(res.Switches, Switch{-1, 0, first, true})
	cur = threads[first]
	active = true
	setNext(cur)
	raceOff()
	cur.ch <- struct{}{}
	raceOn()
}

//go:norace
func waitDone() {
	raceOff()
	<-done
	raceOn()
}

//go:norace
func teardown() {
	active = false
	hotMask = 0
	for i := 0; i < nthr; i++ {
		alltime += threads[i].steps
	}
	steps, total = 0, 0
	next = ^uint64(0)
	limit = 0
	if res.Deadlock == "" {
		for i := 0; i < nthr; i++ {
			threads[i] = nil
		}
		nthr = 0
	}
}

// Go is the go statement of the code under test.
func Go(f func()) {
	if !isActive() {
		panic("zzsim: go statement outside a simulated run")
	}
	spawn(f, true)
}

//go:norace
func isActive() bool { return active }

// ThreadID returns the running simulated thread, -1 outside a run.
//
//go:norace
func ThreadID() int {
	if !active || cur == nil {
		return -1
	}
	return cur.id
}

// NumThreads stands in for runtime.NumGoroutine: there may be others at work
// or at rest that have nothing to do with the library.
//
//go:norace
func NumThreads() int { return nthr + 1 + idle() }

//go:norace
func idle() int {
	switch h := envHash("goroutines"); h >> 8 % 4 {
	case 1:
		return int(h % 10)
	case 2:
		return int(h % 100)
	case 3:
		return int(h % 10000)
	}
	return 0
}
