package main

import (
	"strings"

	"verifsim/scn"
	"verifsim/zzsim"
)

// LibDoc is a document of the library and what the reference says of it.
type LibDoc struct {
	Kind  string `json:"kind"`
	Text  []byte `json:"text"`
	Known bool   `json:"known"` // a reference exists
	Ok    bool   `json:"ok"`    // parses
	Panic bool   `json:"panic"` // parsing it, or a read of it, panics
	Steps uint64 `json:"steps"`
	Stmts int    `json:"stmts"`
	Good  bool   `json:"good"` // parses, found out by a run of it among others
}

// docSet is some documents of the library.
type docSet struct {
	ids []int
	has []bool
}

func (d *docSet) add(i int) { d.ids, d.has[i] = append(d.ids, i), true }

func (d *docSet) all(ids []int) bool {
	for _, i := range ids {
		if !d.has[i] {
			return false
		}
	}
	return true
}

// library is what scenarios are made of.
type library struct {
	docs  []LibDoc
	ok    *docSet // those that parse
	bad   *docSet
	stmts *docSet // single statements
	good  *docSet // single statements that parse
	any   *docSet
	deep  []int         // those nested deeply, that parse
	long  []int         // those with long lists, that parse
	wrong []int         // those with a misspelt word, that don't parse
	near  [][]int       // families that differ in little
	kinds []scn.Pattern // nested constructs of the statements, for C11
	focus Focus
	fns   map[int][]int // groups of each function
	fnIDs []int
	words []string // keywords, mostly
	bias  []int    // read operations worth trying on what was picked
}

func loadLibrary(j *Job) *library {
	var docs []LibDoc
	readJSON(j.Lib, &docs)
	l := newLibrary(docs)
	if j.Focus != "" {
		readJSON(j.Focus, &l.focus)
	}
	if j.Prop == "C12" {
		seen := map[string]bool{}
		for _, i := range l.good.ids {
			for _, t := range scn.Tokens(l.text(i)) {
				if len(t) > 1 && len(t) < 24 && t[0] >= 'A' && t[0] <= 'Z' && t == strings.ToUpper(t) && !seen[t] {
					seen[t] = true
					l.words = append(l.words, t)
				}
			}
		}
		if l.words == nil {
			l.words = []string{"INTERVAL"}
		}
	}
	if j.Prop == "C11" {
		seen := map[string]int{}
		for _, i := range l.good.ids {
			if len(l.text(i)) > 2300 {
				continue
			}
			scn.Brackets(l.text(i), func(key string, f func() scn.Pattern) {
				if seen[key] >= 2 {
					return
				}
				if p := f(); len(p[1])+len(p[3]) < 200 && len(p[0])+len(p[4])+len(p[6]) < 2000 {
					seen[key]++
					l.kinds = append(l.kinds, p)
				}
			})
		}
	}
	for i, g := range l.focus.Groups {
		if l.fns[g.Fn] == nil {
			l.fnIDs = append(l.fnIDs, g.Fn)
		}
		l.fns[g.Fn] = append(l.fns[g.Fn], i)
	}
	return l
}

func newLibrary(docs []LibDoc) *library {
	set := func() *docSet { return &docSet{has: make([]bool, len(docs))} }
	l := &library{docs: docs, ok: set(), bad: set(), stmts: set(), good: set(), any: set(), fns: map[int][]int{}}
	last := ""
	for i, d := range docs {
		l.any.add(i)
		if strings.HasPrefix(d.Kind, scn.NearKind) && !(d.Known && d.Panic) {
			if d.Kind != last {
				l.near = append(l.near, nil)
			}
			last = d.Kind
			l.near[len(l.near)-1] = append(l.near[len(l.near)-1], i)
		}
		if (d.Kind == "statement" || (d.Kind == "grown" || d.Kind == "mixed" || d.Kind == "named" || d.Kind == "dual" || d.Kind == "dict") && !strings.Contains(string(d.Text), ";")) && len(d.Text) < 4000 {
			l.stmts.add(i)
			if d.Good {
				l.good.add(i)
			}
		}
		if d.Kind == "long" && d.Good {
			l.long = append(l.long, i)
		}
		if d.Known && d.Panic {
			continue
		}
		if d.Kind == "misspelt" && d.Known && !d.Ok {
			l.wrong = append(l.wrong, i)
		}
		if d.Known && d.Ok && d.Stmts > 0 {
			l.ok.add(i)
			if d.Kind == "deep" {
				l.deep = append(l.deep, i)
			}
		}
		if d.Known && !d.Ok {
			l.bad.add(i)
		}
	}
	return l
}

// pickOk picks a document that parses, at times one with a long list.
func (l *library) pickOk(r *scn.Rand, soft int, kin *int) int {
	if len(l.long) > 0 && r.P(3) {
		if i := l.pickShort(r, l.long, 2*soft); l.ok.has[i] {
			return i
		}
	}
	return l.pick(r, l.ok, soft, kin)
}

func (l *library) text(i int) string { return string(l.docs[i].Text) }

// pickShort picks from a list, long documents less often.
func (l *library) pickShort(r *scn.Rand, from []int, soft int) int {
	for k := 0; ; k++ {
		i := scn.Pick(r, from)
		if k > 20 || len(l.docs[i].Text) <= soft || r.P(7) {
			return i
		}
	}
}

// among picks a document of a list that is also in the set, or -1.
func (l *library) among(r *scn.Rand, docs []int, in *docSet, soft int) int {
	for k := 0; k < 8 && len(docs) > 0; k++ {
		i := scn.Pick(r, docs)
		if in.has[i] && (len(l.docs[i].Text) <= soft || r.P(7)) {
			return i
		}
	}
	return -1
}

// pick picks a document: any one, one that reaches some rarely reached code,
// one of the same construct as the last, or one that reaches a suspect statement.
func (l *library) pick(r *scn.Rand, in *docSet, soft int, kin *int) int {
	for _, fs := range [][]Group{l.focus.New, l.focus.Sus} {
		n := len(fs)
		if n == 0 || !r.P(35) {
			continue
		}
		for k := 0; k < 3; k++ {
			f := &fs[r.Intn(n)]
			if i := l.among(r, f.Docs, in, 2*soft); i >= 0 {
				if len(f.Ops) > 0 {
					l.bias = f.Ops
				}
				return i
			}
		}
	}
	if len(l.fnIDs) > 0 && r.P(55) {
		fn := scn.Pick(r, l.fnIDs)
		if kin != nil && *kin >= 0 && r.P(60) {
			fn = *kin
		}
		for k := 0; k < 3; k++ {
			g := l.focus.Groups[scn.Pick(r, l.fns[fn])]
			if i := l.among(r, g.Docs, in, 2*soft); i >= 0 {
				if kin != nil {
					*kin = fn
				}
				return i
			}
		}
	}
	return l.pickShort(r, in.ids, soft)
}

// readOp picks a read operation.
func (l *library) readOp(r *scn.Rand) int {
	if len(l.bias) > 0 && r.P(60) {
		return scn.Pick(r, l.bias)
	}
	return r.Intn(len(readOps))
}

// genPlan chooses how a run is scheduled.
func genPlan(r *scn.Rand, threads int, est uint64, sus bool) zzsim.Plan {
	p := zzsim.Plan{Seed: r.Uint64()}
	if threads < 2 {
		p.Strategy = "none"
		return p
	}
	if sus && r.P(40) {
		if p.Strategy = "sus"; r.P(25) {
			p.Strategy, p.Mean = "susgeo", uint64(1)<<r.Range(3, 11)
		}
		return p
	}
	switch k := r.Intn(100); {
	case k < 35:
		p.Strategy, p.Mean = "geo", uint64(1)<<r.Range(1, 11)
	case k < 55:
		p.Strategy, p.Points, p.Horizon = "points", r.Range(1, 6), est/uint64(threads)+10
	case k < 70:
		p.Strategy = "hot"
	case k < 80:
		p.Strategy, p.Mean = "hotgeo", uint64(1)<<r.Range(3, 11)
	case k < 90:
		p.Strategy, p.Mean = "robin", uint64(r.Range(1, 40))
		if r.P(30) {
			p.Mean *= 50
		}
	case k < 95:
		p.Strategy = "ops"
	default:
		p.Strategy = "none"
	}
	return p
}

func genHidden(r *scn.Rand) zzsim.Hidden {
	if r.P(15) {
		return zzsim.Hidden{Canonical: true}
	}
	h := zzsim.Hidden{MapSeed: r.Uint64(), PoolSeed: r.Uint64(), RandSeed: r.Uint64(), ClockRate: int64(1) << r.Intn(30)}
	h.PoolMiss = scn.Pick(r, []int{0, 0, 0, 10, 50, 100})
	h.Clock = scn.Pick(r, []int64{0, -1, 1, 1700000000, 2147483647, 4102444800, -62135596800, int64(r.Intn(1 << 30))})
	if r.P(10) {
		h.ClockRate = -h.ClockRate
	}
	return h
}

// useDocs puts documents into a scenario and returns their new indices.
func useDocs(s *scn.Scenario, l *library, ids ...int) []int {
	var out []int
	for _, i := range ids {
		t := l.text(i)
		k := -1
		for j, d := range s.Docs {
			if d == t {
				k = j
			}
		}
		if k < 0 {
			k = len(s.Docs)
			s.Docs = append(s.Docs, t)
		}
		out = append(out, k)
	}
	return out
}

func estimate(s *scn.Scenario) uint64 {
	n := uint64(0)
	for _, t := range s.Threads {
		n += uint64(countOps(t)) * 1500
	}
	return n
}

func genReads(r *scn.Rand, l *library, kind string, d, n int) []scn.Op {
	var ops []scn.Op
	for ; n > 0; n-- {
		o := scn.Op{K: kind, D: d, S: r.Intn(5), N: r.Skew(6), A: l.readOp(r)}
		if r.P(15) {
			o.T, o.B = "kin", r.Intn(2)
		}
		ops = append(ops, o)
	}
	return ops
}

var genProp = map[string]func(r *scn.Rand, s *scn.Scenario, l *library){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C09": genC09, "C10": genC10,
	"C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15,
}

// generate makes the scenario of a seed.
func generate(prop string, seed uint64, l *library) *scn.Scenario {
	r := scn.NewRand(scn.Mix(seed, scn.HashStr(prop)))
	s := &scn.Scenario{Prop: prop, Seed: seed, Hidden: genHidden(r)}
	l.bias = nil
	genProp[prop](r, s, l)
	if s.Plan.Strategy == "" {
		s.Plan = genPlan(r, len(s.Threads), estimate(s), len(l.focus.Sus) > 0)
	}
	encodeDocs(s)
	return s
}

func genC01(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	n := r.Range(2, 5)
	s.Class = scn.Pick(r, []string{"same", "mixed", "mixed", "errors", "pair"})
	var pool []int
	k := map[string]int{"same": 1, "pair": 2}[s.Class]
	if k == 0 {
		k = r.Range(2, 6)
	}
	if len(l.deep) > 0 && r.P(3) {
		s.Class, k = "deep", 0
		for i := r.Range(1, 4); i > 0; i-- {
			pool = append(pool, scn.Pick(r, l.deep))
		}
	}
	for ; k > 0; k-- {
		from := l.ok
		if s.Class == "errors" && r.P(80) || r.P(15) {
			from = l.bad
		}
		if from == l.bad && len(l.wrong) > 0 && r.P(25) {
			pool = append(pool, scn.Pick(r, l.wrong))
			continue
		}
		pool = append(pool, l.pick(r, from, 500, &kin))
	}
	if len(l.near) > 0 && r.P(6) {
		s.Class, pool = "near", scn.Pick(r, l.near)
	}
	if r.P(1) || r.P(1) {
		s.Class, n = "crowd", r.Range(6, 60)
		pool = pool[:min(len(pool), 2)]
		if n > 20 {
			for i := range pool {
				pool[i] = l.pick(r, l.ok, 200, &kin)
			}
		}
	}
	ids := useDocs(s, l, pool...)
	for i := 0; i < n; i++ {
		var ops []scn.Op
		for k := r.Range(1, 3); k > 0; k-- {
			d := scn.Pick(r, ids)
			ops = append(ops, scn.Op{K: "parse", D: d})
			most := 4
			if s.Class == "deep" || s.Class == "crowd" {
				most, k = 1, 1
			}
			ops = append(ops, genReads(r, l, "read", d, r.Range(0, most))...)
			switch r.Intn(8) {
			case 0:
				ops = append(ops, scn.Op{K: "again", D: d})
			case 1, 2:
				ops = append(ops, scn.Op{K: "errtext", D: d})
			case 3:
				if r.P(10) {
					ops = append(ops, scn.Op{K: "gc"})
				}
			}
		}
		s.Threads = append(s.Threads, ops)
	}
}

func genC02(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	n := r.Range(2, 5)
	s.Class = scn.Pick(r, []string{"one-tree", "one-tree", "two-trees", "one-read"})
	k := 1
	if s.Class == "two-trees" {
		k = 2
	}
	var pool []int
	if len(l.deep) > 0 && r.P(4) {
		pool = append(pool, scn.Pick(r, l.deep))
		k--
	} else if len(l.long) > 0 && r.P(4) {
		pool = append(pool, scn.Pick(r, l.long))
		k--
	}
	for ; k > 0; k-- {
		pool = append(pool, l.pick(r, l.ok, 700, &kin))
	}
	ids := useDocs(s, l, pool...)
	st, nd, op := r.Intn(5), r.Skew(6), l.readOp(r)
	if r.P(1) {
		s.Class, n = "crowd", r.Range(6, 60)
	}
	if r.P(15) {
		s.Class, nd = "kin", r.Intn(12)
	}
	for i := 0; i < n; i++ {
		var ops []scn.Op
		for k := r.Range(1, 6); k > 0; k-- {
			if s.Class == "crowd" {
				k = 1
			}
			o := scn.Op{K: "sread", D: scn.Pick(r, ids), S: st, N: nd, A: op}
			if r.P(40) {
				o.S = r.Intn(5)
			}
			if r.P(50) {
				o.N = r.Skew(6)
			}
			if s.Class != "one-read" && s.Class != "kin" || s.Class == "kin" && r.P(30) {
				o.A = l.readOp(r)
			}
			if s.Class == "kin" {
				// the two nodes of one type
				o.N, o.T, o.B = nd, "kin", r.Intn(2)
			}
			ops = append(ops, o)
		}
		s.Threads = append(s.Threads, ops)
	}
}

func genC03(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	s.Class = scn.Pick(r, []string{"repeat", "history", "history", "errors"})
	var pool []int
	for k := r.Range(1, 5); k > 0; k-- {
		from := l.ok
		if s.Class == "errors" && r.P(70) || r.P(20) {
			from = l.bad
		}
		if from == l.bad && len(l.wrong) > 0 && r.P(30) {
			pool = append(pool, scn.Pick(r, l.wrong))
			continue
		}
		pool = append(pool, l.pick(r, from, 1500, &kin))
	}
	if len(l.near) > 0 && r.P(10) {
		s.Class, pool = "near", scn.Pick(r, l.near)
	}
	if r.P(2) {
		genWrap(r, s, l)
		return
	}
	ids := useDocs(s, l, pool...)
	served := 0
	if r.P(2) {
		s.Class = "served"
		if served = r.Range(30, 500); r.P(40) {
			served = r.Range(500, 3000)
		}
		if r.P(6) {
			served = r.Range(3000, 14000)
		}
	}
	for t := r.Range(1, 2); t > 0; t-- {
		var ops []scn.Op
		for ; served > 0; served /= 2 {
			ops = append(ops, scn.Op{K: "parse", D: scn.Pick(r, ids)}, scn.Op{K: "fill", D: scn.Pick(r, ids), A: served, B: r.Intn(1 << 30)})
			if r.P(60) {
				break
			}
		}
		for k := r.Range(2, 7); k > 0; k-- {
			d := scn.Pick(r, ids)
			if s.Class == "repeat" {
				d = ids[0]
			}
			ops = append(ops, scn.Op{K: "parse", D: d})
			ops = append(ops, genReads(r, l, "read", d, r.Range(0, 5))...)
			if r.P(20) {
				ops = append(ops, scn.Op{K: "again", D: d})
			}
			if r.P(15) {
				ops = append(ops, scn.Op{K: "errtext", D: d})
			}
			if r.P(10) {
				ops = append(ops, scn.Op{K: "panicky", D: d, S: r.Intn(4), N: r.Skew(6), A: r.Intn(4), B: r.Skew(60), F: scn.Pick(r, abortFaults)})
				ops = append(ops, scn.Op{K: "parse", D: scn.Pick(r, ids)})
			}
			if r.P(4) {
				ops = append(ops, scn.Op{K: "gc"})
			}
		}
		s.Threads = append(s.Threads, ops)
	}
}

// genWrap is a process that has parsed as many documents between one document
// and one like it as make a counter come round.
func genWrap(r *scn.Rand, s *scn.Scenario, l *library) {
	s.Class = "wrap"
	around := 256
	if r.P(30) {
		around = scn.Pick(r, []int{65536, 65536, 65536, 128, 512, 1024, 4096, 32768})
	}
	var first, second []int
	kin := -1
	for k := r.Range(3, 10); k > 0; k-- {
		var ids []int
		if len(l.focus.Sus) > 0 && r.P(70) || len(l.near) == 0 {
			base := l.text(l.pick(r, l.ok, 500, &kin))
			for _, t := range scn.Fork(r, base, 4, func() string { return l.text(l.pick(r, l.ok, 500, &kin)) }) {
				if t = strings.TrimSpace(t); t != "" && len(t) < 2000 {
					s.Docs = append(s.Docs, t)
					ids = append(ids, len(s.Docs)-1)
				}
			}
		} else {
			ids = useDocs(s, l, scn.Pick(r, l.near)...)
		}
		if len(ids) > 1 {
			r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
			first, second = append(first, ids[0]), append(second, ids[1])
		}
	}
	var ops []scn.Op
	for _, d := range first {
		ops = append(ops, scn.Op{K: "parse", D: d})
	}
	ops = append(ops, scn.Op{K: "spin", A: max(0, around-len(first))})
	for _, d := range second {
		ops = append(ops, scn.Op{K: "parse", D: d})
		ops = append(ops, genReads(r, l, "read", d, r.Range(0, 2))...)
	}
	s.Threads = append(s.Threads, ops)
}

func genC04(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	s.Class = scn.Pick(r, []string{"abort", "abort", "reads"})
	var pool []int
	for k := r.Range(1, 2); k > 0; k-- {
		pool = append(pool, l.pickOk(r, 1500, &kin))
	}
	ids := useDocs(s, l, pool...)
	var ops []scn.Op
	for _, d := range ids {
		ops = append(ops, scn.Op{K: "parse", D: d})
	}
	for k := r.Range(3, 12); k > 0; k-- {
		d := scn.Pick(r, ids)
		if s.Class == "abort" && r.P(60) {
			ops = append(ops, scn.Op{K: "panicky", D: d, S: r.Intn(5), N: r.Skew(6), A: r.Intn(4), B: r.Skew(80), F: scn.Pick(r, abortFaults)})
		}
		ops = append(ops, genReads(r, l, "read", d, r.Range(1, 3))...)
		if r.P(40) {
			ops = append(ops, scn.Op{K: "errtext", D: d})
		}
	}
	s.Threads = append(s.Threads, ops)
}

// sweepDoc gives every statement of the library its turn, then random ones.
func sweepDoc(r *scn.Rand, s *scn.Scenario, l *library) int {
	if n := int(uint32(s.Seed)); n < 2*len(l.stmts.ids) { // the batch numbers its runs from 0
		return l.stmts.ids[n%len(l.stmts.ids)]
	}
	return l.pick(r, l.stmts, 4000, nil)
}

// sweepGood is sweepDoc with mostly statements that parse.
func sweepGood(r *scn.Rand, s *scn.Scenario, l *library) int {
	if len(l.good.ids) == 0 {
		return sweepDoc(r, s, l)
	}
	if n := int(uint32(s.Seed)); n < 2*len(l.good.ids) {
		return l.good.ids[n%len(l.good.ids)]
	} else if n -= 2 * len(l.good.ids); n < len(l.long) {
		return l.long[n]
	}
	if len(l.long) > 0 && r.P(3) {
		return scn.Pick(r, l.long)
	}
	if r.P(4) {
		return l.pick(r, l.stmts, 4000, nil)
	}
	return l.pick(r, l.good, 4000, nil)
}

func genC05(r *scn.Rand, s *scn.Scenario, l *library) {
	k := 1
	if r.P(15) {
		k = 2
	}
	for ; k > 0; k-- {
		d := useDocs(s, l, sweepGood(r, s, l))[0]
		var ops []scn.Op
		if r.P(12) {
			for n := r.Range(1, 6); n > 0; n-- {
				ops = append(ops, scn.Op{K: "tedit", D: d, S: r.Intn(4), A: r.Intn(1 << 16), B: r.Intn(1 << 10)})
			}
		}
		for n := r.Range(1, 3); n > 0; n-- {
			o := scn.Op{K: "vfault", D: d, S: r.Intn(4), F: "err", A: -1, B: 60}
			if r.P(20) {
				o.N = r.Intn(100)
			}
			if r.P(40) {
				o.F = "panic"
			}
			if r.P(35) {
				o.T = "gen"
			}
			if r.P(20) {
				o.A = r.Intn(1000)
			}
			ops = append(ops, o)
		}
		s.Threads = append(s.Threads, ops)
	}
	s.Class = "threads-" + string(rune('0'+len(s.Threads)))
}

func genC06(r *scn.Rand, s *scn.Scenario, l *library) {
	k := 1
	if r.P(15) {
		k = 2
	}
	for ; k > 0; k-- {
		d := useDocs(s, l, sweepGood(r, s, l))[0]
		var ops []scn.Op
		if r.P(12) {
			for n := r.Range(1, 6); n > 0; n-- {
				ops = append(ops, scn.Op{K: "tedit", D: d, S: r.Intn(4), A: r.Intn(1 << 16), B: r.Intn(1 << 10)})
			}
		}
		for _, f := range []string{"walkb", "find", "walk", "findall"} {
			if r.P(30) {
				continue
			}
			o := scn.Op{K: "wcancel", D: d, S: r.Intn(4), F: f, A: -1, B: 60}
			if r.P(20) {
				o.N = r.Intn(100)
			}
			if r.P(20) {
				o.A = r.Intn(1000)
			}
			ops = append(ops, o)
		}
		if len(ops) == 0 || ops[len(ops)-1].K == "tedit" {
			ops = append(ops, scn.Op{K: "wcancel", D: d, F: "walkb", A: -1, B: 60})
		}
		s.Threads = append(s.Threads, ops)
	}
	s.Class = "threads-" + string(rune('0'+len(s.Threads)))
}

// damage draws a fault on a document of n bytes.
func damage(r *scn.Rand, n, ndocs int) scn.Op {
	o := scn.Op{K: scn.Pick(r, []string{"cut", "flip", "flip", "zero", "lose", "lose", "repeat", "move", "stale", "garbage", "garbage", "tail"}), A: r.Intn(n + 1), B: r.Skew(40) + 1, N: r.Intn(n + 1), D: r.Intn(ndocs)}
	if r.P(10) {
		o.B = r.Skew(n+1) + 1
	}
	if r.P(5) { // whole sectors
		o.A, o.B = o.A/512*512, 512
	}
	if o.K == "garbage" {
		o.B = 0
		o.T = scn.Pick(r, []string{"'", "\"", "`", "/*", "*/", "--", ";", "(", ")", ",", "[", "{", "}", "\x00", "\\", "''", "é", "\xff", "1e", "0x", "::", "?", ":", ".", "@", "#", "!", "$", "|", "||", "^", "~", "&", "=>", "->", "<>", "9999999999999999999999",
			" NOT ", " INTERVAL ", " CASE ", " AS ", " SELECT ", " FROM ", " NULL ", " IN ", " END ", " ARRAY ", " JOIN ", " WITH ", " TRIM(", " CAST(", " GLOBAL ", "{a:", "{x}", " BETWEEN ", " SETTINGS ", " ON CLUSTER ", " CONST ", " IF NOT EXISTS ", "\n", "\r", "\t", "\u3000", "\ufeff"})
	}
	return o
}

func genDamaged(r *scn.Rand, s *scn.Scenario, l *library, check string) {
	var pool []int
	for k := r.Range(1, 2); k > 0; k-- {
		pool = append(pool, l.pick(r, l.any, 20000, nil))
	}
	if len(l.docs[pool[0]].Text) > 3000 && r.P(80) {
		pool[0] = l.pick(r, l.stmts, 4000, nil)
	}
	ids := useDocs(s, l, pool...)
	n := len(s.Docs[ids[0]])
	var ops []scn.Op
	ops = append(ops, scn.Op{K: "load", D: ids[0]})
	if r.P(30) {
		ops = append(ops, scn.Op{K: check})
	}
	for k := r.Range(1, 8); k > 0; k-- {
		if r.P(35) {
			ops = append(ops, scn.Op{K: "load", D: scn.Pick(r, ids)})
		}
		for j := 1 + r.Skew(3); j > 0; j-- {
			ops = append(ops, damage(r, n, len(s.Docs)))
		}
		ops = append(ops, scn.Op{K: check})
	}
	s.Threads = append(s.Threads, ops)
}

func genC09(r *scn.Rand, s *scn.Scenario, l *library) {
	if n := int(uint32(s.Seed)); n < len(l.stmts.ids) || r.P(3) {
		s.Class = "sweep"
		d := useDocs(s, l, sweepDoc(r, s, l))[0]
		s.Threads = append(s.Threads, []scn.Op{{K: "sweep", D: d, A: -1, F: "behind", T: scn.Pick(r, []string{"", " 1", " 'a': 1}; SELECT 2; SELECT 3", " a = b;\nSELECT 2;", "\n(1), (2);\n\nSELECT 2"})}})
		return
	}
	if r.P(35) {
		// every crash point of one document
		s.Class = "sweep"
		var ids []int
		if r.P(50) {
			ids = useDocs(s, l, sweepDoc(r, s, l), l.pick(r, l.any, 20000, nil))
		} else {
			a, b := l.text(l.pick(r, l.stmts, 4000, nil)), l.text(l.pick(r, l.stmts, 4000, nil))
			if r.P(50) {
				a = ""
			}
			t := a + scn.Pick(r, []string{";", ";\n", "; ", ";-- c\n", ";/* x */"}) + b + scn.Pick(r, []string{"", ";"})
			s.Docs = []string{t}
			ids = append([]int{0}, useDocs(s, l, l.pick(r, l.any, 20000, nil))...)
		}
		o := scn.Op{K: "sweep", D: ids[0], A: -1, B: 250, N: ids[len(ids)-1], F: scn.Pick(r, []string{"cut", "cut", "zero", "stale", "semi", "quote", "stale-token", "glue"}), T: scn.Pick(r, []string{"", " ", "\n"})}
		s.Threads = append(s.Threads, []scn.Op{o})
		return
	}
	if r.P(1) {
		// as many statements as fit
		s.Class = "many"
		a, b := scn.Pick(r, tiny), scn.Pick(r, tiny)
		sep := scn.Pick(r, []string{";", ";\n", "; ", ";;"})
		n := r.Range(100, 2000)
		if r.P(30) {
			n = r.Range(2000, maxDoc/(len(a)+len(sep)))
		}
		n = min(n, (maxDoc-2*len(b))/(len(a)+len(sep)))
		s.Docs = []string{strings.Repeat(a+sep, n) + b}
		s.Threads = append(s.Threads, []scn.Op{{K: "load"}, {K: "torn"}, damage(r, len(s.Docs[0]), 1), {K: "torn"}})
		return
	}
	s.Class = "damage"
	genDamaged(r, s, l, "torn")
}

var tiny = []string{"USE a", "SELECT 1", "DROP TABLE t", "SELECT a, b FROM t WHERE x = 'y'", "SET a = 1", "CHECK TABLE t", "SELECT 'a;b'", "USE `a;b`", "DESC t"}

func genC10(r *scn.Rand, s *scn.Scenario, l *library) {
	if r.P(12) {
		s.Class = "deep"
		kind := r.Intn(len(scn.NestKinds))
		n := r.Range(2, 400)
		if r.P(15) {
			n = r.Range(400, 8000)
		}
		p := scn.Pattern(scn.NestKinds[kind])
		if r.P(60) {
			p = scn.GrowPattern(r, l.text(sweepGood(r, s, l)))
		}
		t := p.Doc(n)
		for n > 1 && (len(t) > maxDoc || len(t)*intervals(t) > 4_000_000) {
			n = n * 3 / 4
			t = p.Doc(n)
		}
		s.Docs = []string{t}
		ops := []scn.Op{{K: "load"}, {K: "survive"}}
		for k := r.Range(0, 3); k > 0 && len(t) < 6000; k-- {
			ops = append(ops, scn.Op{K: "load"}, damage(r, len(t), 1), scn.Op{K: "survive"})
		}
		s.Threads = append(s.Threads, ops)
		return
	}
	s.Class = "damage"
	genDamaged(r, s, l, "survive")
}

func genC11(r *scn.Rand, s *scn.Scenario, l *library) {
	turn := int(uint32(s.Seed)) // the batch numbers its runs from 0
	one := func() []scn.Op {
		if turn < len(l.kinds) || r.P(45) {
			s.Class = "family"
			if len(s.Docs) == 0 {
				s.Docs = append(s.Docs, "")
			}
			p := scn.Pattern(scn.NestKinds[r.Intn(len(scn.NestKinds))])
			if r.P(80) {
				for k := 0; k < 30; k++ {
					p = scn.GrowPattern(r, l.text(sweepGood(r, s, l)))
					if len(p[1])+len(p[3]) < 200 && len(p[0])+len(p[4]) < 2000 {
						break
					}
				}
			}
			if turn < len(l.kinds) {
				p = l.kinds[turn]
			} else if r.P(30) {
				p = p.WithJunk(r)
			}
			n := r.Range(8, 60)
			if r.P(15) {
				n = r.Range(60, 600)
			}
			for d := p.Doc(4 * n); n > 8 && (len(d) > maxDoc/2 || len(d)*intervals(d) > 2_000_000); d = p.Doc(4 * n) {
				n = n*3/4 - 1
			}
			return []scn.Op{{K: "grow", T: p.String(), A: n}}
		}
		switch k := r.Intn(10); {
		case k < 5:
			n := r.Range(1, 60)
			if r.P(50) {
				n = r.Range(60, 600)
			}
			if r.P(8) {
				n = r.Range(600, 3000)
			}
			if len(s.Docs) == 0 {
				s.Docs = append(s.Docs, "")
			}
			return []scn.Op{{K: "bound", A: n, B: r.Intn(len(scn.NestKinds))}}
		case k < 7:
			return []scn.Op{{K: "bound", D: useDocs(s, l, l.pick(r, l.any, 20000, nil))[0]}}
		case k < 9:
			// a document repeated, or damaged
			d := useDocs(s, l, l.pick(r, l.stmts, 4000, nil))[0]
			return []scn.Op{{K: "load", D: d}, damage(r, len(s.Docs[d]), 1), {K: "bound", F: "buf"}}
		default:
			// two patterns in one document
			t := scn.NestDoc(r.Intn(len(scn.NestKinds)), r.Range(1, 40)) + ";" + strings.Repeat(l.text(l.pick(r, l.stmts, 4000, nil))+";", r.Range(1, 20))
			if len(t) > maxDoc {
				t = t[:maxDoc]
			}
			s.Docs = append(s.Docs, t)
			return []scn.Op{{K: "bound", D: len(s.Docs) - 1}}
		}
	}
	s.Params = map[string]int{"threads": 1}
	if turn >= len(l.kinds) && r.P(20) {
		s.Class = "cut"
		d := useDocs(s, l, sweepGood(r, s, l))[0]
		s.Threads = append(s.Threads, []scn.Op{{K: "cutbound", D: d, A: -1, B: 150, F: scn.Pick(r, []string{"cut", "cut", "drop", "double", "change", "insert", "semi", "open"})}})
		return
	}
	if turn >= len(l.kinds) && r.P(25) {
		s.Class = "stalled"
		n := r.Range(2, 4)
		s.Params["threads"] = n
		same, salt := r.P(50), 0
		if r.P(60) {
			salt = r.Range(1, 1000)
		}
		d := useDocs(s, l, l.pick(r, l.stmts, 4000, nil))[0]
		for i := 0; i < n; i++ {
			if !same {
				d = useDocs(s, l, l.pick(r, l.stmts, 4000, nil))[0]
			}
			var ops []scn.Op
			for k := r.Range(1, 3); k > 0; k-- {
				ops = append(ops, scn.Op{K: "bound", D: d, B: salt})
				if !same && r.P(50) {
					d = useDocs(s, l, l.pick(r, l.stmts, 4000, nil))[0]
				}
			}
			s.Threads = append(s.Threads, ops)
		}
		s.Plan = zzsim.Plan{Strategy: "stall", Stall: 0, StallAt: uint64(r.Range(1, 6000)), Seed: r.Uint64()}
		if r.P(50) {
			s.Plan.StallAt = uint64(r.Range(1, 400))
		} else if r.P(40) {
			s.Plan.StallAt = uint64(r.Range(1, 60000))
		}
		if len(l.focus.Sus) > 0 && r.P(40) {
			s.Plan.Points = 1 + r.Skew(100)
		}
		return
	}
	s.Class = "bound"
	s.Threads = append(s.Threads, one())
}

func genC12(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	s.Class = "log"
	last := ""
	var ops []scn.Op
	if r.P(2) {
		// a long log: what the statements leave behind adds up
		s.Class = "long-log"
		size := r.Range(1000, 60000)
		for k := r.Range(1, 3); k > 0; k-- {
			d := useDocs(s, l, sweepGood(r, s, l))[0]
			n := max(1, size/(len(s.Docs[d])+2))
			ops = append(ops, scn.Op{K: "append", D: d, T: scn.Pick(r, []string{";", ";\n", "; "}), A: n})
			size /= 3
		}
		for k := r.Range(1, 4); k > 0; k-- {
			ops = append(ops, scn.Op{K: "append", D: useDocs(s, l, l.pick(r, l.stmts, 800, &kin))[0], T: ";"})
		}
		s.Threads = append(s.Threads, append(ops, scn.Op{K: "log"}))
		return
	}
	if r.P(6) {
		// after a statement, many that use keywords as names
		s.Class = "name-log"
		ops = append(ops, scn.Op{K: "append", D: useDocs(s, l, sweepGood(r, s, l))[0], T: ";"})
		if len(s.Docs[0]) < 3000 {
			for k := r.Range(10, 40); k > 0; k-- {
				t := scn.Pick(r, nameUses)
				w := scn.Pick(r, l.words)
				if r.P(15) {
					t = scn.Rename(r, l.text(l.pickShort(r, l.good.ids, 200)), l.words)
				} else if r.P(50) {
					w = strings.ToLower(w)
				}
				if t = strings.ReplaceAll(t, "%s", w); len(t) < 500 {
					s.Docs = append(s.Docs, t)
					ops = append(ops, scn.Op{K: "append", D: len(s.Docs) - 1, T: "; ", F: "good"})
				}
			}
			s.Threads = append(s.Threads, append(ops, scn.Op{K: "log"}))
			return
		}
	}
	if r.P(25) {
		// statements that differ in little, or after some token
		n, good := r.Range(2, 5), ""
		if r.P(75) {
			n, good = n+3, "good"
		}
		var ts []string
		if s.Class = "fork-log"; r.P(30) {
			s.Class = "near-log"
			ts = scn.Near(r, l.text(sweepGood(r, s, l)), n)
		} else {
			ts = scn.Fork(r, l.text(l.pick(r, l.good, 800, &kin)), n, func() string { return l.text(l.pick(r, l.good, 800, &kin)) })
		}
		for _, t := range ts {
			if t = strings.TrimSpace(t); t != "" && len(t) < 4000 {
				s.Docs = append(s.Docs, t)
				ops = append(ops, scn.Op{K: "append", D: len(s.Docs) - 1, T: scn.Pick(r, []string{";", ";\n", "; "}), F: good})
			}
		}
		if len(ops) > 0 {
			if good == "" {
				ops = append(ops[:len(ops)/2:len(ops)/2], append([]scn.Op{{K: "log"}}, ops[len(ops)/2:]...)...)
			}
			s.Threads = append(s.Threads, append(ops, scn.Op{K: "log"}))
			return
		}
	}
	for k := r.Range(2, 7); k > 0; k-- {
		i := l.pick(r, l.stmts, 4000, nil)
		if r.P(25) {
			// a damaged statement
			t := scn.MutateTokens(r, l.text(i), l.text(l.pick(r, l.stmts, 4000, nil)))
			if r.P(30) && len(t) > 0 {
				t = t[:r.Intn(len(t))]
			}
			if t = strings.TrimSpace(t); t != "" && len(t) < 1500 {
				s.Docs = append(s.Docs, t)
				ops = append(ops, scn.Op{K: "append", D: len(s.Docs) - 1, T: scn.Sep(r)})
				ops = append(ops, scn.Op{K: "log"})
				continue
			}
		}
		if last != "" && r.P(40) {
			// a statement that begins like the last one
			t := scn.Splice(r, last, l.text(l.pick(r, l.stmts, 800, &kin)))
			if r.P(30) {
				t = scn.MutateTokens(r, last, l.text(i))
			}
			if t = strings.TrimSpace(t); t != "" && len(t) < 1500 {
				s.Docs = append(s.Docs, t)
				ops = append(ops, scn.Op{K: "append", D: len(s.Docs) - 1, T: scn.Sep(r)})
				ops = append(ops, scn.Op{K: "log"})
				if r.P(50) {
					last = t
				}
				continue
			}
		}
		d := useDocs(s, l, l.pick(r, l.stmts, 800, &kin))[0]
		last = s.Docs[d]
		ops = append(ops, scn.Op{K: "append", D: d, T: scn.Sep(r)})
		if r.P(75) {
			ops = append(ops, scn.Op{K: "log"})
		}
	}
	ops = append(ops, scn.Op{K: "log"})
	s.Threads = append(s.Threads, ops)
}

// nameUses are the places of a name.
var nameUses = []string{"SELECT %s FROM t", "SELECT a.x FROM %s", "SELECT a AS %s", "SELECT a %s FROM t", "SELECT %s(a)", "SELECT x.%s", "DROP TABLE %s", "SELECT * FROM t %s", "SELECT * FROM t AS %s",
	"INSERT INTO t (%s) VALUES (1)", "ALTER TABLE t DROP COLUMN %s", "SET %s = 1", "CREATE TABLE %s (a Int32) ENGINE = Memory", "CREATE TABLE t (%s Int32) ENGINE = Memory", "SELECT a FROM t ORDER BY %s",
	"USE %s", "GRANT SELECT ON %s TO u", "SELECT (a, %s)", "SELECT [%s]", "SELECT %s + 1", "SELECT 1 + %s", "WITH %s AS (SELECT 1) SELECT 1", "WITH 1 AS %s SELECT 1", "SELECT 1 SETTINGS %s = 1",
	"SELECT a FROM t GROUP BY %s", "SELECT a FROM t WHERE %s = 1", "SELECT a FROM d.%s", "SELECT CASE WHEN %s THEN 1 END", "SELECT f(%s)", "SELECT %s.a", "SELECT a FROM t JOIN %s USING b", "SELECT a FROM t JOIN u USING %s",
	"ALTER TABLE %s DELETE WHERE 1", "SELECT %s -> 1", "SELECT sum(a) OVER %s", "SELECT a IN %s", "CREATE VIEW %s AS SELECT 1", "DESC %s", "RENAME TABLE %s TO b", "SELECT 1 FORMAT %s"}

func genC13(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	n := r.Range(1, 4)
	s.Class = scn.Pick(r, []string{"same", "mixed"})
	var pool []int
	for k := r.Range(1, 3); k > 0; k-- {
		pool = append(pool, l.pickOk(r, 600, &kin))
	}
	if len(l.near) > 0 && r.P(6) {
		if near := scn.Pick(r, l.near); l.ok.all(near) {
			s.Class, pool = "mixed", near
		}
	}
	ids := useDocs(s, l, pool...)
	for i := 0; i < n; i++ {
		var ops []scn.Op
		d := ids[0]
		if s.Class == "mixed" {
			d = scn.Pick(r, ids)
		}
		ops = append(ops, scn.Op{K: "own", D: d})
		for k := r.Range(2, 10); k > 0; k-- {
			switch r.Intn(10) {
			case 0, 1, 2, 3:
				ops = append(ops, scn.Op{K: "eread", D: d, S: r.Intn(4), N: r.Skew(30), A: r.Intn(len(editReads))})
			case 4, 5, 6, 7:
				ops = append(ops, scn.Op{K: "edit", D: d, S: r.Intn(4), A: r.Intn(4000), B: r.Intn(60)})
				ops = append(ops, scn.Op{K: "eread", D: d, S: r.Intn(4), N: r.Skew(10), A: r.Intn(len(editReads))})
			case 8:
				if r.P(60) {
					ops = append(ops, scn.Op{K: "cedit", D: d, S: r.Intn(4), N: r.Skew(60), A: r.Intn(20), B: r.Intn(60), F: scn.Pick(r, ceditKinds)})
					continue
				}
				e := scn.Pick(r, ids)
				ops = append(ops, scn.Op{K: "own", D: e})
				if r.P(50) {
					d = e
				}
			case 9:
				if r.P(10) {
					ops = append(ops, scn.Op{K: "gc"})
				}
				ops = append(ops, scn.Op{K: "eread", D: d, S: r.Intn(4), A: r.Intn(2)})
			}
		}
		s.Threads = append(s.Threads, ops)
	}
}

func genNest(r *scn.Rand, l *library, ids []int, depth int) scn.Op {
	o := scn.Op{K: "nest", D: scn.Pick(r, ids), S: r.Intn(4), N: r.Skew(6), B: r.Skew(30), F: scn.Pick(r, nestKinds)}
	if r.P(40) {
		o.A = r.Range(1, 5)
	}
	if r.P(25) {
		o.T = "revisit"
	}
	for k := r.Range(1, 3); k > 0; k-- {
		switch {
		case depth < 3 && r.P(35):
			o.Sub = append(o.Sub, genNest(r, l, ids, depth+1))
		case r.P(60):
			o.Sub = append(o.Sub, scn.Op{K: "sread", D: scn.Pick(r, ids), S: r.Intn(4), N: r.Skew(6), A: l.readOp(r)})
		case r.P(25):
			// inner operations that fail
			d := scn.Pick(r, ids)
			o.Sub = append(o.Sub, scn.Op{K: "parse", D: d})
			if r.P(70) {
				o.Sub = append(o.Sub, scn.Op{K: "panicky", D: d, S: r.Intn(4), N: r.Skew(6), A: r.Intn(4), B: r.Skew(30), F: scn.Pick(r, abortFaults)})
			}
			o.Sub = append(o.Sub, scn.Op{K: "errtext", D: d})
		default:
			d := scn.Pick(r, ids)
			o.Sub = append(o.Sub, scn.Op{K: "parse", D: d}, scn.Op{K: "read", D: d, S: r.Intn(4), N: r.Skew(6), A: l.readOp(r)})
		}
	}
	return o
}

func genC14(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	var pool []int
	for k := r.Range(1, 2); k > 0; k-- {
		pool = append(pool, l.pickOk(r, 400, &kin))
	}
	if r.P(30) {
		pool = append(pool, l.pick(r, l.bad, 400, &kin))
	}
	ids := useDocs(s, l, pool...)
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		var ops []scn.Op
		for k := r.Range(1, 3); k > 0; k-- {
			ops = append(ops, genNest(r, l, ids, 1))
		}
		s.Threads = append(s.Threads, ops)
	}
	s.Class = "threads-" + string(rune('0'+n))
	if r.P(12) {
		s.Class += "-tower"
		for i := range s.Threads {
			o := scn.Op{K: "tower", D: scn.Pick(r, ids), S: r.Intn(4), N: r.Intn(6), A: r.Range(2, 40), B: r.Intn(1 << 20)}
			if r.P(30) {
				o.A = r.Range(40, 1200)
			}
			if r.P(50) {
				o.F = scn.Pick(r, towerKinds)
			}
			s.Threads[i] = append(s.Threads[i], o)
			if r.P(40) {
				break
			}
		}
	}
	if r.P(4) {
		// one in the other, deep
		s.Class += "-deep"
		k := scn.Pick(r, nestKinds)
		var o scn.Op
		for depth, end := 0, r.Range(6, 80); depth < end; depth++ {
			if r.P(30) {
				k = scn.Pick(r, nestKinds)
			}
			n := scn.Op{K: "nest", D: scn.Pick(r, ids), S: r.Intn(4), B: r.Skew(3), F: k, N: 0}
			if depth > 0 {
				n.Sub = []scn.Op{o}
			} else {
				n.Sub = []scn.Op{{K: "sread", D: n.D, A: l.readOp(r)}}
			}
			o = n
		}
		s.Threads[0] = append(s.Threads[0], o)
	}
}

var fmtTexts = []string{"a", "SELECT", " ", "x\ny", "\n", "\n\n", "a\n\nb\n", "", "(", ",", "é", "'a\nb'", "  lead", "tail ", "\t", "\r\n", "--c\n", "long text without any line break in it", "\x00", "x\n \ny"}

func genFmtOps(r *scn.Rand, ids []int, forms []int, n, depth, same int) []scn.Op {
	var ops []scn.Op
	for ; n > 0; n-- {
		o := scn.Op{B: scn.Pick(r, forms)}
		if same >= 0 && r.P(75) {
			o.B = same
		}
		switch k := r.Intn(100); {
		case k < 22:
			o.K, o.T = "fws", scn.Pick(r, fmtTexts)
		case k < 32:
			o.K, o.A = "fwb", int(scn.Pick(r, []byte("a \n,(\t\nx")))
		case k < 40:
			o.K = "fnl"
		case k < 47:
			o.K = "fbr"
		case k < 57:
			o.K = "find"
		case k < 66:
			o.K = "fded"
		case k < 69:
			o.K = "fbeau"
		case k < 72:
			o.K, o.T = "findent", scn.Pick(r, []string{"  ", "\t", "    ", " ", "| "})
		case k < 84:
			o.K, o.D, o.S, o.N = "fexpr", scn.Pick(r, ids), r.Intn(4), r.Intn(6)
		case k < 92 && depth < 3:
			o.K = "fcust"
			o.Sub = genFmtOps(r, ids, forms, r.Range(1, 5), depth+1, o.B)
			if r.P(35) {
				o.F, o.A = "panic", r.Intn(6)
			}
		case k < 93:
			o.K = "fnil"
		case k < 95:
			o.K, o.D, o.S, o.A = "fwpanic", scn.Pick(r, ids), r.Intn(4), r.Intn(50)
		case k < 96:
			o.K = "fnew"
		default:
			o.K = "fread"
		}
		ops = append(ops, o)
	}
	return ops
}

func genC15(r *scn.Rand, s *scn.Scenario, l *library) {
	kin := -1
	var pool []int
	for k := r.Range(1, 3); k > 0; k-- {
		pool = append(pool, l.pickOk(r, 500, &kin))
	}
	ids := useDocs(s, l, pool...)
	n := r.Range(1, 3)
	s.Params = map[string]int{"every": r.Intn(2)}
	for i := 0; i < n; i++ {
		forms := []int{0, 1, 2}[:r.Range(1, 3)]
		var ops []scn.Op
		for _, f := range forms {
			ops = append(ops, scn.Op{K: "fnew", B: f})
			if r.P(70) {
				ops = append(ops, scn.Op{K: "fbeau", B: f})
			}
		}
		ops = append(ops, genFmtOps(r, ids, forms, r.Range(4, 25), 1, -1)...)
		s.Threads = append(s.Threads, ops)
	}
	s.Class = "threads-" + string(rune('0'+n))
}
