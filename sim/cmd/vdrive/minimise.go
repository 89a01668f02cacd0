package main

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"sync"
	"time"

	"verifsim/scn"
	"verifsim/zzsim"
)

// The minimiser: every candidate runs in a fresh process; a candidate is kept
// if it violates in the same class.

type minimiser struct {
	b     *build
	refs  string
	class string
	stop  time.Time
	tries int
	err   error
}

// good executes candidates in parallel and returns the first that still fails.
func (m *minimiser) good(cs ...[]*scn.Scenario) ([]*scn.Scenario, *scn.Outcome) {
	return m.goodOf(len(cs), func(i int) []*scn.Scenario { return cs[i] })
}

// goodOf is good for candidates made when their turn comes.
func (m *minimiser) goodOf(total int, make_ func(i int) []*scn.Scenario) ([]*scn.Scenario, *scn.Outcome) {
	for from := 0; from < total && time.Now().Before(m.stop) && m.err == nil; from += 8 {
		n := min(8, total-from)
		var cs [][]*scn.Scenario
		for i := from; i < from+n; i++ {
			cs = append(cs, make_(i))
		}
		outs := make([]*scn.Outcome, n)
		var mu sync.Mutex
		parallel(n, n, func(i int) bool {
			o, err := m.b.exec(m.refs, cs[i]...)
			mu.Lock()
			defer mu.Unlock()
			m.tries++
			if err != nil {
				return true // a candidate that can't run is no candidate
			}
			outs[i] = o
			return true
		})
		for i, o := range outs {
			if o != nil && o.Violation != nil && o.Violation.Class == m.class {
				return cs[i], o
			}
		}
	}
	return nil, nil
}

func deepCopy(s *scn.Scenario) *scn.Scenario {
	b, _ := json.Marshal(s)
	c := &scn.Scenario{}
	_ = json.Unmarshal(b, c)
	return c
}

// minimise shrinks a failing list of scenarios (history first).
func (m *minimiser) minimise(ss []*scn.Scenario, o *scn.Outcome) ([]*scn.Scenario, *scn.Outcome) {
	// less history
	for size := (len(ss) + 1) / 2; size >= 1 && len(ss) > 1; {
		var cs [][]*scn.Scenario
		for i := 0; i < len(ss)-1; i += size {
			var c []*scn.Scenario
			c = append(c, ss[:i]...)
			c = append(c, ss[min(i+size, len(ss)-1):]...)
			cs = append(cs, c)
		}
		if g, go_ := m.good(cs...); g != nil {
			ss, o = g, go_
			size = min(size, max(1, (len(ss)+1)/2))
			continue
		}
		size /= 2
	}
	hist, last := ss[:len(ss)-1], ss[len(ss)-1]
	with := func(s *scn.Scenario) []*scn.Scenario {
		return append(append([]*scn.Scenario{}, hist...), s)
	}
	if o.Refined != nil {
		if g, go_ := m.good(with(o.Refined)); g != nil {
			last, o = g[len(g)-1], go_
		}
	}
	if len(last.Threads) > 1 || last.Plan.Strategy != "none" {
		c := deepCopy(last)
		c.Plan = zzsim.Plan{Strategy: "none"}
		e := deepCopy(last)
		e.Plan = zzsim.Plan{Strategy: "explicit", Switches: o.Switches}
		if last.Plan.Strategy == "stall" {
			e = c
		}
		if g, go_ := m.good(with(c), with(e)); g != nil {
			last, o = g[len(g)-1], go_
		}
	}
	// take tries candidates of the last scenario in order
	take := func(cs []*scn.Scenario) bool {
		var l [][]*scn.Scenario
		for _, c := range cs {
			l = append(l, with(c))
			if c.Plan.Strategy == "explicit" {
				// the switches may lie elsewhere in the smaller run
				for k := uint64(1); k <= 2; k++ {
					d := deepCopy(c)
					d.Plan = zzsim.Plan{Strategy: "points", Points: 2, Horizon: 2000, Seed: last.Seed*7 + k}
					if k == 2 {
						d.Plan = zzsim.Plan{Strategy: "geo", Mean: 64, Seed: last.Seed}
					}
					l = append(l, with(d))
				}
			}
		}
		g, go_ := m.good(l...)
		if g == nil {
			return false
		}
		last, o = g[len(g)-1], go_
		if s := last.Plan.Strategy; s == "points" || s == "geo" {
			e := deepCopy(last)
			e.Plan = zzsim.Plan{Strategy: "explicit", Switches: o.Switches}
			if g, go_ := m.good(with(e)); g != nil {
				last, o = g[len(g)-1], go_
			}
		}
		return true
	}
	for round := 0; round < 4; round++ {
		changed := false
		// threads
		for again := true; again && len(last.Threads) > 1 && time.Now().Before(m.stop); {
			var cs []*scn.Scenario
			for i := range last.Threads {
				if len(last.Threads[i]) == 0 {
					continue
				}
				c := deepCopy(last)
				c.Threads[i] = nil // keeps the numbers of the others
				if i == len(c.Threads)-1 {
					c.Threads = c.Threads[:i]
				}
				cs = append(cs, c)
			}
			again = take(cs)
			changed = changed || again
		}
		// operations
		for t := 0; t < len(last.Threads); t++ {
			for size := len(last.Threads[t]); size >= 1 && time.Now().Before(m.stop); {
				var cs []*scn.Scenario
				for i := 0; i < len(last.Threads[t]); i += size {
					c := deepCopy(last)
					ops := c.Threads[t]
					c.Threads[t] = append(append([]scn.Op{}, ops[:i]...), ops[min(i+size, len(ops)):]...)
					if len(c.Threads) == 1 && len(c.Threads[0]) == 0 {
						continue
					}
					cs = append(cs, c)
				}
				if len(cs) > 0 && take(cs) {
					changed = true
					size = min(size, len(last.Threads[t]))
					continue
				}
				size /= 2
			}
		}
		// nested operations
		for again := true; again && time.Now().Before(m.stop); {
			var cs []*scn.Scenario
			for t := range last.Threads {
				for i := range last.Threads[t] {
					subs(last, t, i, func(c *scn.Scenario) { cs = append(cs, c) })
				}
			}
			again = len(cs) > 0 && take(cs)
			changed = changed || again
		}
		// switches
		if last.Plan.Strategy == "explicit" {
			for size := len(last.Plan.Switches); size >= 1; {
				if time.Now().After(m.stop) {
					break
				}
				sw := last.Plan.Switches
				if g, go_ := m.goodOf((len(sw)+size-1)/size, func(k int) []*scn.Scenario {
					c := *last
					c.Plan.Switches = append(append([]zzsim.Switch{}, sw[:k*size]...), sw[min(k*size+size, len(sw)):]...)
					return with(&c)
				}); g != nil {
					last, o = g[len(g)-1], go_
					size = min(size, max(1, len(last.Plan.Switches)))
					changed = true
					if len(last.Plan.Switches) == 0 {
						break
					}
					continue
				}
				size /= 2
			}
		}
		// hidden randomness, parameters
		for t := range last.Threads {
			for i := range last.Threads[t] {
				for strings.Contains("fill tower append", last.Threads[t][i].K) && last.Threads[t][i].A > 1 {
					c := deepCopy(last)
					c.Threads[t][i].A /= 2
					if !take([]*scn.Scenario{c}) {
						break
					}
					changed = true
				}
			}
		}
		if last.Init != 0 {
			c := deepCopy(last)
			c.Init = 0
			take([]*scn.Scenario{c})
		}
		if !last.Hidden.Canonical {
			c := deepCopy(last)
			c.Hidden = zzsim.Hidden{Canonical: true}
			take([]*scn.Scenario{c})
		}
		// documents
		if m.shrinkDocs(&last, take) {
			changed = true
		}
		if !changed || time.Now().After(m.stop) {
			break
		}
	}
	// a last execution gives the outcome that is reported
	if fin, err := m.b.exec(m.refs, with(last)...); err == nil && fin.Violation != nil && fin.Violation.Class == m.class {
		o = fin
	}
	return with(last), o
}

// subs makes candidates without one nested operation, and with a nested
// operation in place of its parent.
func subs(s *scn.Scenario, t, i int, f func(*scn.Scenario)) {
	var walk func(path []int, op *scn.Op)
	at := func(c *scn.Scenario, path []int) *scn.Op {
		op := &c.Threads[t][i]
		for _, k := range path {
			op = &op.Sub[k]
		}
		return op
	}
	walk = func(path []int, op *scn.Op) {
		for k := range op.Sub {
			c := deepCopy(s)
			p := at(c, path)
			p.Sub = append(append([]scn.Op{}, p.Sub[:k]...), p.Sub[k+1:]...)
			f(c)
			c = deepCopy(s)
			p = at(c, path)
			if p.Sub[k].K == "nest" && p.K == "nest" {
				*p = p.Sub[k]
				f(c)
			}
			walk(append(append([]int{}, path...), k), &op.Sub[k])
		}
	}
	walk(nil, &s.Threads[t][i])
}

func docText(s *scn.Scenario, i int) string {
	for _, k := range s.B64 {
		if k == i {
			b, _ := base64.StdEncoding.DecodeString(s.Docs[i])
			return string(b)
		}
	}
	return s.Docs[i]
}

func setDoc(s *scn.Scenario, i int, text string) *scn.Scenario {
	c := deepCopy(s)
	for k := range c.B64 {
		if c.B64[k] == i {
			c.Docs[i] = base64.StdEncoding.EncodeToString([]byte(text))
			return c
		}
	}
	c.Docs[i] = text
	return c
}

// shrinkDocs drops tokens of the documents.
func (m *minimiser) shrinkDocs(last **scn.Scenario, take func([]*scn.Scenario) bool) bool {
	changed := false
	for d := range (*last).Docs {
		toks := scn.Tokens(docText(*last, d))
		for size := (len(toks) + 1) / 2; size >= 1 && time.Now().Before(m.stop); {
			var cs []*scn.Scenario
			for i := 0; i < len(toks); i += size {
				t := ""
				for k, x := range toks {
					if k < i || k >= i+size {
						t += x
					}
				}
				cs = append(cs, setDoc(*last, d, t))
			}
			if len(cs) > 0 && take(cs) {
				toks = scn.Tokens(docText(*last, d))
				size = min(size, max(1, len(toks)))
				changed = true
				if len(toks) == 0 {
					break
				}
				continue
			}
			size /= 2
		}
	}
	return changed
}
