package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
)

func init() {
	opKinds["vfault"] = vfaultOp
	opKinds["wcancel"] = wcancelOp
}

// getTree parses a document of the run once per thread.
func (t *thr) getTree(op scn.Op) (*tree, parser.Expr) {
	p := t.own[op.D]
	if p == nil {
		p = doParse(t.r.docs[op.D])
		p.enumerate()
		t.own[op.D] = p
	}
	if p.pan != nil || p.err != nil || len(p.trees) == 0 {
		t.probe("document-does-not-parse")
		return nil, nil
	}
	tr := p.trees[op.S%len(p.trees)]
	return tr, tr.nodes[op.N%len(tr.nodes)]
}

// wellFormed checks a complete traversal: balanced, visited once, before it
// is left and after all descendants.
func wellFormed(ev []string) string {
	type fr struct {
		name    string
		visited bool
	}
	var st []fr
	for i, e := range ev {
		switch e[0] {
		case 'E':
			if len(st) > 0 && st[len(st)-1].visited {
				return fmt.Sprintf("event %d: %s is entered after its parent %s was visited", i, e[1:], st[len(st)-1].name)
			}
			st = append(st, fr{e[1:], false})
		case 'V':
			if len(st) == 0 || st[len(st)-1].name != e[1:] {
				top := "nothing"
				if len(st) > 0 {
					top = st[len(st)-1].name
				}
				return fmt.Sprintf("event %d: %s is visited while the innermost entered node is %s", i, e[1:], top)
			}
			if st[len(st)-1].visited {
				return fmt.Sprintf("event %d: %s is visited twice", i, e[1:])
			}
			st[len(st)-1].visited = true
		case 'L':
			if len(st) == 0 || st[len(st)-1].name != e[1:] {
				return fmt.Sprintf("event %d: %s is left while it is not the innermost entered node", i, e[1:])
			}
			if !st[len(st)-1].visited {
				return fmt.Sprintf("event %d: %s is left without having been visited", i, e[1:])
			}
			st = st[:len(st)-1]
		}
	}
	if len(st) > 0 {
		return st[len(st)-1].name + " is entered and never left"
	}
	return ""
}

// unwind gives the events that must follow the first n events of a traversal
// that failed there: every open node left, innermost first.
func unwind(ev []string) []string {
	var open, out []string
	for _, e := range ev {
		switch e[0] {
		case 'E':
			open = append(open, e[1:])
		case 'L':
			if len(open) > 0 {
				open = open[:len(open)-1]
			}
		}
	}
	for i := len(open) - 1; i >= 0; i-- {
		out = append(out, "L"+open[i])
	}
	return out
}

type visitError struct{ n int }

func (v *visitError) Error() string {
	if v == nil {
		return "visitor failure"
	}
	return fmt.Sprintf("visitor failure %d", v.n)
}

// listError can't be compared with ==.
type listError []int

func (l listError) Error() string { return fmt.Sprint([]int(l)) }

// same tells whether both are the very same error.
func same(a any, b error) bool {
	if la, ok := a.(listError); ok {
		lb, ok := b.(listError)
		return ok && &la[0] == &lb[0]
	}
	if _, ok := b.(listError); ok {
		return false
	}
	return a == any(b)
}

// anyError is the error a callback fails with: they are the caller's, so all are alike.
func anyError(i int) error {
	switch i % 13 {
	case 1:
		return io.EOF
	case 2:
		return (*visitError)(nil)
	case 3:
		return listError{i}
	case 4:
		return fmt.Errorf("callback: %w", &visitError{i})
	case 5:
		return &parser.ParseError{}
	case 6:
		return context.Canceled
	case 7:
		return errors.Join(io.ErrUnexpectedEOF, &visitError{i})
	case 8:
		return errors.New("")
	case 9:
		return fs.SkipDir
	case 10:
		return fs.SkipAll
	}
	return &visitError{i}
}

// vfaultOp fails a visitor at callback op.A (-1: at each callback in turn; in
// runs of more than op.B callbacks at op.B of them).
func vfaultOp(t *thr, op scn.Op) {
	tr, e := t.getTree(op)
	if tr == nil {
		return
	}
	gen := op.T == "gen"
	clean := traverse(tr, e, nil, gen)
	t.evals++
	doc := clip(t.r.docs[op.D], 500)
	if clean.err != nil {
		t.failf("spurious-error", "Accept of %s returned %v though no callback failed\n document: %s", tr.name(e), clean.err, doc)
		return
	}
	if err := e.Accept(&parser.DefaultASTVisitor{}); err != nil {
		t.failf("spurious-error", "Accept of %s returned %v with a visitor that does nothing\n document: %s", tr.name(e), err, doc)
		return
	}
	if w := wellFormed(clean.events); w != "" {
		t.failf("traversal-order", "%s\n document: %s\n events: %s", w, doc, clip(strings.Join(clean.events, " "), 3000))
		return
	}
	t.event(strings.Join(clean.events, " "))
	var at []int
	if op.A >= 0 {
		at = []int{op.A % len(clean.events)}
	} else {
		for i, ev := range clean.events {
			if op.F == "err" && ev[0] != 'V' {
				continue
			}
			at = append(at, i)
		}
		if op.B > 0 && len(at) > op.B {
			r := scn.NewRand(scn.Mix(uint64(op.B), uint64(len(at)), t.r.s.Seed))
			r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
			at = at[:op.B]
		}
	}
	for _, i := range at {
		if op.F == "err" && clean.events[i][0] != 'V' {
			continue
		}
		f := &vfault{at: i, kind: op.F, err: anyError(i + len(clean.events))}
		if rest := unwind(clean.events[:i+1]); i%5 == 3 && len(rest) > 1 && clean.events[i][0] == 'V' {
			// a Leave that panics while the traversal unwinds
			f.then, f.wait = &visitError{-i}, 1+i%(len(rest)-1)
			t.fault("leave-panic-after-" + op.F)
		}
		tv := traverse(tr, e, f, gen)
		t.evals++
		t.fault("visitor-" + op.F + "-" + string(clean.events[i][0]))
		t.probe("fault-at-" + clean.types[i])
		bad := ""
		rest := unwind(clean.events[:i+1])
		// a node whose Leave panics has been left as far as the library is concerned
		want := append(append([]string{}, clean.events[:i+1]...), rest...)
		got := tv.events
		if f.kind == "panic" && clean.events[i][0] == 'E' {
			// the failing Enter itself: whether the node counts as entered is
			// the callback's business, so its Leave may or may not follow
			alt := append(append([]string{}, clean.events[:i+1]...), rest[1:]...)
			if strings.Join(got, " ") == strings.Join(alt, " ") {
				want = alt
			}
		}
		switch {
		case len(got) <= i || strings.Join(got[:i+1], " ") != strings.Join(clean.events[:i+1], " "):
			bad = "the callbacks before the failure differ from those of a run without failure"
		case strings.Join(got, " ") != strings.Join(want, " "):
			bad = "the callbacks after the failure are not exactly the Leaves of the open nodes, innermost first"
		case f.then != nil:
			if !same(tv.pan, f.then) {
				bad = fmt.Sprintf("the panic of a Leave during the unwinding did not reach the caller (got %v, error %v)", tv.pan, tv.err)
			}
		case f.kind == "err" && !same(tv.err, f.err):
			bad = fmt.Sprintf("the visitor's error did not come back unchanged: got %T %v", tv.err, tv.err)
			if errors.Is(tv.err, f.err) {
				bad += " (wrapped)"
			}
		case f.kind == "panic" && !same(tv.pan, f.err):
			bad = fmt.Sprintf("the visitor's panic did not reach the caller (got %v, error %v)", tv.pan, tv.err)
		}
		if bad != "" {
			if i+12 < len(got) {
				got = got[:i+12]
			}
			t.failf("visitor-failure", "%s\n document: %s\n visitor fails (%s) at callback %d, %s\n callbacks then: %s\n expected:       %s", bad, doc, op.F, i, clean.events[i],
				clip(strings.Join(tail(got, i), " "), 1500), clip(strings.Join(tail(want, i), " "), 1500))
			t.refine(op, i)
			return
		}
	}
	// once more without failure: an aborted traversal leaves nothing behind
	if again := traverse(tr, e, nil, gen); strings.Join(again.events, " ") != strings.Join(clean.events, " ") || again.err != nil {
		t.failf("traversal-state", "a traversal after failed ones differs from the first\n document: %s", doc)
	}
}

func tail(ev []string, i int) []string {
	if i > 3 {
		return ev[min(i-3, len(ev)):]
	}
	return ev
}

// refine notes the concrete fault index in the scenario.
func (t *thr) refine(op scn.Op, at int) {
	if op.A >= 0 {
		return
	}
	c := op
	c.A = at
	t.r.refined = append(t.r.refined, c)
}

// wcancelOp cancels a walk or search at callback op.A (-1: each in turn).
func wcancelOp(t *thr, op scn.Op) {
	tr, e := t.getTree(op)
	if tr == nil {
		return
	}
	doc := clip(t.r.docs[op.D], 500)
	var clean []parser.Expr
	var names []string
	full := parser.Walk(e, func(n parser.Expr) bool {
		tick()
		clean = append(clean, n)
		names = append(names, tr.name(n))
		return true
	})
	_ = full
	t.event(strings.Join(names, " "))
	var wb []string
	if !parser.WalkWithBreak(e, func(n parser.Expr) bool { tick(); wb = append(wb, tr.name(n)); return true }) {
		t.failf("walk-cancel", "WalkWithBreak reported a stop although no callback asked for one\n document: %s", doc)
		return
	}
	if strings.Join(wb, " ") != strings.Join(names, " ") {
		t.failf("walk-cancel", "the breakable walk, never stopped, doesn't make the callbacks of the plain walk\n document: %s\n %s", doc, diffAt(strings.Join(wb, " "), strings.Join(names, " ")))
		return
	}
	t.evals += 2
	var at []int
	if op.A >= 0 {
		at = []int{op.A % len(clean)}
	} else {
		for i := range clean {
			at = append(at, i)
		}
		if op.B > 0 && len(at) > op.B {
			r := scn.NewRand(scn.Mix(uint64(op.B), uint64(len(at)), t.r.s.Seed))
			r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
			at = at[:op.B]
		}
	}
	for _, i := range at {
		var got []string
		n := 0
		stop := func(x parser.Expr) bool {
			tick()
			got = append(got, tr.name(x))
			n++
			return n-1 != i
		}
		bad := ""
		prefix := strings.Join(names[:i+1], " ")
		t.evals++
		t.probe("fault-at-" + typeName(clean[i]))
		switch op.F {
		case "walkb":
			t.fault("cancel-walk")
			r := parser.WalkWithBreak(e, stop)
			switch {
			case len(got) > i+1:
				bad = "the callback was called again after it had returned false"
			case strings.Join(got, " ") != prefix:
				bad = "the callbacks until the stop are not the leading part of the uncancelled walk"
			case r:
				bad = "WalkWithBreak did not report that it stopped"
			}
		case "find":
			t.fault("search-hit")
			x, ok := parser.Find(e, func(x parser.Expr) bool { return !stop(x) })
			switch {
			case len(got) > i+1:
				bad = "the predicate was called again after it had matched"
			case strings.Join(got, " ") != prefix:
				bad = "the predicate calls until the match are not the leading part of the walk"
			case !ok || x == nil || keyOf(x) != keyOf(clean[i]):
				bad = fmt.Sprintf("Find returned %s, %v instead of the matching node", tr.name(x), ok)
			}
		case "walk":
			t.fault("cancel-subtree")
			parser.Walk(e, stop)
			switch {
			case len(got) < i+1 || strings.Join(got[:i+1], " ") != prefix:
				bad = "the callbacks until the false are not the leading part of the walk"
			default:
				from, isNode := tr.ord[keyOf(clean[i])]
				k := i + 1
				for _, g := range got[i+1:] {
					for k < len(names) && names[k] != g {
						k++
					}
					if k == len(names) {
						bad = "after a false, the walk made a callback out of order: " + g
						break
					}
					if o, ok := tr.ord[keyOf(clean[k])]; ok && isNode && tr.under(o, from) {
						bad = "after a false for " + names[i] + ", the walk visited its descendant " + g
						break
					}
					k++
				}
			}
		case "findall":
			t.fault("search-some")
			// match a pseudo-random subset
			match := func(k int) bool { return scn.Mix(uint64(i), uint64(k))%3 == 0 || k == i }
			k := 0
			ms := parser.FindAll(e, func(x parser.Expr) bool { tick(); got = append(got, tr.name(x)); k++; return match(k - 1) })
			var want []string
			for j := range names {
				if match(j) {
					want = append(want, names[j])
				}
			}
			var have []string
			for _, m := range ms {
				have = append(have, tr.name(m))
			}
			if strings.Join(got, " ") != strings.Join(names, " ") {
				bad = "FindAll did not offer exactly the nodes of the walk to the predicate"
			} else if strings.Join(have, " ") != strings.Join(want, " ") {
				bad = "FindAll did not return exactly the matching nodes, each once, in walk order: " + diffAt(strings.Join(have, " "), strings.Join(want, " "))
			}
		default:
			panic("harness: unknown walk " + op.F)
		}
		if bad != "" {
			t.failf("walk-cancel", "%s: %s\n document: %s\n cancelled at callback %d, %s\n callbacks from there: %s", op.F, bad, doc, i, names[i], clip(strings.Join(tail(got, i), " "), 1500))
			t.refine(op, i)
			return
		}
	}
	// cancelled walks leave nothing behind
	var again []string
	parser.Walk(e, func(n parser.Expr) bool { tick(); again = append(again, tr.name(n)); return true })
	if strings.Join(again, " ") != strings.Join(names, " ") {
		t.failf("walk-state", "a walk after cancelled ones differs from the first\n document: %s", doc)
	}
}
