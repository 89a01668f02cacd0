package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
)

// nest performs an outer operation on a shared or own tree and runs op.Sub
// inside its callbacks: at callback number op.B and then at every
// op.A-th further one (op.A = 0: only once). The outer result must be what
// the outer operation gives alone.
func (t *thr) nest(op scn.Op) {
	r := t.r
	var p *parsed
	if op.T == "own" {
		p = t.own[op.D]
	} else if op.D < len(r.shared) {
		p = r.shared[op.D]
	}
	tr, sr, n := pick(p, r.refs[op.D], op)
	if tr == nil || t.depth > 100 {
		return
	}
	e := tr.nodes[n]
	count, ran := 0, 0
	inner := func() {
		i := count
		count++
		if i == op.B || op.A > 0 && i > op.B && (i-op.B)%op.A == 0 && ran < 5 && t.depth < 3 {
			ran++
			t.depth++
			for _, s := range op.Sub {
				if t.fail == nil {
					t.do(s)
				}
			}
			t.depth--
		}
		tick()
	}
	check := func(name, got string) {
		if ran > 0 {
			t.fault("reentry-" + op.F)
		} else {
			t.probe("fault-not-reached")
		}
		t.evals++
		t.event(got)
		if t.fail == nil && hashOf(got) != sr.Ops[fmt.Sprintf("%s@%d", name, n)] {
			t.failf("outer-differs", "%s of node %s of document %d, with library calls made inside its callbacks, gives another result than alone\n document: %s\n%s", name, tr.name(e), op.D,
				clip(r.docs[op.D], 600), explainVs(r.docs[op.D], name, fmt.Sprintf("%d/%d", op.S%max(1, len(r.refs[op.D].Stmts)), n), got))
		}
	}
	switch op.F {
	case "walk":
		var b strings.Builder
		res := parser.Walk(e, func(x parser.Expr) bool { b.WriteString(tr.name(x)); b.WriteByte(' '); inner(); return true })
		fmt.Fprint(&b, res)
		check("walk", b.String())
	case "walkb":
		var b strings.Builder
		res := parser.WalkWithBreak(e, func(x parser.Expr) bool { inner(); b.WriteString(tr.name(x)); b.WriteByte(' '); return true })
		fmt.Fprint(&b, res)
		check("walkb", b.String())
	case "find":
		var b strings.Builder
		for _, want := range []string{"Ident", "StringLiteral", "NumberLiteral", "FunctionExpr", "NoSuchNode"} {
			x, ok := parser.Find(e, func(x parser.Expr) bool { inner(); return typeName(x) == want })
			fmt.Fprintf(&b, "%s=%s,%v ", want, tr.name(x), ok)
		}
		check("find", b.String())
	case "findall":
		var b strings.Builder
		for _, want := range []string{"Ident", "NumberLiteral", "ColumnExpr"} {
			for _, x := range parser.FindAll(e, func(x parser.Expr) bool { inner(); return typeName(x) == want }) {
				b.WriteString(tr.name(x))
				b.WriteByte(' ')
			}
			b.WriteByte('|')
		}
		check("findall", b.String())
	case "visit", "enter", "leave":
		var ev, again []string
		v := &callVisitor{}
		busy := false
		type revisit struct {
			node string
			ev   []string
		}
		var re []revisit
		on := func(k string, x parser.Expr) {
			if busy {
				again = append(again, k+tr.name(x))
				return
			}
			ev = append(ev, k+tr.name(x))
			if k != map[string]string{"visit": "V", "enter": "E", "leave": "L"}[op.F] {
				return
			}
			if op.T == "revisit" && len(re) < 150 && t.depth < 2 {
				// the part below this node again, with the same visitor
				busy, again = true, nil
				if err := x.Accept(v); err != nil {
					t.failf("inner-differs", "Accept of node %s from inside a callback for it returned %v though no callback failed", tr.name(x), err)
				}
				busy = false
				re = append(re, revisit{tr.name(x), again})
				t.fault("revisit-" + op.F)
			}
			inner()
		}
		v.enter = func(x parser.Expr) { on("E", x) }
		v.leave = func(x parser.Expr) { on("L", x) }
		v.Visit = func(x parser.Expr) error { on("V", x); return nil }
		if err := e.Accept(v); err != nil {
			t.failf("outer-differs", "Accept of node %s of document %d returned %v though no callback failed", tr.name(e), op.D, err)
		}
		check("accept", strings.Join(ev, " "))
		at := map[string]int{}
		for i, e := range ev {
			at[e] = i
		}
		for _, r := range re {
			from, ok := at["E"+r.node]
			if to := at["L"+r.node]; t.fail == nil && ok && strings.Join(r.ev, " ") != strings.Join(ev[from:to+1], " ") {
				t.failf("inner-differs", "the same visitor, sent over node %s once more from inside its callback (%s), gets other callbacks than from the traversal around it\n document: %s\n%s", r.node, op.F,
					clip(t.r.docs[op.D], 600), diffAt(strings.Join(r.ev, " "), strings.Join(ev[from:to+1], " ")))
			}
		}
	case "format", "beautify":
		// a custom expression in the tree whose rendering uses the library;
		// it needs a tree of its own, because it changes the tree
		mine := doParse(r.docs[op.D])
		mine.enumerate()
		if mine.pan != nil || len(mine.trees) != len(p.trees) {
			t.failf("parse-differs", "parsing document %d again inside a run gives another result%s", op.D, r.explainParse(op.D, mine.String()))
			return
		}
		root := mine.stmts[op.S%len(mine.stmts)]
		slots := exprSlots(root)
		if len(slots) == 0 {
			return
		}
		slot := slots[op.B%len(slots)]
		w := &wrapExpr{Expr: slot.Interface().(parser.Expr), hook: func(string) {}}
		slot.Set(reflect.ValueOf(parser.Expr(w)))
		render := func() string {
			f := parser.NewFormatter()
			if op.F == "beautify" {
				f.WithBeautify()
			}
			f.WriteExpr(root)
			return f.String()
		}
		passive := render()
		busy := false
		w.hook = func(what string) {
			tick()
			if busy || what == "Pos" || what == "End" || ran >= 3 || ran >= 1 && t.depth > 2 {
				return
			}
			busy = true
			ran++
			t.depth++
			for _, s := range op.Sub {
				if t.fail == nil {
					t.do(s)
				}
			}
			// and the same tree again, from inside
			if op.A%2 == 1 && t.fail == nil {
				if got := render(); got != passive {
					t.failf("inner-differs", "rendering a tree from inside the rendering of the same tree gives another text\n%s", diffAt(got, passive))
				}
			}
			t.depth--
			busy = false
		}
		got := render()
		w.hook = func(string) {}
		t.evals++
		t.event(got)
		if ran > 0 {
			t.fault("reentry-" + op.F)
		}
		if t.fail == nil && got != passive {
			t.failf("outer-differs", "%s of document %d, with library calls made by an expression in it, gives another text than without\n%s", op.F, op.D, diffAt(got, passive))
		}
	default:
		panic("harness: unknown outer operation " + op.F)
	}
}

var nestKinds = []string{"walk", "walkb", "find", "findall", "visit", "enter", "leave", "format", "beautify"}
