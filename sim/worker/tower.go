package main

import (
	"fmt"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
)

func init() { opKinds["tower"] = (*thr).tower }

var towerKinds = []string{"fmt", "beau0", "fmtw", "walk", "walkb", "find", "findall", "accept", "gaccept", "transform"}

// callExpr is a caller's own expression that runs something first and then
// renders as the expression it holds.
type callExpr struct {
	parser.Expr
	first func()
}

func (c *callExpr) FormatSQL(f *parser.Formatter) {
	c.first()
	f.WriteExpr(c.Expr)
}

// tower makes op.A calls of the library, each from inside a callback of the one
// before, and checks what each of them gives. op.F names the call; "" is a
// different one at each level.
func (t *thr) tower(op scn.Op) {
	var p *parsed
	if op.D < len(t.r.shared) {
		p = t.r.shared[op.D]
	}
	tr, sr, n := pick(p, t.r.refs[op.D], op)
	if tr == nil {
		return
	}
	e := tr.nodes[n]
	levels := min(op.A, 1+20000/len(tr.nodes))
	var level func(k int)
	level = func(k int) {
		if k == 0 || t.fail != nil {
			return
		}
		kind := op.F
		if kind == "" {
			kind = towerKinds[scn.Mix(uint64(op.B), uint64(k))%uint64(len(towerKinds))]
		}
		// which callback goes on; if there are fewer, the call comes after
		at, count := int(scn.Mix(uint64(op.B), uint64(k), 7)%4), 0
		cb := func() {
			if count == at {
				level(k - 1)
			}
			count++
			tick()
		}
		var b strings.Builder
		switch kind {
		case "fmt":
			at = 0
			b.WriteString(parser.Format(&callExpr{e, cb}))
		case "beau0":
			at = 0
			f := parser.NewFormatter().WithBeautify().WithIndent(indents[0])
			f.WriteExpr(&callExpr{e, cb})
			b.WriteString(f.String())
		case "fmtw":
			at %= 2
			f := parser.NewFormatter()
			f.WithBeautify()
			f.WriteString("x\n")
			f.Indent()
			f.WriteExpr(&callExpr{e, cb})
			f.Dedent()
			f.NewLine()
			f.WriteExpr(&callExpr{e, cb})
			b.WriteString(f.String())
		case "walk":
			r := parser.Walk(e, func(n parser.Expr) bool { cb(); b.WriteString(tr.name(n)); b.WriteByte(' '); return true })
			fmt.Fprint(&b, r)
		case "walkb":
			r := parser.WalkWithBreak(e, func(n parser.Expr) bool { cb(); b.WriteString(tr.name(n)); b.WriteByte(' '); return true })
			fmt.Fprint(&b, r)
		case "find":
			for _, want := range []string{"Ident", "StringLiteral", "NumberLiteral", "FunctionExpr", "NoSuchNode"} {
				n, ok := parser.Find(e, func(n parser.Expr) bool { cb(); return typeName(n) == want })
				fmt.Fprintf(&b, "%s=%s,%v ", want, tr.name(n), ok)
			}
		case "findall":
			for _, want := range []string{"Ident", "NumberLiteral", "ColumnExpr"} {
				for _, n := range parser.FindAll(e, func(n parser.Expr) bool { cb(); return typeName(n) == want }) {
					b.WriteString(tr.name(n))
					b.WriteByte(' ')
				}
				b.WriteByte('|')
			}
		case "accept", "gaccept":
			var ev []string
			on := func(k string, x parser.Expr) error { ev = append(ev, k+tr.name(x)); cb(); return nil }
			enter := func(x parser.Expr) { _ = on("E", x) }
			leave := func(x parser.Expr) { _ = on("L", x) }
			var err error
			if kind == "gaccept" {
				err = e.Accept(newGenVisitor(func(m string, x parser.Expr) error { return on("V", x) }, enter, leave))
			} else {
				v := &callVisitor{enter: enter, leave: leave}
				v.Visit = func(x parser.Expr) error { return on("V", x) }
				err = e.Accept(v)
			}
			if err != nil {
				t.failf("inner-differs", "Accept of node %s, %d levels down, returned %v though no callback failed", tr.name(e), levels-k, err)
			}
			b.WriteString(strings.Join(ev, " "))
		case "transform":
			at = 0
			r := parser.Transform(e, func(n parser.Expr) parser.Expr { cb(); b.WriteString(tr.name(n) + " "); return n })
			b.WriteString("-> " + tr.name(r))
		default:
			panic("harness: unknown call " + kind)
		}
		if count <= at {
			level(k - 1)
		}
		t.evals++
		t.fault("reentry-tower")
		if t.fail == nil && hashOf(b.String()) != sr.Ops[fmt.Sprintf("%s@%d", kind, n)] {
			t.failf("inner-differs", "%s of node %s of document %d, made inside %d other calls of the library and with %d inside it, gives another result than alone\n document: %s\n%s", kind, tr.name(e), op.D,
				levels-k, k-1, clip(t.r.docs[op.D], 600), explainVs(t.r.docs[op.D], kind, fmt.Sprintf("%d/%d", op.S%max(1, len(t.r.refs[op.D].Stmts)), n), b.String()))
		}
	}
	level(levels)
	t.probe("tower")
	if levels > t.probes["max-tower"] {
		t.probes["max-tower"] = levels
	}
}
