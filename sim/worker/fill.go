package main

import (
	"fmt"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
	"verifsim/zzsim"
)

func init() {
	opKinds["fill"] = (*thr).fill
	opKinds["spin"] = (*thr).spin
}

// spin has the process parse small statements, op.A of them.
func (t *thr) spin(op scn.Op) {
	for i := 0; i < op.A; i++ {
		_, _ = parser.NewParser("USE a").ParseStmts()
		if i%64 == 0 {
			zzsim.Yield()
		}
	}
	t.probes["spin-statements"] += op.A
}

// fill is earlier activity of the process that nobody looks at: many
// statements, all different, parsed and rendered.
func (t *thr) fill(op scn.Op) {
	text := t.r.docs[op.D]
	toks := scn.Tokens(text)
	if len(text) > 3000 {
		return
	}
	r := scn.NewRand(uint64(op.B))
	for i := 0; i < op.A; i++ {
		s := otherNames(r, toks, op.B%100000*20000+i)
		guard(func() {
			p := parser.NewParser(s)
			stmts, err := p.ParseStmts()
			if err != nil {
				_ = err.Error()
			}
			for _, st := range stmts {
				switch i % 8 {
				case 0:
					_ = parser.Format(st)
				case 2:
					f := parser.NewFormatter().WithBeautify()
					f.WriteExpr(st)
					_ = f.String()
				case 3:
					parser.Walk(st, func(parser.Expr) bool { return true })
				case 4:
					_ = st.Accept(&parser.DefaultASTVisitor{Visit: func(parser.Expr) error { return nil }})
				}
			}
		})
		if i%64 == 0 {
			zzsim.Yield()
		}
	}
	t.probe("fill")
	t.probes["fill-statements"] += op.A
}

// otherNames is the text with other names, numbers and strings in it.
func otherNames(r *scn.Rand, toks []string, k int) string {
	var b strings.Builder
	for _, w := range toks {
		c := w[0]
		switch {
		case len(w) > 2 && (c == '\'' || c == '`' || c == '"') && w[len(w)-1] == c && r.P(60):
			fmt.Fprintf(&b, "%s%x%c", w[:len(w)-1], k, c)
		case c >= 'a' && c <= 'z' && r.P(50):
			fmt.Fprintf(&b, "%s_%x", w, k)
		case c >= '1' && c <= '9' && r.P(50):
			fmt.Fprintf(&b, "%d%s", k, w)
		default:
			b.WriteString(w)
		}
	}
	return b.String()
}
