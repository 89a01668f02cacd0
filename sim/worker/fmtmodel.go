package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
)

func init() {
	for _, k := range []string{"fnew", "fws", "fwb", "fnl", "fbr", "find", "fded", "fbeau", "findent", "fexpr", "fcust", "fread", "fnil", "fwpanic"} {
		opKinds[k] = formatterOp
	}
}

// model is what a formatter must do.
type model struct {
	out   []byte
	beau  bool
	start bool
	level int
	unit  string
}

func (m *model) wb(b byte) {
	if b == '\n' {
		m.out = append(m.out, b)
		m.start = true
		return
	}
	if m.beau && m.start {
		for i := 0; i < m.level; i++ {
			m.out = append(m.out, m.unit...)
		}
	}
	m.start = false
	m.out = append(m.out, b)
}

func (m *model) ws(s string) {
	for i := 0; i < len(s); i++ {
		m.wb(s[i])
	}
}

// form is a formatter in use and its model.
type form struct {
	f    *parser.Formatter
	m    model
	dead bool
	busy int
}

func newForm() *form { return &form{f: parser.NewFormatter(), m: model{start: true, unit: "  "}} }

type customPanic struct{ n int }

// custom is a caller's own expression; rendering it performs operations.
type custom struct {
	t    *thr
	fm   *form
	ops  []scn.Op
	fail int // panic before this operation; -1: never
}

func (c *custom) Pos() parser.Pos                  { return 0 }
func (c *custom) End() parser.Pos                  { return 0 }
func (c *custom) Accept(v parser.ASTVisitor) error { return nil }
func (c *custom) String() string                   { return "custom" }
func (c *custom) FormatSQL(f *parser.Formatter) {
	old := c.fm.f
	c.fm.f = f
	defer func() { c.fm.f = old }()
	for i, op := range c.ops {
		if i == c.fail {
			break
		}
		if c.t.fail == nil {
			c.t.do(op)
		}
		tick()
	}
	if c.fail >= 0 {
		c.t.fault("expression-panic")
		panic(&customPanic{len(c.ops)})
	}
}

// nodeText is what a node renders to on a formatter of its own, at the start
// of a line or behind a byte already on it.
func (t *thr) nodeText(tr *tree, sr *StmtRef, n int, beau bool, unit string, start bool) string {
	f := parser.NewFormatter()
	if beau {
		f.WithBeautify().WithIndent(unit)
	}
	if beau && !start {
		f.WriteByte('x')
		f.WriteExpr(tr.nodes[n])
		return strings.TrimPrefix(f.String(), "x")
	}
	f.WriteExpr(tr.nodes[n])
	s := f.String()
	name := ""
	if !beau {
		name = "fmt"
	}
	for i, u := range indents {
		if beau && u == unit {
			name = fmt.Sprint("beau", i)
		}
	}
	if name != "" && sr != nil {
		t.evals++
		if want := sr.Ops[fmt.Sprintf("%s@%d", name, n)]; hashOf(s) != want {
			t.failf("render-differs", "%s of node %s on a new formatter gives another text than in a process of its own: %s", name, tr.name(tr.nodes[n]), clip(s, 1500))
		}
	}
	return s
}

func formatterOp(t *thr, op scn.Op) {
	if t.forms == nil {
		t.forms = map[int]*form{}
	}
	fm := t.forms[op.B]
	if fm == nil || op.K == "fnew" {
		if fm != nil && fm.busy > 0 {
			return
		}
		if fm != nil {
			t.checkForm(op.B, fm, "before it is dropped")
		}
		fm = newForm()
		t.forms[op.B] = fm
	}
	if fm.dead {
		return
	}
	m := &fm.m
	switch op.K {
	case "fnew":
	case "fws":
		fm.f.WriteString(op.T)
		m.ws(op.T)
	case "fwb":
		fm.f.WriteByte(byte(op.A))
		m.wb(byte(op.A))
	case "fnl":
		fm.f.NewLine()
		if m.beau {
			m.wb('\n')
		}
	case "fbr":
		fm.f.Break()
		if m.beau {
			m.wb('\n')
		} else {
			m.wb(' ')
		}
	case "find":
		fm.f.Indent()
		m.level++
	case "fded":
		fm.f.Dedent()
		if m.level > 0 {
			m.level--
		} else {
			t.fault("dedent-below-zero")
		}
	case "fbeau":
		if r := fm.f.WithBeautify(); r != fm.f {
			t.failf("formatter", "WithBeautify returned another formatter")
		}
		if !m.beau && len(m.out) > 0 {
			t.fault("mode-switch-midway")
		}
		m.beau = true
	case "findent":
		if r := fm.f.WithIndent(op.T); r != fm.f {
			t.failf("formatter", "WithIndent returned another formatter")
		}
		if len(m.out) > 0 {
			t.fault("indent-switch-midway")
		}
		m.unit = op.T
	case "fnil":
		fm.f.WriteExpr(nil)
	case "fexpr":
		tr, sr, n := t.fmtTree(op)
		if tr == nil {
			return
		}
		s := t.nodeText(tr, sr, n, m.beau, m.unit, m.start)
		fm.f.WriteExpr(tr.nodes[n])
		m.ws(s)
		t.probe("expression-written")
	case "fcust":
		if t.depth > 3 {
			return
		}
		t.depth++
		fm.busy++
		c := &custom{t: t, fm: fm, ops: op.Sub, fail: -1}
		if op.F == "panic" {
			c.fail = op.A % (len(op.Sub) + 1)
		}
		p := guard(func() { fm.f.WriteExpr(c) })
		fm.busy--
		t.depth--
		if p != nil {
			if _, ok := p.val.(*customPanic); !ok {
				t.failf("panic", "writing a custom expression panics: %v\n%s", p.val, trimStack(p.stack))
			}
		} else if c.fail >= 0 {
			t.failf("panic-lost", "the panic of an expression being written did not reach the caller")
		}
		t.probe("custom-written")
	case "fwpanic":
		// a library node one part of which panics while it is rendered
		p := doParse(t.r.docs[op.D])
		p.enumerate()
		if p.err != nil || p.pan != nil || len(p.stmts) == 0 {
			return
		}
		root := p.stmts[op.S%len(p.stmts)]
		slots := exprSlots(root)
		if len(slots) == 0 {
			return
		}
		slot := slots[op.A%len(slots)]
		w := &wrapExpr{Expr: slot.Interface().(parser.Expr), hook: func(what string) {
			if what == "FormatSQL" {
				panic(&customPanic{1})
			}
		}}
		slot.Set(reflect.ValueOf(parser.Expr(w)))
		write := func(f *parser.Formatter) {
			q := guard(func() { f.WriteExpr(root) })
			if q != nil {
				if _, ok := q.val.(*customPanic); !ok {
					t.failf("panic", "writing a node panics: %v\n%s", q.val, trimStack(q.stack))
				}
				t.fault("part-panic")
			}
		}
		f := parser.NewFormatter()
		if m.beau {
			f.WithBeautify().WithIndent(m.unit)
		}
		lead := ""
		if m.beau && !m.start {
			lead = "x"
		}
		f.WriteString(lead)
		write(f)
		part := strings.TrimPrefix(f.String(), lead)
		write(fm.f)
		m.ws(part)
		t.checkForm(op.B, fm, "after a part of a node panicked")
		fm.dead = true // how far it had indented is not promised
		return
	case "fread":
		t.checkForm(op.B, fm, "")
		t.fault("read-midway")
	}
	if t.r.s.Params["every"] == 1 {
		t.checkForm(op.B, fm, "after "+op.K)
	}
}

// fmtTree returns a node with known renderings.
func (t *thr) fmtTree(op scn.Op) (*tree, *StmtRef, int) {
	p := t.own[op.D]
	if p == nil {
		p = doParse(t.r.docs[op.D])
		p.enumerate()
		t.own[op.D] = p
	}
	if p.err != nil || p.pan != nil {
		return nil, nil, 0
	}
	tr, sr, n := pick(p, t.r.refs[op.D], op)
	if tr != nil && strings.HasPrefix(t.refPanics(tr, n), "panic") {
		return nil, nil, 0
	}
	return tr, sr, n
}

func (t *thr) refPanics(tr *tree, n int) string {
	return readStr("fmt", tr, n)
}

func (t *thr) checkForm(i int, fm *form, when string) {
	if t.fail != nil {
		return
	}
	s := fm.f.String()
	t.evals++
	t.event(s)
	if s != string(fm.m.out) {
		t.failf("formatter", "formatter %d, %s, doesn't hold what was written to it (level %d, unit %q, beautify %v)\n%s", i, when, fm.m.level, fm.m.unit, fm.m.beau, diffAt(s, string(fm.m.out)))
		return
	}
	if len(t.kept) < 40 {
		t.kept = append(t.kept, kept{"String", s, hashOf(s)})
	}
}

// lateForms checks all formatters at the end of the thread.
func (t *thr) lateForms() {
	for i := 0; i < 16; i++ {
		if fm := t.forms[i]; fm != nil && !fm.dead {
			t.checkForm(i, fm, "at the end")
		}
	}
}
