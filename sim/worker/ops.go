package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/zzsim"
)

// The read operations a user can make on a node. Each returns all it observed
// as one string.
var readOps = []string{"fmt", "beau0", "beau1", "beau2", "fmtw", "walk", "walkb", "find", "findall", "accept", "gaccept", "pos", "json", "type", "dump", "transform"}

var indents = []string{"  ", "\t", "    "}

// harness code calls back into the scheduler between events through tick
func tick() { zzsim.Yield() }

func doRead(op string, t *tree, node int) string {
	e := t.nodes[node]
	switch op {
	case "fmt":
		return parser.Format(e)
	case "beau0", "beau1", "beau2":
		f := parser.NewFormatter().WithBeautify().WithIndent(indents[op[4]-'0'])
		f.WriteExpr(e)
		return f.String()
	case "fmtw":
		f := parser.NewFormatter()
		f.WithBeautify()
		f.WriteString("x\n")
		f.Indent()
		f.WriteExpr(e)
		f.Dedent()
		f.NewLine()
		f.WriteExpr(e)
		return f.String()
	case "walk":
		var b strings.Builder
		r := parser.Walk(e, func(n parser.Expr) bool { tick(); b.WriteString(t.name(n)); b.WriteByte(' '); return true })
		fmt.Fprint(&b, r)
		return b.String()
	case "walkb":
		var b strings.Builder
		r := parser.WalkWithBreak(e, func(n parser.Expr) bool { tick(); b.WriteString(t.name(n)); b.WriteByte(' '); return true })
		fmt.Fprint(&b, r)
		return b.String()
	case "find":
		// the last node of the walk that is a leaf-like name or literal
		var b strings.Builder
		for _, want := range []string{"Ident", "StringLiteral", "NumberLiteral", "FunctionExpr", "NoSuchNode"} {
			n, ok := parser.Find(e, func(n parser.Expr) bool { tick(); return typeName(n) == want })
			fmt.Fprintf(&b, "%s=%s,%v ", want, t.name(n), ok)
		}
		return b.String()
	case "findall":
		var b strings.Builder
		for _, want := range []string{"Ident", "NumberLiteral", "ColumnExpr"} {
			for _, n := range parser.FindAll(e, func(n parser.Expr) bool { tick(); return typeName(n) == want }) {
				b.WriteString(t.name(n))
				b.WriteByte(' ')
			}
			b.WriteByte('|')
		}
		return b.String()
	case "accept":
		return strings.Join(traverse(t, e, nil, false).events, " ")
	case "gaccept":
		return strings.Join(traverse(t, e, nil, true).events, " ")
	case "pos":
		var b strings.Builder
		walkPtrs(e, func(n parser.Expr) {
			tick()
			fmt.Fprintf(&b, "%s:%d-%d ", t.name(n), n.Pos(), n.End())
		})
		return b.String()
	case "json":
		out, err := json.Marshal(e)
		if err != nil {
			return "error " + err.Error()
		}
		return string(out)
	case "type":
		var b strings.Builder
		for _, n := range t.nodes {
			if d, ok := n.(parser.DDL); ok {
				b.WriteString(d.Type() + " ")
			}
			if s, ok := n.(fmt.Stringer); ok {
				b.WriteString(s.String() + " ")
			}
		}
		return b.String()
	case "dump":
		return dumpTree(e)
	case "transform":
		// the transformer is called for the root only and must get it back
		var b strings.Builder
		r := parser.Transform(e, func(n parser.Expr) parser.Expr { tick(); b.WriteString(t.name(n) + " "); return n })
		b.WriteString("-> " + t.name(r))
		return b.String()
	}
	panic("harness: unknown read " + op)
}

// walkPtrs calls f for the distinct nodes under e in field order.
func walkPtrs(e parser.Expr, f func(parser.Expr)) {
	for _, n := range enumerate(e).nodes {
		f(n)
	}
}

// A panic that crossed the library.
type panicked struct {
	val   any
	stack string
}

func (p *panicked) String() string { return fmt.Sprintf("panic: %v", p.val) }

// guard runs f and returns its panic, if any. Step-limit panics pass.
func guard(f func()) (p *panicked) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(zzsim.LimitExceeded); ok {
				panic(l)
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				panic(r)
			}
			p = &panicked{r, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// readStr is doRead with panics turned into text.
func readStr(op string, t *tree, node int) (s string) {
	if p := guard(func() { s = doRead(op, t, node) }); p != nil {
		return fmt.Sprintf("panic: %v", p.val)
	}
	return s
}

// events of a visitor traversal
type trav struct {
	events []string
	types  []string // node type of each event
	err    error
	pan    any
}

// fault of a visitor traversal: at event number At (counting all callbacks of
// the kinds in On), fail.
type vfault struct {
	at   int
	kind string // "err" (visit only), "panic"
	err  error
	fn   func(ev string, n parser.Expr) // called at the event instead, if set
	then error                          // a panic with it follows at a later callback
	wait int                            // so many callbacks later
}

type callVisitor struct {
	parser.DefaultASTVisitor
	enter, leave func(parser.Expr)
}

func (v *callVisitor) Enter(e parser.Expr) { v.enter(e) }
func (v *callVisitor) Leave(e parser.Expr) { v.leave(e) }

// traverse runs Accept and records every callback. The n-th callback
// (0-based) may be faulted; once a fault fired nothing is faulted again.
func traverse(t *tree, e parser.Expr, f *vfault, generated bool) (tr *trav) {
	tr = &trav{}
	n := 0
	cb := func(ev string, x parser.Expr) error {
		tick()
		tr.events = append(tr.events, ev+t.name(x))
		tr.types = append(tr.types, typeName(x))
		i := n
		n++
		if f != nil && f.then != nil && i == f.at+f.wait {
			panic(f.then)
		}
		if f != nil && i == f.at {
			if f.fn != nil {
				f.fn(ev, x)
				return nil
			}
			if f.kind == "panic" {
				panic(f.err)
			}
			return f.err
		}
		return nil
	}
	enter := func(x parser.Expr) { _ = cb("E", x) }
	leave := func(x parser.Expr) { _ = cb("L", x) }
	defer func() {
		if r := recover(); r != nil {
			if f != nil && f.err != nil && (same(r, f.err) || f.then != nil && same(r, f.then)) {
				tr.pan = r
				return
			}
			panic(r)
		}
	}()
	if generated {
		tr.err = e.Accept(newGenVisitor(func(m string, x parser.Expr) error { return cb("V", x) }, enter, leave))
		return tr
	}
	v := &callVisitor{enter: enter, leave: leave}
	v.Visit = func(x parser.Expr) error { return cb("V", x) }
	tr.err = e.Accept(v)
	return tr
}

var errSeen = errors.New("injected")

// errDetails writes out everything observable of a parse error.
func errDetails(err error) string {
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		return fmt.Sprintf("%T %s", err, err.Error())
	}
	got := "nil"
	if pe.Got != nil {
		got = fmt.Sprintf("%+v", *pe.Got)
	}
	return fmt.Sprintf("pos=%d %d:%d got=%s expected=%q keyword=%q msg=%q text=%q", pe.Pos, pe.Line, pe.Column, got, pe.Expected, pe.Keyword, pe.Msg, err.Error())
}

type parsed struct {
	p     *parser.Parser
	stmts []parser.Expr
	trees []*tree
	err   error
	pan   *panicked
}

func doParse(text string) *parsed {
	r := &parsed{}
	r.pan = guard(func() {
		r.p = parser.NewParser(text)
		r.stmts, r.err = r.p.ParseStmts()
	})
	return r
}

func (r *parsed) enumerate() {
	if r.trees == nil {
		for _, s := range r.stmts {
			r.trees = append(r.trees, enumerate(s))
		}
	}
}

// result of a parse as one string: everything a caller can see.
func (r *parsed) String() string {
	if r.pan != nil {
		return r.pan.String()
	}
	var b strings.Builder
	if r.err != nil {
		b.WriteString("error ")
		if p := guard(func() { b.WriteString(errDetails(r.err)) }); p != nil {
			b.WriteString(p.String())
		}
		if r.stmts != nil {
			b.WriteString(" and statements")
		}
	}
	fmt.Fprintf(&b, "%d statements", len(r.stmts))
	for _, s := range r.stmts {
		b.WriteByte('\n')
		b.WriteString(dumpTree(s))
	}
	return b.String()
}

// again asks the same parser once more.
func (r *parsed) again() string {
	if r.p == nil {
		return "no parser"
	}
	r2 := &parsed{p: r.p}
	r2.pan = guard(func() { r2.stmts, r2.err = r.p.ParseStmts() })
	return r2.String()
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from := i - 60
		if from < 0 {
			from = 0
		}
		to := i + 100
		if to > len(s) {
			to = len(s)
		}
		return strconv.Quote(s[from:to])
	}
	return fmt.Sprintf("first difference at byte %d:\n  got      ...%s\n  expected ...%s", i, cut(a), cut(b))
}

var _ = reflect.TypeOf
