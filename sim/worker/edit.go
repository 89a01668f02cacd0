package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
)

// place is something in a tree a user may edit.
type place struct {
	kind string // "string", "bool", "slice", "expr", "ptr", "int"
	v    reflect.Value
	path string
}

// places lists them in a fixed order; equal trees give equal lists.
func places(root parser.Expr) []place {
	var out []place
	seen := map[ptrKey]bool{}
	var f func(v reflect.Value, path string)
	f = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			if v.Type() == exprIface && v.CanSet() {
				out = append(out, place{"expr", v, path})
			}
			f(v.Elem(), path)
		case reflect.Pointer:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct {
				return
			}
			k := ptrKey{v.Type(), v.Pointer()}
			if v.Elem().Type().Size() > 0 && seen[k] {
				return
			}
			seen[k] = true
			if v.CanSet() {
				out = append(out, place{"ptr", v, path})
			}
			f(v.Elem(), path+"."+v.Elem().Type().Name())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					f(v.Field(i), path+"."+v.Type().Field(i).Name)
				}
			}
		case reflect.Slice:
			if v.CanSet() && v.Len() > 0 {
				out = append(out, place{"slice", v, path})
			}
			for i := 0; i < v.Len(); i++ {
				f(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
			}
		case reflect.String:
			if v.CanSet() {
				out = append(out, place{"string", v, path})
			}
		case reflect.Bool:
			if v.CanSet() {
				out = append(out, place{"bool", v, path})
			}
		case reflect.Int:
			if v.CanSet() {
				out = append(out, place{"int", v, path})
			}
		}
	}
	f(reflect.ValueOf(root), typeName(root))
	return out
}

// applyEdit edits the a-th place of the tree; b varies the edit.
func applyEdit(root parser.Expr, a, b int) string {
	ps := places(root)
	if len(ps) == 0 {
		return ""
	}
	p := ps[a%len(ps)]
	if b%7 == 6 && (p.kind == "string" || p.kind == "int" || p.kind == "expr") {
		// what another place has
		for k := 1; k < len(ps); k++ {
			o := ps[(a+b/7+k)%len(ps)]
			if o.kind != p.kind || o.v.Type() != p.v.Type() || o.path == p.path {
				continue
			}
			p.v.Set(cloneVal(o.v, map[ptrKey]reflect.Value{}))
			return p.path + ": a copy of " + o.path
		}
	}
	switch p.kind {
	case "string":
		old := p.v.String()
		switch b % 3 {
		case 0:
			p.v.SetString(fmt.Sprintf("zz%d", b))
		case 1:
			p.v.SetString(old + "x")
		default:
			p.v.SetString("")
		}
		return fmt.Sprintf("%s: %q -> %q", p.path, old, p.v.String())
	case "bool":
		p.v.SetBool(!p.v.Bool())
		return fmt.Sprintf("%s: -> %v", p.path, p.v.Bool())
	case "int":
		p.v.SetInt(p.v.Int() + int64(b%5) + 1)
		return fmt.Sprintf("%s: -> %d", p.path, p.v.Int())
	case "slice":
		n := p.v.Len()
		switch {
		case b%4 == 0 && n > 1:
			p.v.Set(p.v.Slice(0, n-1))
			return p.path + ": last element dropped"
		case b%4 == 1 && n > 1:
			x, y := p.v.Index(0).Interface(), p.v.Index(n-1).Interface()
			p.v.Index(0).Set(reflect.ValueOf(y))
			p.v.Index(n - 1).Set(reflect.ValueOf(x))
			return p.path + ": first and last swapped"
		case b%4 == 2:
			c := cloneVal(p.v.Index(b%n), map[ptrKey]reflect.Value{})
			if b%8 != 6 {
				// as users append: into the spare room of the list, if it has any
				p.v.Set(reflect.Append(p.v, c))
				return p.path + ": element appended"
			}
			s := reflect.MakeSlice(p.v.Type(), 0, n+1)
			s = reflect.AppendSlice(s, p.v)
			p.v.Set(reflect.Append(s, c))
			return p.path + ": element added"
		default:
			p.v.Set(reflect.MakeSlice(p.v.Type(), 0, 0))
			return p.path + ": emptied"
		}
	case "expr":
		var e parser.Expr
		switch b % 3 {
		case 0:
			e = &parser.NumberLiteral{Literal: fmt.Sprint(1000 + b)}
		case 1:
			e = &parser.Ident{Name: fmt.Sprintf("yy%d", b)}
		default:
			e = &parser.StringLiteral{Literal: fmt.Sprintf("ss%d", b)}
		}
		p.v.Set(reflect.ValueOf(e))
		return fmt.Sprintf("%s: replaced by %s", p.path, typeName(e))
	case "ptr":
		if b%2 == 0 {
			p.v.Set(reflect.Zero(p.v.Type()))
			return p.path + ": removed"
		}
		p.v.Set(cloneVal(p.v, map[ptrKey]reflect.Value{}))
		return p.path + ": replaced by a copy"
	}
	return ""
}

// the reads an edited tree must answer like a copy that was never read
var editReads = []string{"fmt", "beau0", "beau1", "fmtw", "walk", "walkb", "findall", "accept", "pos", "json", "type", "dump"}

// ownTree parses a document into a tree the thread is going to edit. The
// shadow starts as a copy made by the harness.
func (t *thr) ownTree(op scn.Op) {
	p := doParse(t.r.docs[op.D])
	s := p.String()
	t.evals++
	if hashOf(s) != t.r.refs[op.D].Parse {
		t.failf("parse-differs", "parsing document %d gives another result than alone (edits made to an earlier tree of it?)%s", op.D, t.r.explainParse(op.D, s))
		return
	}
	p.enumerate()
	t.own[op.D] = p
	var sh []parser.Expr
	for _, st := range p.stmts {
		sh = append(sh, clone(st))
	}
	if sh == nil {
		delete(t.own, op.D)
		return
	}
	t.shadow[op.D] = sh
	t.probe("own-tree")
	// a node, or list, that is in two places of the document is edited in both
	seen := map[ptrKey]bool{}
	for _, st := range p.stmts {
		pointers(reflect.ValueOf(st), func(ty reflect.Type, a uintptr) {
			if k := (ptrKey{ty, a}); seen[k] {
				t.failf("node-twice", "a %s is in two places of the trees of document %d: an edit of the one shows in the other\n document: %s", ty, op.D, clip(t.r.docs[op.D], 600))
			} else {
				seen[k] = true
			}
		})
	}
}

// edit edits an own tree and its shadow alike. Edits after which a copy can't
// be read are not made: the library promises nothing for them.
func (t *thr) edit(op scn.Op) {
	p, sh := t.own[op.D], t.shadow[op.D]
	if p == nil || sh == nil {
		return
	}
	i := op.S % len(sh)
	trial := clone(sh[i])
	what := applyEdit(trial, op.A, op.B)
	if what == "" {
		return
	}
	tt := enumerate(trial)
	for _, rd := range editReads {
		if p := guard(func() { doRead(rd, tt, 0) }); p != nil {
			t.probe("edit-unreadable")
			return
		}
	}
	applyEdit(sh[i], op.A, op.B)
	applyEdit(p.stmts[i], op.A, op.B)
	p.trees[i] = enumerate(p.stmts[i])
	t.fault("edit")
	t.probe("edit-made")
	t.event(what)
	t.checkTree(op.D, i, "right after the edit "+what)
}

// tedit edits an own tree that nothing is compared with: a tree as its owner
// made it.
func (t *thr) tedit(op scn.Op) {
	tr, _ := t.getTree(op)
	if tr == nil || t.shadow[op.D] != nil {
		return
	}
	p := t.own[op.D]
	i := op.S % len(p.stmts)
	trial := clone(p.stmts[i])
	what := applyEdit(trial, op.A, op.B)
	if what == "" {
		return
	}
	tt := enumerate(trial)
	for _, rd := range []string{"walk", "findall", "accept", "fmt"} {
		if p := guard(func() { doRead(rd, tt, 0) }); p != nil {
			t.probe("edit-unreadable")
			return
		}
	}
	applyEdit(p.stmts[i], op.A, op.B)
	p.trees[i] = enumerate(p.stmts[i])
	t.probe("edit-made")
	t.event(what)
}

func init() { opKinds["tedit"] = (*thr).tedit }

var ceditKinds = []string{"walk", "walkb", "find", "findall", "visit", "enter", "leave"}

// cedit edits a node the library hands to a callback, from inside the
// callback: one of the texts, flags or numbers it holds itself.
func (t *thr) cedit(op scn.Op) {
	p, sh := t.own[op.D], t.shadow[op.D]
	if p == nil || sh == nil {
		return
	}
	i := op.S % len(sh)
	root := p.stmts[i]
	each := func(f func(x parser.Expr)) {
		switch op.F {
		case "walk":
			parser.Walk(root, func(x parser.Expr) bool { f(x); return true })
		case "walkb":
			parser.WalkWithBreak(root, func(x parser.Expr) bool { f(x); return true })
		case "find":
			parser.Find(root, func(x parser.Expr) bool { f(x); return false })
		case "findall":
			parser.FindAll(root, func(x parser.Expr) bool { f(x); return true })
		default:
			v := &callVisitor{enter: func(parser.Expr) {}, leave: func(parser.Expr) {}}
			switch op.F {
			case "visit":
				v.Visit = func(x parser.Expr) error { f(x); return nil }
			case "enter":
				v.enter = f
			default:
				v.leave = f
			}
			_ = root.Accept(v)
		}
	}
	// before the edit: which nodes there are to edit
	var at []int
	tr := p.trees[i]
	if p := guard(func() {
		each(func(x parser.Expr) {
			tick()
			if o, ok := tr.ord[keyOf(x)]; ok {
				at = append(at, o)
			} else {
				at = append(at, -1)
			}
		})
	}); p != nil || len(at) == 0 {
		t.probe("edit-unreadable")
		return
	}
	k := op.N % len(at)
	t.evals++
	if at[k] < 0 {
		t.failf("node-not-in-tree", "%s of statement %d of document %d hands callback %d a node that is not part of the tree, so that an edit of it is lost\n document: %s", op.F, i, op.D, k, clip(t.r.docs[op.D], 600))
		return
	}
	trial := clone(sh[i])
	tt := enumerate(trial)
	if len(tt.nodes) != len(tr.nodes) {
		t.checkTree(op.D, i, "before "+op.F)
		return
	}
	what := applyScalar(tt.nodes[at[k]], op.A, op.B)
	if what == "" {
		return
	}
	tt = enumerate(trial)
	for _, rd := range editReads {
		if p := guard(func() { doRead(rd, tt, 0) }); p != nil {
			t.probe("edit-unreadable")
			return
		}
	}
	applyScalar(enumerate(sh[i]).nodes[at[k]], op.A, op.B)
	n := 0
	each(func(x parser.Expr) {
		if n == k {
			applyScalar(x, op.A, op.B)
		}
		n++
		tick()
	})
	p.trees[i] = enumerate(root)
	t.fault("edit-in-" + op.F)
	t.event(what)
	t.checkTree(op.D, i, "after the edit "+what+" made from inside "+op.F)
}

// applyScalar edits a field of the node itself.
func applyScalar(x parser.Expr, a, b int) string {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return ""
	}
	v = v.Elem()
	var fs []int
	for i := 0; i < v.NumField(); i++ {
		switch v.Field(i).Kind() {
		case reflect.String, reflect.Bool, reflect.Int:
			if v.Type().Field(i).IsExported() {
				fs = append(fs, i)
			}
		}
	}
	if len(fs) == 0 {
		return ""
	}
	i := fs[a%len(fs)]
	switch f := v.Field(i); f.Kind() {
	case reflect.String:
		f.SetString(fmt.Sprintf("%sc%d", f.String(), b))
	case reflect.Bool:
		f.SetBool(!f.Bool())
	case reflect.Int:
		f.SetInt(f.Int() + int64(b%5) + 1)
	}
	return fmt.Sprintf("%s.%s of node %s", v.Type().Name(), v.Type().Field(i).Name, typeName(x))
}

func (t *thr) checkTree(d, i int, when string) {
	p, sh := t.own[d], t.shadow[d]
	t.evals++
	if got, want := dumpTree(p.stmts[i]), dumpTree(sh[i]); got != want {
		t.failf("edit-dump", "statement %d of document %d, %s, doesn't hold exactly its own content and edits\n document: %s\n%s", i, d, when, clip(t.r.docs[d], 600), diffAt(got, want))
	}
}

// eread reads an edited tree and compares with a copy that was never read.
func (t *thr) eread(op scn.Op) {
	p, sh := t.own[op.D], t.shadow[op.D]
	if p == nil || sh == nil {
		return
	}
	i := op.S % len(sh)
	name := editReads[op.A%len(editReads)]
	n := op.N % len(p.trees[i].nodes)
	got := readStr(name, p.trees[i], n)
	tick()
	fresh := enumerate(clone(sh[i]))
	if len(fresh.nodes) != len(p.trees[i].nodes) {
		t.checkTree(op.D, i, "before "+name)
		return
	}
	want := readStr(name, fresh, n)
	t.evals++
	t.event(got)
	t.probe("eread-" + name)
	if got != want {
		t.failf("edit-read", "%s of node %s of edited statement %d of document %d doesn't show the tree's content\n document: %s\n%s", name, p.trees[i].name(p.trees[i].nodes[n]), i, op.D,
			clip(t.r.docs[op.D], 600), diffAt(got, want))
		return
	}
	t.checkTree(op.D, i, "after "+name)
}

// disjoint checks at the end that no two parses share memory, and that every
// edited tree still holds what it should.
func disjoint(r *run) {
	owner := map[ptrKey]string{}
	for _, t := range r.thr {
		var ds []int
		for d := range t.own {
			ds = append(ds, d)
		}
		sort.Ints(ds)
		for _, d := range ds {
			me := fmt.Sprintf("thread %d document %d", t.id, d)
			for i, s := range t.own[d].stmts {
				if t.shadow[d] != nil {
					t.fail = nil
					t.checkTree(d, i, "at the end of the run")
					if t.fail != nil {
						r.o.Fail(t.fail.Class, t.fail.Detail)
					}
				}
				pointers(reflect.ValueOf(s), func(ty reflect.Type, p uintptr) {
					k := ptrKey{ty, p}
					if o, ok := owner[k]; ok && o != me {
						r.o.Fail("shared-node", fmt.Sprintf("%s and %s share a %s", o, me, ty))
					}
					owner[k] = me
				})
			}
			r.o.Evals++
		}
	}
}
