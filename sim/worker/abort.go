package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/zzsim"
)

var errInjected = errors.New("injected failure")

// wrapExpr is a caller's own expression: it behaves like the node it wraps,
// after telling the hook.
type wrapExpr struct {
	parser.Expr
	hook func(what string)
}

func (w *wrapExpr) Pos() parser.Pos { w.hook("Pos"); return w.Expr.Pos() }
func (w *wrapExpr) End() parser.Pos { w.hook("End"); return w.Expr.End() }
func (w *wrapExpr) FormatSQL(f *parser.Formatter) {
	w.hook("FormatSQL")
	w.Expr.FormatSQL(f)
	w.hook("FormatSQL end")
}
func (w *wrapExpr) Accept(v parser.ASTVisitor) error { w.hook("Accept"); return w.Expr.Accept(v) }

var exprIface = exprType

// exprSlots lists the settable places of interface type Expr that hold a node.
func exprSlots(root parser.Expr) []reflect.Value {
	var out []reflect.Value
	seen := map[ptrKey]bool{}
	var f func(v reflect.Value)
	f = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			if v.Type() == exprIface && v.CanSet() && v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil() {
				out = append(out, v)
			}
			f(v.Elem())
		case reflect.Pointer:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct {
				return
			}
			k := ptrKey{v.Type(), v.Pointer()}
			if v.Elem().Type().Size() > 0 && seen[k] {
				return
			}
			seen[k] = true
			f(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					f(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				f(v.Index(i))
			}
		}
	}
	f(reflect.ValueOf(root))
	return out
}

// abort starts a read and cuts it short at its op.B-th callback.
func (t *thr) abort(op scnOp, tr *tree, n int) {
	e := tr.nodes[n]
	at := op.B
	count := 0
	fired := false
	cbPanic := func() {
		tick()
		if count == at {
			fired = true
			count++
			panic(errInjected)
		}
		count++
	}
	cbStop := func() bool {
		tick()
		count++
		if count-1 == at {
			fired = true
			return false
		}
		return true
	}
	pan := func(f func()) {
		p := guard(f)
		if p != nil && p.val != any(errInjected) {
			t.failf("panic", "%s of node %s: %v\n%s", op.F, tr.name(e), p.val, trimStack(p.stack))
		}
		if p == nil && fired {
			t.failf("panic-lost", "%s of node %s: the callback's panic did not reach the caller", op.F, tr.name(e))
		}
	}
	switch op.F {
	case "walk-panic":
		pan(func() { parser.Walk(e, func(parser.Expr) bool { cbPanic(); return true }) })
	case "walkb-panic":
		pan(func() { parser.WalkWithBreak(e, func(parser.Expr) bool { cbPanic(); return true }) })
	case "find-panic":
		pan(func() { parser.Find(e, func(parser.Expr) bool { cbPanic(); return false }) })
	case "findall-panic":
		pan(func() { parser.FindAll(e, func(parser.Expr) bool { cbPanic(); return true }) })
	case "walk-stop":
		parser.Walk(e, func(parser.Expr) bool { return cbStop() })
	case "walkb-stop":
		parser.WalkWithBreak(e, func(parser.Expr) bool { return cbStop() })
	case "find-hit":
		parser.Find(e, func(parser.Expr) bool { return !cbStop() })
	case "visit-err":
		v := &parser.DefaultASTVisitor{Visit: func(parser.Expr) error {
			if !cbStop() {
				return errInjected
			}
			return nil
		}}
		_ = e.Accept(v)
	case "visit-panic", "enter-panic", "leave-panic":
		v := &callVisitor{enter: func(parser.Expr) {}, leave: func(parser.Expr) {}}
		v.Visit = func(parser.Expr) error { return nil }
		switch op.F {
		case "visit-panic":
			v.Visit = func(parser.Expr) error { cbPanic(); return nil }
		case "enter-panic":
			v.enter = func(parser.Expr) { cbPanic() }
		default:
			v.leave = func(parser.Expr) { cbPanic() }
		}
		pan(func() { _ = e.Accept(v) })
	case "goexit":
		// the caller's goroutine ends inside a callback; run on a helper
		// goroutine that nobody schedules around
		done := make(chan bool)
		var pv any
		go func() {
			defer close(done)
			defer func() { pv = recover() }()
			_ = e.Accept(&parser.DefaultASTVisitor{Visit: func(parser.Expr) error {
				if !cbStop() {
					exitGoroutine()
				}
				return nil
			}})
		}()
		<-done
		if pv != nil {
			panic(pv)
		}
	case "format-panic", "beautify-panic", "pos-panic", "json-panic":
		slots := exprSlots(e)
		if len(slots) == 0 {
			return
		}
		slot := slots[at%len(slots)]
		old := slot.Interface()
		w := &wrapExpr{Expr: old.(parser.Expr)}
		w.hook = func(what string) {
			tick()
			if what == "Pos" || what == "End" {
				if op.F != "pos-panic" {
					return
				}
			} else if op.F == "pos-panic" {
				return
			}
			if what == "FormatSQL" && op.A%2 == 1 {
				return // fail at the end instead
			}
			fired = true
			panic(errInjected)
		}
		slot.Set(reflect.ValueOf(parser.Expr(w)))
		pan(func() {
			switch op.F {
			case "format-panic":
				parser.Format(e)
			case "beautify-panic":
				f := parser.NewFormatter().WithBeautify()
				f.WriteExpr(e)
			case "pos-panic":
				for _, x := range tr.nodes {
					x.Pos()
					x.End()
				}
			case "json-panic":
				_ = e.Accept(&parser.DefaultASTVisitor{})
			}
		})
		slot.Set(reflect.ValueOf(old))
	default:
		panic("harness: unknown fault " + op.F)
	}
	if fired {
		t.fault(op.F)
	} else {
		t.probe("fault-not-reached")
	}
	t.event(fmt.Sprint(op.F, fired, count))
	t.evals++
	_ = zzsim.Steps
}

var abortFaults = []string{"walk-panic", "walkb-panic", "find-panic", "findall-panic", "walk-stop", "walkb-stop", "find-hit", "visit-err", "visit-panic", "enter-panic", "leave-panic",
	"format-panic", "beautify-panic", "format-panic", "beautify-panic", "pos-panic", "json-panic", "goexit"}
