package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

var exprType = reflect.TypeOf((*parser.Expr)(nil)).Elem()
var posType = reflect.TypeOf(parser.Pos(0))

func hashOf(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:10])
}

type dumper struct {
	b     strings.Builder
	shift int  // subtracted from positions
	noPos bool // positions left out
	depth int
	path  bool
}

// dumpTree writes a tree with types, exported fields and positions.
func dumpTree(v any) string {
	d := &dumper{}
	d.val(reflect.ValueOf(v))
	return d.b.String()
}

func dumpShifted(v any, shift int) string {
	d := &dumper{shift: shift}
	d.val(reflect.ValueOf(v))
	return d.b.String()
}

func (d *dumper) val(v reflect.Value) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 20000 {
		d.b.WriteString("<deep>")
		return
	}
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.val(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			d.b.WriteString("(*" + v.Type().Elem().Name() + ")nil")
			return
		}
		d.b.WriteByte('&')
		d.val(v.Elem())
	case reflect.Struct:
		t := v.Type()
		d.b.WriteString(t.Name())
		d.b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			d.b.WriteString(t.Field(i).Name)
			d.b.WriteByte(':')
			d.val(v.Field(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.b.WriteString("nil[]")
			return
		}
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte(']')
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprintf(&d.b, "%v", v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		n := v.Int()
		if v.Type() == posType {
			if d.noPos {
				d.b.WriteByte('@')
				return
			}
			// 0 is also "not set", so it is not shifted; a shifted statement
			// starts at an offset > 0 and its positions are never 0
			if n != 0 || d.shift == 0 {
				n -= int64(d.shift)
			} else {
				d.b.WriteString("@unset")
				return
			}
			d.b.WriteByte('@')
		}
		d.b.WriteString(strconv.FormatInt(n, 10))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float64, reflect.Float32:
		d.b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Map:
		fmt.Fprintf(&d.b, "%v", v.Interface()) // fmt sorts keys
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.b.WriteString("nil")
		} else {
			d.b.WriteString("<" + v.Kind().String() + ">")
		}
	default:
		fmt.Fprintf(&d.b, "<%s>", v.Kind())
	}
}

type ptrKey struct {
	t reflect.Type
	p uintptr
}

// tree is an enumerated syntax tree.
type tree struct {
	root  parser.Expr
	nodes []parser.Expr  // in field order, parents first
	ord   map[ptrKey]int // node -> ordinal
	up    []int          // parent ordinal, -1 for the root
}

func keyOf(e parser.Expr) ptrKey {
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Pointer {
		return ptrKey{v.Type(), 0}
	}
	return ptrKey{v.Type(), v.Pointer()}
}

// enumerate lists the expression nodes reachable through exported fields.
func enumerate(root parser.Expr) *tree {
	t := &tree{root: root, ord: map[ptrKey]int{}}
	t.visit(reflect.ValueOf(root), -1)
	return t
}

func (t *tree) visit(v reflect.Value, parent int) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			t.visit(v.Elem(), parent)
		}
	case reflect.Pointer:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct {
			return
		}
		if v.Type().Implements(exprType) {
			k := ptrKey{v.Type(), v.Pointer()}
			if _, ok := t.ord[k]; ok {
				return
			}
			t.ord[k] = len(t.nodes)
			t.nodes = append(t.nodes, v.Interface().(parser.Expr))
			t.up = append(t.up, parent)
			parent = len(t.nodes) - 1
		}
		t.visit(v.Elem(), parent)
	case reflect.Struct:
		if v.CanAddr() && v.Addr().Type().Implements(exprType) {
			// a node held by value, as in ColumnNames
			k := ptrKey{v.Addr().Type(), v.Addr().Pointer()}
			if _, ok := t.ord[k]; !ok {
				t.ord[k] = len(t.nodes)
				t.nodes = append(t.nodes, v.Addr().Interface().(parser.Expr))
				t.up = append(t.up, parent)
				parent = len(t.nodes) - 1
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				t.visit(v.Field(i), parent)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			t.visit(v.Index(i), parent)
		}
	}
}

// name gives a node's ordinal and type.
func (t *tree) name(e parser.Expr) string {
	if e == nil {
		return "nil"
	}
	n, ok := t.ord[keyOf(e)]
	if !ok {
		return "?" + typeName(e)
	}
	return strconv.Itoa(n) + typeName(e)
}

func typeName(e any) string {
	t := reflect.TypeOf(e)
	if t == nil {
		return "nil"
	}
	if t.Kind() == reflect.Pointer {
		return t.Elem().Name()
	}
	return t.Name()
}

// under says whether node a is a proper descendant of node b.
func (t *tree) under(a, b int) bool {
	for a = t.up[a]; a >= 0; a = t.up[a] {
		if a == b {
			return true
		}
	}
	return false
}

// pointers collects all pointers to non-empty structs reachable through exported fields.
func pointers(v reflect.Value, f func(t reflect.Type, p uintptr)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			pointers(v.Elem(), f)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			if v.Elem().Type().Size() > 0 {
				f(v.Type(), v.Pointer())
			}
			pointers(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				pointers(v.Field(i), f)
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() > 0 && v.Type().Elem().Size() > 0 {
			f(v.Type(), v.Pointer())
		}
		for i := 0; i < v.Len(); i++ {
			pointers(v.Index(i), f)
		}
	}
}

// clone copies a tree through its exported fields. Node identity inside the
// tree is preserved.
func clone(e parser.Expr) parser.Expr {
	seen := map[ptrKey]reflect.Value{}
	return cloneVal(reflect.ValueOf(e), seen).Interface().(parser.Expr)
}

func cloneVal(v reflect.Value, seen map[ptrKey]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneVal(v.Elem(), seen))
		return n
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		k := ptrKey{v.Type(), v.Pointer()}
		if c, ok := seen[k]; ok && v.Elem().Type().Size() > 0 {
			return c
		}
		n := reflect.New(v.Type().Elem())
		seen[k] = n
		n.Elem().Set(cloneVal(v.Elem(), seen))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(cloneVal(v.Field(i), seen))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneVal(v.Index(i), seen))
		}
		return n
	}
	return v
}
