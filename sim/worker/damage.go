package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
	"verifsim/zzsim"
)

// The document under damage is a byte buffer of the run; each fault edits it.

func init() {
	for _, k := range []string{"load", "cut", "flip", "zero", "lose", "repeat", "move", "stale", "garbage", "tail"} {
		opKinds[k] = damageOp
	}
	opKinds["survive"] = surviveOp
	opKinds["torn"] = tornOp
	opKinds["append"] = appendOp
	opKinds["log"] = logOp
	opKinds["bound"] = boundOp
	opKinds["grow"] = growOp
}

const maxDoc = 64 << 10

func damageOp(t *thr, op scn.Op) {
	r := t.r
	b := r.buf
	n := len(b)
	if op.K == "load" {
		r.buf = append([]byte{}, r.docs[op.D]...)
		return
	}
	at := 0
	if n > 0 {
		at = op.A % (n + 1)
	}
	end := min(at+op.B, n)
	old := string(b)
	switch op.K {
	case "cut": // the crash: nothing after at was written
		b = b[:at]
	case "flip":
		if at < n {
			b = append([]byte{}, b...)
			b[at] ^= byte(op.B%255 + 1)
		}
	case "zero":
		b = append([]byte{}, b...)
		for i := at; i < end; i++ {
			b[i] = 0
		}
	case "lose":
		b = append(append([]byte{}, b[:at]...), b[end:]...)
	case "repeat":
		b = append(append(append([]byte{}, b[:end]...), b[at:end]...), b[end:]...)
	case "move": // a range lands somewhere else
		c := append([]byte{}, b[at:end]...)
		rest := append(append([]byte{}, b[:at]...), b[end:]...)
		to := op.N % (len(rest) + 1)
		b = append(append(append([]byte{}, rest[:to]...), c...), rest[to:]...)
	case "stale": // a range still holds what an older document had there
		o := r.docs[op.D]
		b = append([]byte{}, b...)
		for i := at; i < end && i < len(o); i++ {
			b[i] = o[i]
		}
	case "garbage":
		b = append(append(append([]byte{}, b[:at]...), op.T...), b[at:]...)
	case "tail": // the file is longer than what was written: old content or zeros follow
		if op.F == "zeros" {
			b = append(append([]byte{}, b...), make([]byte, op.B%2048)...)
		} else {
			o := r.docs[op.D]
			from := min(len(b), len(o))
			if op.A%2 == 1 && len(o) > 0 {
				from = op.A % len(o)
			}
			b = append(append([]byte{}, b...), o[from:]...)
		}
	}
	if len(b) > maxDoc {
		b = b[:maxDoc]
	}
	r.buf = b
	if string(b) != old {
		t.fault(op.K)
	} else {
		t.probe("fault-without-effect")
	}
	t.event(string(b))
}

// lineCol recomputes line and column of an offset.
func lineCol(text string, off int) (int, int) {
	return 1 + strings.Count(text[:off], "\n"), off - strings.LastIndex(text[:off], "\n")
}

// located checks that an error is a parse error that points into the text.
func located(text string, err error) string {
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		return fmt.Sprintf("the failure is a %T, not a parse error: %v", err, err)
	}
	if int(pe.Pos) < 0 || int(pe.Pos) > len(text) {
		return fmt.Sprintf("the error's offset %d lies outside the document of %d bytes", pe.Pos, len(text))
	}
	l, c := lineCol(text, int(pe.Pos))
	if pe.Line != l || pe.Column != c {
		return fmt.Sprintf("the error says line %d column %d, but offset %d is line %d column %d", pe.Line, pe.Column, pe.Pos, l, c)
	}
	msg := err.Error()
	if !strings.HasPrefix(msg, fmt.Sprintf("line %d:%d ", l, c)) {
		return fmt.Sprintf("the message doesn't start with its line %d:%d: %s", l, c, clip(msg, 300))
	}
	from := int(pe.Pos) - (c - 1)
	line := text[from:]
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = strings.TrimSuffix(line[:i], "\r")
	} else {
		line = strings.TrimSuffix(line, "\r")
	}
	// ... line, newline, blanks up to the column, carets, newline
	body := strings.TrimSuffix(msg, "\n")
	i := strings.LastIndexByte(body, '\n')
	if i < 0 {
		return "the message has no caret line: " + clip(msg, 300)
	}
	caret := body[i+1:]
	blanks := len(caret) - len(strings.TrimLeft(caret, " "))
	if blanks != c-1 || strings.Trim(caret[blanks:], "^") != "" || len(caret) == blanks {
		return fmt.Sprintf("the caret is not under column %d: %s", c, clip(msg, 300))
	}
	if !strings.HasSuffix(body[:i], "\n"+line) {
		return fmt.Sprintf("the message doesn't show line %d, %s: %s", l, clip(line, 200), clip(msg, 600))
	}
	return ""
}

// surviveOp reads a damaged document the way a user might.
func surviveOp(t *thr, op scn.Op) {
	text := string(t.r.buf)
	doc := clip(text, 1500)
	p := doParse(text)
	t.evals++
	if p.pan != nil {
		t.failf("panic", "parsing panics: %v\n document: %s\n%s", p.pan.val, doc, trimStack(p.pan.stack))
		return
	}
	check := func(p *parsed, how string) bool {
		if p.pan != nil {
			t.failf("panic", "%s panics: %v\n document: %s\n%s", how, p.pan.val, doc, trimStack(p.pan.stack))
			return false
		}
		if p.err != nil {
			bad := ""
			if q := guard(func() { bad = located(text, p.err) }); q != nil {
				bad = fmt.Sprintf("rendering the error panics: %v", q.val)
			}
			if bad != "" {
				t.failf("error-location", "%s: %s\n document: %s", how, bad, doc)
				return false
			}
		}
		p.enumerate()
		for i, tr := range p.trees {
			for _, rd := range readOps {
				t.evals++
				if q := guard(func() { doRead(rd, tr, 0) }); q != nil {
					t.failf("panic", "%s, then %s of statement %d (%s) panics: %v\n document: %s\n%s", how, rd, i, typeName(tr.root), q.val, doc, trimStack(q.stack))
					return false
				}
			}
		}
		return true
	}
	if !check(p, "parsing") {
		return
	}
	if p.err != nil {
		t.probe("rejected")
	} else {
		t.probe("accepted")
		for _, s := range p.stmts {
			t.probe("accepted-" + typeName(s))
		}
	}
	t.event(p.String())
	for k := 0; k < 2; k++ {
		r2 := &parsed{p: p.p}
		r2.pan = guard(func() { r2.stmts, r2.err = p.p.ParseStmts() })
		t.evals++
		if !check(r2, "asking the parser again") {
			return
		}
	}
}

// shiftDiff compares trees of two parses whose offsets differ by shift.
func shiftDiff(a, b reflect.Value, shift int, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s and %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": one is nil"
			}
			return ""
		}
		return shiftDiff(a.Elem(), b.Elem(), shift, path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.IsExported() {
				if d := shiftDiff(a.Field(i), b.Field(i), shift, path+"."+f.Name); d != "" {
					return d
				}
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := shiftDiff(a.Index(i), b.Index(i), shift, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Int:
		x, y := a.Int(), b.Int()
		if a.Type() == posType {
			if y == x+int64(shift) || x == 0 && y == 0 {
				return ""
			}
			return fmt.Sprintf("%s: offset %d alone and %d in the document, which is %d further on", path, x, y, shift)
		}
		if x != y {
			return fmt.Sprintf("%s: %d and %d", path, x, y)
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q and %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v and %v", path, a.Bool(), b.Bool())
		}
	default:
		if fmt.Sprint(a.Interface()) != fmt.Sprint(b.Interface()) {
			return path + " differs"
		}
	}
	return ""
}

// tornOp: nothing of a torn document is lost silently.
func tornOp(t *thr, op scn.Op) {
	text := string(t.r.buf)
	doc := clip(text, 1500)
	p := doParse(text)
	t.evals++
	if p.pan != nil {
		t.failf("panic", "parsing panics: %v\n document: %s\n%s", p.pan.val, doc, trimStack(p.pan.stack))
		return
	}
	t.event(p.String())
	segs, open := scn.Split(text)
	if open != "" {
		t.probe("unterminated-" + open)
		if p.err == nil {
			t.failf("unterminated-accepted", "the text ends inside a %s, yet parsing succeeds with %d statements\n document: %s", open, len(p.stmts), doc)
		}
		return
	}
	if p.err != nil {
		t.probe("torn-rejected")
		return
	}
	t.probe("torn-accepted")
	var full []scn.Segment
	for _, s := range segs {
		if !s.Empty {
			full = append(full, s)
		}
	}
	if len(full) != len(p.stmts) {
		t.failf("statement-lost", "the text has %d statements, parsing returns %d and no error\n document: %s", len(full), len(p.stmts), doc)
		return
	}
	for i, s := range full {
		seg := text[s.From:s.To]
		alone := doParse(seg)
		t.evals++
		if alone.pan != nil || alone.err != nil || len(alone.stmts) != 1 {
			t.failf("segment-alone", "statement %d is accepted in the document, but alone gives %s\n segment: %s\n document: %s", i, clip(alone.String(), 400), clip(seg, 500), doc)
			return
		}
		if d := shiftDiff(reflect.ValueOf(alone.stmts[0]), reflect.ValueOf(p.stmts[i]), s.From, typeName(alone.stmts[0])); d != "" {
			t.failf("segment-differs", "statement %d differs from what its text gives alone: %s\n segment: %s\n document: %s", i, d, clip(seg, 500), doc)
			return
		}
	}
}

// appendOp adds a statement to the growing document.
func appendOp(t *thr, op scn.Op) {
	r := t.r
	if op.F == "good" { // only what parses
		if p := doParse(r.docs[op.D]); p.err != nil || p.pan != nil {
			t.probe("append-bad-left-out")
			return
		}
	}
	r.buf = append([]byte{}, r.buf...)
	for k := max(1, op.A); k > 0; k-- {
		from := len(r.buf)
		r.buf = append(r.buf, r.docs[op.D]...)
		r.buf = append(r.buf, op.T...)
		r.parts = append(r.parts, [3]int{from, len(r.docs[op.D]), len(r.buf)})
		t.probe("append")
	}
}

// logOp parses the document appended so far and compares it with its parts.
func logOp(t *thr, op scn.Op) {
	r := t.r
	text := string(r.buf)
	doc := clip(text, 1500)
	// the separators must really separate
	segs, open := scn.Split(text)
	var full []scn.Segment
	for _, s := range segs {
		if !s.Empty {
			full = append(full, s)
		}
	}
	ok := open == "" && len(full) == len(r.parts)
	for i := 0; ok && i < len(full); i++ {
		ok = full[i].From >= 0 && full[i].To >= r.parts[i][0] && full[i].To <= r.parts[i][2] && full[i].From <= r.parts[i][0]
	}
	if !ok {
		t.probe("parts-do-not-separate")
		return
	}
	p := doParse(text)
	t.evals++
	if p.pan != nil {
		t.failf("panic", "parsing panics: %v\n document: %s\n%s", p.pan.val, doc, trimStack(p.pan.stack))
		return
	}
	t.event(p.String())
	for i, pt := range r.parts {
		// alone: from its first byte up to and including its semicolon
		end := full[i].To
		if full[i].Closed {
			end++
		}
		alone := doParse(text[pt[0]:end])
		t.evals++
		if alone.pan != nil {
			t.failf("panic", "parsing panics: %v\n document: %s\n%s", alone.pan.val, clip(text[pt[0]:end], 600), trimStack(alone.pan.stack))
			return
		}
		if alone.err != nil {
			t.probe("log-with-bad-statement")
			if i > 0 {
				t.fault("bad-after-good")
			}
			if p.err == nil {
				t.failf("bad-statement-accepted", "statement %d is bad alone (%s), but the document is accepted\n document: %s", i, clip(alone.err.Error(), 300), doc)
				return
			}
			if d := errShift(alone.err, p.err, pt[0], text); d != "" {
				t.failf("error-differs", "statement %d is the first bad one, but the document's failure is not its failure alone: %s\n alone: %s\n in the document: %s\n document: %s", i, d, clip(errDetails(alone.err), 700), clip(errDetails(p.err), 700), doc)
			}
			return
		}
		if len(alone.stmts) != 1 {
			t.failf("statement-lost", "statement %d alone gives %d statements\n statement: %s", i, len(alone.stmts), clip(text[pt[0]:end], 500))
			return
		}
		if p.err != nil {
			continue // a later one must be bad
		}
		if i >= len(p.stmts) {
			t.failf("statement-lost", "the document of %d statements gives %d\n document: %s", len(r.parts), len(p.stmts), doc)
			return
		}
		if d := shiftDiff(reflect.ValueOf(alone.stmts[0]), reflect.ValueOf(p.stmts[i]), pt[0], typeName(alone.stmts[0])); d != "" {
			t.failf("statement-differs", "statement %d differs from what it gives alone: %s\n statement: %s\n document: %s", i, d, clip(text[pt[0]:end], 500), doc)
			return
		}
	}
	if p.err != nil {
		t.failf("good-rejected", "every statement is accepted alone, but the document fails: %s\n document: %s", clip(p.err.Error(), 400), doc)
		return
	}
	if len(p.stmts) != len(r.parts) {
		t.failf("statement-lost", "the document of %d statements gives %d\n document: %s", len(r.parts), len(p.stmts), doc)
	}
	t.probe("log-all-good")
	if len(r.parts) > 1 {
		t.fault("history-before-statement")
	}
}

// errShift compares a statement's error alone with the document's.
func errShift(alone, in error, shift int, text string) string {
	var a, b *parser.ParseError
	if !errors.As(alone, &a) || !errors.As(in, &b) {
		return "not parse errors"
	}
	switch {
	case int(b.Pos) != int(a.Pos)+shift:
		return fmt.Sprintf("offset %d alone, %d in the document, which is %d further on", a.Pos, b.Pos, shift)
	case a.Msg != b.Msg:
		return fmt.Sprintf("message %q and %q", a.Msg, b.Msg)
	case a.Keyword != b.Keyword:
		return "expected keyword"
	case fmt.Sprint(a.Expected) != fmt.Sprint(b.Expected):
		return "expected tokens"
	case (a.Got == nil) != (b.Got == nil):
		return "got token"
	}
	if a.Got != nil {
		x, y := *a.Got, *b.Got
		x.Pos += parser.Pos(shift)
		x.End += parser.Pos(shift)
		if x != y {
			return fmt.Sprintf("got token %+v (shifted) and %+v", x, y)
		}
	}
	if int(b.Pos) <= len(text) {
		if l, c := lineCol(text, int(b.Pos)); l != b.Line || c != b.Column {
			return fmt.Sprintf("line %d column %d, but the offset is line %d column %d", b.Line, b.Column, l, c)
		}
	}
	return ""
}

// Bounds of C11: steps per unit, some twenty times what the unchanged code
// needs at most (the evidence reports the largest ratios met).
const (
	parseRate = 2000 // steps per byte
	readRate  = 2000 // steps per node or byte of output
	allocRate = 40000
	constCost = 200000
)

func intervals(text string) int { return strings.Count(strings.ToUpper(text), "INTERVAL") }

// boundOp: the work done is proportional to the input, or the tree and the output.
func boundOp(t *thr, op scn.Op) {
	text := t.r.docs[op.D]
	if op.A > 0 { // generated: pattern op.B repeated op.A times
		text = scn.NestDoc(op.B, op.A)
	}
	if op.F == "buf" {
		text = string(t.r.buf)
	}
	doc := clip(text, 300)
	alone := t.r.s.Params["threads"] <= 1
	var m0, m1 runtime.MemStats
	if alone {
		runtime.ReadMemStats(&m0)
	}
	s0 := zzsim.Steps()
	p := doParse(text)
	steps := zzsim.Steps() - s0
	if alone {
		runtime.ReadMemStats(&m1)
	}
	t.evals++
	unit := uint64(len(text)+16) * uint64(1+intervals(text))
	t.ratio("parse-steps", steps, unit)
	if steps > constCost+parseRate*unit {
		t.failf("too-many-steps", "parsing %d bytes with %d INTERVAL words takes %d steps, more than %d\n document: %s", len(text), intervals(text), steps, constCost+parseRate*unit, doc)
		return
	}
	if alone {
		al := m1.TotalAlloc - m0.TotalAlloc
		t.ratio("parse-alloc", al, unit)
		if al > 1<<20+allocRate*unit {
			t.failf("too-much-memory", "parsing %d bytes allocates %d bytes\n document: %s", len(text), al, doc)
			return
		}
	}
	t.event(fmt.Sprint(steps))
	if len(text) > 2000 {
		t.fault("large-document")
	}
	if p.pan != nil {
		return
	}
	if p.err != nil {
		s0 := zzsim.Steps()
		msg := p.err.Error()
		steps := zzsim.Steps() - s0
		t.evals++
		if steps > constCost+parseRate*uint64(len(text)+len(msg)) {
			t.failf("too-many-steps", "rendering the error takes %d steps\n document: %s", steps, doc)
		}
		t.probe("bound-rejected")
		return
	}
	t.probe("bound-accepted")
	p.enumerate()
	for i, tr := range p.trees {
		for _, rd := range []string{"fmt", "beau0", "walk", "walkb", "findall", "accept"} {
			if alone {
				runtime.ReadMemStats(&m0)
			}
			s0 := zzsim.Steps()
			out := quietRead(rd, tr.root)
			steps := zzsim.Steps() - s0
			t.evals++
			unit := uint64(len(tr.nodes) + out + 16)
			t.ratio(rd+"-steps", steps, unit)
			if steps > constCost+readRate*unit {
				t.failf("too-many-steps", "%s of statement %d (%d nodes, %d bytes of output) takes %d steps\n document: %s", rd, i, len(tr.nodes), out, steps, doc)
				return
			}
			if alone {
				runtime.ReadMemStats(&m1)
				al := m1.TotalAlloc - m0.TotalAlloc
				t.ratio(rd+"-alloc", al, unit)
				if al > 1<<20+allocRate*unit {
					t.failf("too-much-memory", "%s of statement %d (%d nodes, %d bytes of output) allocates %d bytes\n document: %s", rd, i, len(tr.nodes), out, al, doc)
					return
				}
			}
			t.event(fmt.Sprint(rd, steps))
		}
		for k := 0; k < 6 && op.A == 0 && op.B > 0 && len(tr.nodes) > 0; k++ {
			e := tr.nodes[(op.B*(k+1)+k*k)%len(tr.nodes)]
			rd := []string{"fmt", "beau0", "fmt", "walk", "fmt", "accept"}[(op.B+k)%6]
			s0 := zzsim.Steps()
			out := quietRead(rd, e)
			steps := zzsim.Steps() - s0
			t.evals++
			if steps > constCost+readRate*uint64(len(tr.nodes)+out+16) {
				t.failf("too-many-steps", "%s of a %T in statement %d (%d nodes, %d bytes of output) takes %d steps\n document: %s", rd, e, i, len(tr.nodes), out, steps, doc)
				return
			}
			t.event(fmt.Sprint(rd, steps))
		}
		if i > 50 {
			break
		}
	}
}

// growOp: along a growing family of documents the work per byte (or per node
// and byte of output) doesn't grow.
func growOp(t *thr, op scn.Op) {
	p := scn.ParsePattern(op.T)
	n := max(op.A, 8)
	small, large := p.Doc(n), p.Doc(4*n)
	if len(large) > maxDoc || len(large) < 3*len(small) {
		t.probe("pattern-unfit")
		return
	}
	b, read, ok := t.work(large)
	if !ok {
		return
	}
	// Only documents that both parse or neither, and are read about as far for
	// their size, compare: "t.* * *" is an expression with an odd number of
	// stars and an error with an even one.
	var a [5]cost
	for k := 0; ; k++ {
		var far int
		small = p.Doc(n + k)
		if a, far, ok = t.work(small); !ok {
			return
		}
		if (read < 0) == (far < 0) && read <= 8*max(far, 64) && far <= 8*max(read, 64) {
			break
		}
		if k == 3 {
			t.probe("families-differ")
			return
		}
	}
	t.probe("families-measured")
	for i, what := range workNames {
		x, y := a[i], b[i]
		if y.unit == 0 || x.unit == 0 {
			continue
		}
		t.evals++
		if i == 0 {
			t.event(fmt.Sprint(x.steps, y.steps))
		}
		// rates per unit, in thousandths
		if rx, ry := x.steps*1000/x.unit, y.steps*1000/y.unit; ry > 2*rx+growSlack*1000 {
			t.failf("growing-cost", "%s costs %d steps per unit at size %d and %d at size %d: it grows faster than the document\n pattern: %q", what, rx/1000, len(small), ry/1000, len(large), p)
			return
		} else if rx > 0 {
			t.ratio("grow-steps", ry, rx)
		}
		if rx, ry := x.alloc*1000/x.unit, y.alloc*1000/y.unit; y.alloc > 1<<20 && ry > 3*rx+growSlackMem*1000 {
			t.failf("growing-cost", "%s allocates %d bytes per unit at size %d and %d at size %d: it grows faster than the document\n pattern: %q", what, rx/1000, len(small), ry/1000, len(large), p)
			return
		} else if rx > 0 && y.alloc > 1<<20 {
			t.ratio("grow-alloc", ry, rx)
		}
	}
}

const (
	growSlack    = 20
	growSlackMem = 200
)

var workNames = []string{"parsing", "formatting", "beautifying", "walking", "visiting"}

type cost struct{ steps, alloc, unit uint64 }

// work measures parsing a text and reading its first statement. far is where
// the parse failed, or -1.
func (t *thr) work(text string) (cs [5]cost, far int, ok bool) {
	var m0, m1 runtime.MemStats
	var p *parsed
	measure := func(f func()) (c cost) {
		runtime.ReadMemStats(&m0)
		s0 := zzsim.Steps()
		f()
		c.steps = zzsim.Steps() - s0
		runtime.ReadMemStats(&m1)
		c.alloc = m1.TotalAlloc - m0.TotalAlloc
		return c
	}
	cs[0] = measure(func() { p = doParse(text) })
	if p.pan != nil {
		return cs, 0, false
	}
	cs[0].unit = uint64(len(text)+16) * uint64(1+intervals(text))
	var pe *parser.ParseError
	if far = -1; errors.As(p.err, &pe) {
		far = int(pe.Pos)
	}
	if p.err != nil || len(p.stmts) == 0 {
		return cs, far, true
	}
	t.probe("families-accepted")
	p.enumerate()
	tr := p.trees[0]
	for i, rd := range []string{"fmt", "beau0", "walk", "accept"} {
		out := 0
		cs[i+1] = measure(func() { out = quietRead(rd, tr.root) })
		cs[i+1].unit = uint64(len(tr.nodes) + out + 16)
	}
	return cs, far, true
}

func (t *thr) ratio(k string, n, unit uint64) {
	r := int(n * 100 / unit)
	if r > t.probes["max100-"+k] {
		t.probes["max100-"+k] = r
	}
}

// quietRead reads without recording and returns the size of the output.
func quietRead(rd string, e parser.Expr) int {
	switch rd {
	case "fmt":
		return len(parser.Format(e))
	case "beau0":
		f := parser.NewFormatter().WithBeautify()
		f.WriteExpr(e)
		return len(f.String())
	case "walk":
		parser.Walk(e, func(parser.Expr) bool { return true })
	case "walkb":
		parser.WalkWithBreak(e, func(parser.Expr) bool { return true })
	case "findall":
		parser.FindAll(e, func(parser.Expr) bool { return true })
	case "accept":
		_ = e.Accept(&parser.DefaultASTVisitor{Visit: func(parser.Expr) error { return nil }})
	}
	return 0
}

func init() { opKinds["sweep"] = sweepOp }

// behind is what may follow a whole statement by accident.
var behind = []string{" {", " (", " [", " )", " ]", " }", " ,", " .", " :", " ::", " +", " -", " *", " /", " %", " =", " ==", " !=", " <", " >", " <=", " >=", " ||", " ->", " ?", " @",
	" 1", " 1.5", " 'x'", " a", " `b`", " \"c\"", " NULL", " AND", " OR", " NOT", " IN", " IS", " AS", " SELECT", " FROM", " WHERE", " FORMAT", " VALUES", " SETTINGS", " ON", " WITH", " UNION", " LIMIT",
	" ORDER", " GROUP", " INTO", " INTERVAL", " CASE", " END", " DEFAULT", " COMMENT", " FINAL", " USING", " JOIN", " DISTINCT", " ALL", " TO", " SET", " GRANT", " SHOW", " USE", " CHECK", " DROP", " INSERT"}

// sweepOp crashes the writing of a document at every offset (op.A = -1), or at
// offset op.A. What follows the crash point is nothing, zeros, or what another
// document left there.
func sweepOp(t *thr, op scn.Op) {
	full := t.r.docs[op.D]
	old := t.r.docs[op.N%len(t.r.docs)]
	points := len(full) + 1
	var toks []int // where the tokens of the other document start
	switch op.F {
	case "behind":
		points = len(behind)
	case "glue", "stale-token":
		i := 0
		for _, tok := range scn.Tokens(old) {
			if strings.TrimSpace(tok) != "" {
				toks = append(toks, i)
			}
			i += len(tok)
		}
		if len(toks) == 0 {
			return
		}
		if op.F == "stale-token" {
			points = len(toks)
		}
	}
	var at []int
	if op.A >= 0 {
		at = []int{op.A % points}
	} else {
		for i := 0; i < points; i++ {
			at = append(at, i)
		}
		if op.B > 0 && len(at) > op.B {
			r := scn.NewRand(scn.Mix(uint64(op.B), uint64(len(at)), t.r.s.Seed))
			r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
			at = at[:op.B]
		}
	}
	for _, i := range at {
		text := full[:min(i, len(full))]
		switch op.F {
		case "behind": // the statement is whole, one piece of something follows
			text = strings.TrimRight(full, "; \n") + behind[i] + op.T
		case "stale-token": // the statement is whole, the end of another follows
			text = strings.TrimRight(full, "; \n") + op.T + old[toks[i]:]
		case "glue": // cut anywhere, the end of another follows
			text += op.T + old[toks[int(scn.Mix(uint64(i), uint64(len(toks)))%uint64(len(toks)))]:]
		case "zero":
			text += strings.Repeat("\x00", len(full)-i)
		case "stale":
			if i < len(old) {
				text += old[i:]
			}
		case "semi": // the next statement was written after the torn one
			text += ";\nSELECT 1;\n" + old
		case "quote":
			text += "'"
		}
		if len(text) > maxDoc {
			continue
		}
		t.fault("crash-" + op.F)
		t.r.buf = []byte(text)
		tornOp(t, op)
		if t.fail != nil {
			t.refine(op, i)
			return
		}
	}
}

func init() { opKinds["cutbound"] = cutBoundOp }

// cutBoundOp damages a document at each of its tokens in turn (op.A = -1), or at
// token op.A, and bounds the steps to parse what is left and to say what is wrong.
func cutBoundOp(t *thr, op scn.Op) {
	full := t.r.docs[op.D]
	toks := scn.Tokens(full)
	var at []int
	for i := range toks {
		if op.A < 0 || i == op.A%len(toks) {
			at = append(at, i)
		}
	}
	if op.B > 0 && len(at) > op.B {
		r := scn.NewRand(scn.Mix(uint64(op.B), uint64(len(at)), t.r.s.Seed))
		r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		at = at[:op.B]
	}
	for _, i := range at {
		before, after := strings.Join(toks[:i], ""), strings.Join(toks[i:], "")
		rest := strings.Join(toks[i+1:], "")
		text := before
		switch op.F {
		case "drop":
			text = before + rest
		case "double":
			text = before + toks[i] + " " + after
		case "change":
			text = before + behind[int(scn.Mix(t.r.s.Seed, uint64(i))%uint64(len(behind)))] + " " + rest
		case "insert":
			text = before + behind[int(scn.Mix(t.r.s.Seed, uint64(i))%uint64(len(behind)))] + " " + after
		case "semi":
			text = before + ";" + after
		case "open":
			text = before + []string{"'", "`", "\"", "/*", "--", "\\"}[i%6]
		}
		t.fault("cut-" + op.F)
		s0 := zzsim.Steps()
		p := doParse(text)
		msg := ""
		if p.err != nil {
			guard(func() { msg = p.err.Error() })
		}
		steps := zzsim.Steps() - s0
		t.evals++
		unit := uint64(len(text)+len(msg)+16) * uint64(1+intervals(text))
		t.ratio("damaged-parse-steps", steps, unit)
		if steps > constCost+parseRate*unit {
			t.failf("too-many-steps", "parsing %d bytes with %d INTERVAL words takes %d steps, more than %d\n document: %s", len(text), intervals(text), steps, constCost+parseRate*unit, clip(text, 300))
			t.refine(op, i)
			return
		}
		t.event(fmt.Sprint(steps))
	}
}
