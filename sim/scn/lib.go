package scn

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// CorpusDoc is one committed document.
type CorpusDoc struct {
	Name string `json:"name"`
	Text string `json:"text"`
}

// Corpus is everything documents are made from.
type Corpus struct {
	Files []CorpusDoc
	Stmts []string // single statements, without semicolon
	Extra []string // handwritten statements, some invalid

	Grown Grown
}

// Grown is what vdrive evolve found: documents that get the code from one
// statement to another in a way no other does. Many are invalid.
type Grown struct {
	Core []string `json:"core"` // with these every statement that any reaches is reached
	Rest []string `json:"rest"`
}

// LoadCorpus reads /verif/corpus.
func LoadCorpus(dir string) (*Corpus, error) {
	b, err := os.ReadFile(filepath.Join(dir, "repo.json"))
	if err != nil {
		return nil, err
	}
	c := &Corpus{}
	if err := json.Unmarshal(b, &c.Files); err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	for _, f := range c.Files {
		segs, _ := Split(f.Text)
		for _, s := range segs {
			t := strings.TrimSpace(f.Text[s.From:s.To])
			if !s.Empty && !seen[t] {
				seen[t] = true
				c.Stmts = append(c.Stmts, t)
			}
		}
	}
	b, err = os.ReadFile(filepath.Join(dir, "extra.sql"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		l = strings.NewReplacer(`\n`, "\n").Replace(l)
		for _, t := range append([]string{l}, elements(l)...) {
			if !seen[t] {
				seen[t] = true
				c.Extra = append(c.Extra, t)
			}
		}
	}
	if b, err = os.ReadFile(filepath.Join(dir, "grown.json")); err == nil {
		err = json.Unmarshal(b, &c.Grown)
	} else if os.IsNotExist(err) {
		err = nil
	}
	return c, err
}

// elements makes a statement of each element of a list of columns or ALTER commands.
func elements(l string) []string {
	prefix := ""
	switch {
	case strings.HasPrefix(l, "SELECT ") && !strings.Contains(l, " FROM ") && !strings.Contains(l, " UNION "):
		prefix = "SELECT "
	case strings.HasPrefix(l, "ALTER TABLE t "):
		prefix = "ALTER TABLE t "
	default:
		return nil
	}
	var out []string
	cur, depth := "", 0
	for _, t := range Tokens(l[len(prefix):]) {
		switch t {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
		}
		if t == "," && depth == 0 {
			out, cur = append(out, prefix+strings.TrimSpace(cur)), ""
			continue
		}
		cur += t
	}
	if len(out) > 0 {
		out = append(out, prefix+strings.TrimSpace(cur))
	}
	return out
}

// All returns all single statements.
func (c *Corpus) All() []string { return append(append([]string{}, c.Extra...), c.Stmts...) }

// Doc is a document of the library.
type Doc struct {
	Kind string `json:"kind"`
	Text string `json:"text"`
}

var seps = []string{";", ";\n", "; ", ";\n\n", ";;", " ; ", ";-- c\n", ";/* x; y */", "\n;\n", ";\r\n", " /* a */;\n-- b;\n"}

// Sep returns what may stand between two statements: at times a lot of it.
func Sep(r *Rand) string {
	if r.P(93) {
		return Pick(r, seps)
	}
	n := Pick(r, []int{3, 8, 20, 60, 300})
	var b strings.Builder
	bits := Pick(r, [][]string{{";"}, {"; ", ";\n"}, {" "}, {"\n"}, {"-- c; d\n"}, {"/* ; */"}, {";", " ", "\n", "\r\n", "\t", "-- c\n", "/**/", "/* x; y */", "\v", "\f"}})
	for n = r.Range(1, n); n > 0; n-- {
		b.WriteString(Pick(r, bits))
	}
	t := b.String()
	if r.P(50) {
		return ";" + t
	}
	return "\n" + t + ";"
}

// Join makes a document of statements.
func Join(r *Rand, stmts []string) string {
	var b strings.Builder
	if r.P(15) {
		b.WriteString(Pick(r, []string{"\n", "  ", "-- first\n", "/* ; */ ", ";", "\ufeff\n"})[:])
	}
	for i, s := range stmts {
		b.WriteString(s)
		if i < len(stmts)-1 || r.P(50) {
			b.WriteString(Sep(r))
		}
	}
	return b.String()
}

// MutateTokens damages a statement at token level.
func MutateTokens(r *Rand, s string, other string) string {
	ts := Tokens(s)
	if len(ts) == 0 {
		return s
	}
	for n := r.Range(1, 2); n > 0 && len(ts) > 0; n-- {
		i := r.Intn(len(ts))
		switch r.Intn(6) {
		case 0: // lose
			ts = append(ts[:i:i], ts[i+1:]...)
		case 1: // repeat
			ts = append(ts[:i+1:i+1], ts[i:]...)
		case 2: // swap
			j := r.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 3: // foreign token
			os := Tokens(other)
			if len(os) > 0 {
				ts = append(ts[:i:i], append([]string{" ", Pick(r, os), " "}, ts[i:]...)...)
			}
		case 4: // cut
			ts = ts[:i]
		case 5:
			ts[i] = Pick(r, []string{"(", ")", ",", "'", "`", "INTERVAL", "SELECT", "FROM", "0x", "1e", "é", ".", "::", "?", ":", "[", "]", "{", "}", "AS", "NOT", "CASE", "END", "''", "/*", "--", "\"x\"", "*", "@", "1.5", "NULL"})
		}
	}
	return strings.Join(ts, "")
}

// Splice joins the beginning of one statement and the end of another at a
// token both have.
func Splice(r *Rand, a, b string) string {
	ta, tb := Tokens(a), Tokens(b)
	for k := 0; k < 40 && len(ta) > 1 && len(tb) > 1; k++ {
		i := r.Intn(len(ta))
		if strings.TrimSpace(ta[i]) == "" {
			continue
		}
		var at []int
		for j, t := range tb {
			if strings.EqualFold(t, ta[i]) {
				at = append(at, j)
			}
		}
		if len(at) > 0 {
			return strings.Join(ta[:i], "") + strings.Join(tb[Pick(r, at):], "")
		}
	}
	return a
}

func firstWord(s string) string {
	for _, t := range Tokens(s) {
		if isWord(t) {
			return strings.ToUpper(t)
		}
	}
	return ""
}

// Nest wraps an expression-like nesting to a depth.
func Nest(r *Rand, depth int) string {
	kind := r.Intn(len(NestKinds))
	return NestDoc(kind, depth)
}

// NestKinds are nesting and repetition patterns: prefix, opener, middle, closer, suffix.
var NestKinds = []Pattern{
	{"SELECT ", "(", "1", ")", ""},
	{"SELECT ", "[", "1", "]", ""},
	{"SELECT ", "f(", "1", ")", ""},
	{"SELECT ", "(SELECT ", "1", ")", ""},
	{"SELECT * FROM ", "(SELECT * FROM ", "t", ")", ""},
	{"SELECT ", "CASE WHEN a THEN ", "1", " ELSE 2 END", ""},
	{"SELECT ", "CAST(", "1", " AS String)", ""},
	{"SELECT ", "NOT ", "a", "", ""},
	{"SELECT ", "- ", "a", "", ""},
	{"SELECT ", "a + (", "b", ")", ""},
	{"SELECT ", "INTERVAL (", "1", ") DAY", ""},
	{"SELECT ", "INTERVAL ", "1", " DAY", ""},
	{"SELECT ", "interval + (", "1", ")", ""},
	{"SELECT ", "x -> (", "x", ")", ""},
	{"SELECT ", "a ? (", "b", ") : c", ""},
	{"SELECT ", "tuple(a, (b, ", "c", "))", ""},
	{"SELECT ", "a", "", " + a", ""},
	{"SELECT ", "a", "", " AND a = 1", ""},
	{"SELECT a", "", "", "[1]", ""},
	{"SELECT a", "", "", "::String", ""},
	{"SELECT a", "", "", ".b", ""},
	{"SELECT a", "", "", ", b", ""},
	{"SELECT a IN (1", "", "", ", 2", ")"},
	{"SELECT * FROM t", "", "", " JOIN u ON a = b", ""},
	{"SELECT 1", "", "", " UNION ALL SELECT 1", ""},
	{"SELECT * FROM t WHERE a", "", "", " OR b LIKE 'x'", ""},
	{"SELECT CASE ", "", "", "WHEN a THEN b ", " ELSE c END"},
	{"CREATE TABLE t (a Int32", "", "", ", b Array(String) DEFAULT 1 COMMENT 'x' CODEC(ZSTD(1))", ") ENGINE = MergeTree ORDER BY a"},
	{"CREATE TABLE t (a ", "Array(", "Int32", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a ", "Tuple(x Nested(y ", "Int32", "))", ") ENGINE = Memory"},
	{"ALTER TABLE t ADD COLUMN a Int32", "", "", ", DROP COLUMN b", ""},
	{"INSERT INTO t VALUES (1)", "", "", ", (2, 'x')", ""},
	{"SELECT 1", "", "", ";SELECT 1", ""},
	{"", "EXPLAIN ", "SELECT 1", "", ""},
	{"WITH a AS (SELECT 1)", "", "", ", b AS (SELECT 2)", " SELECT 1"},
	{"SELECT 1 SETTINGS a = 1", "", "", ", b = 'x'", ""},
	{"GRANT SELECT(a", "", "", ", b", ") ON t TO u"},
	{"SELECT f(a) OVER (PARTITION BY a", "", "", ", b", " ORDER BY c)"},
	{"SELECT sum(x)", "", "", ", INTERVAL 1 DAY + interval", ""},
	{"SELECT {a:String}", "", "", " , {b:Int32}", ""},
	{"SELECT 1 /* c */", "", "", "/* comment */ -- x\n", ""},
	{"SELECT 'a", "", "", "''\\'b", "'"},
	{"SELECT a BETWEEN 1 AND 2", "", "", " AND a BETWEEN 1 AND 2", ""},
	{"SELECT a GROUP BY a", "", "", ", (b, c)", " WITH ROLLUP"},
	{"SELECT * FROM (", "(", "SELECT 1", ")", ")"},
	{"SELECT ", "EXISTS(SELECT ", "1", ")", ""},
	{"SELECT ", "arrayMap((x, y) -> ", "1", ", z)", ""},
	{"SELECT ", "if(a, ", "b", ", c)", ""},
	{"SELECT a ", "", "", "IS NOT NULL AND b ", ""},
	{"SELECT * EXCEPT(a", "", "", ", b", ")"},
	{"SELECT ", "EXTRACT(DAY FROM ", "a", ")", ""},
	{"SELECT ", "[a, {", "1", "}]", ""},
}

// NestDoc is pattern kind repeated n times.
func NestDoc(kind, n int) string {
	return NestKinds[kind%len(NestKinds)].Doc(n)
}

// Respace lays a document out differently: other white space and comments
// between the tokens that had some between them.
func Respace(r *Rand, s string) string {
	ts := Tokens(s)
	blanks := Pick(r, [][]string{{"\n"}, {"\n", " "}, {"\r\n"}, {"\t", "  ", "\n\n"}, {"\n", "/* a\nb */", "-- c\n"}, {" ", " ", " ", "\n"}})
	for i, t := range ts {
		if strings.TrimSpace(t) == "" && t != "" {
			ts[i] = Pick(r, blanks)
		}
	}
	return strings.Join(ts, "")
}

// Near returns n variants of a statement that differ in one byte, one letter's
// case or one byte more of a name, number or string, which is first made as
// long as such things get. Caches that take one thing for another mix them up.
func Near(r *Rand, s string, n int) []string {
	ts := Tokens(s)
	var at []int
	for i, t := range ts {
		c := t[0]
		if c >= 'a' && c <= 'z' || c == '_' || c >= '0' && c <= '9' || len(t) > 1 && (c == '\'' || c == '`' || c == '"') && t[len(t)-1] == c {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return nil
	}
	var grown []int // the tokens made longer
	for k := r.Range(1, 3); k > 0; k-- {
		i := Pick(r, at)
		want := r.Range(1, 24)
		if r.P(35) {
			want = r.Range(24, 80)
		}
		if r.P(4) {
			want = r.Range(80, 600)
		}
		ts[i] = stretch(r, ts[i], want)
		grown = append(grown, i)
	}
	out := []string{strings.Join(ts, "")}
	for len(out) < n {
		i := Pick(r, grown)
		old := ts[i]
		ts[i] = vary(r, old)
		out = append(out, strings.Join(ts, ""))
		if r.P(60) {
			ts[i] = old
		}
	}
	return out
}

// body finds the part of a token that may change.
func body(t string) (from, to int) {
	switch t[0] {
	case '\'', '`', '"':
		return 1, len(t) - 1
	}
	return 0, len(t)
}

func filler(r *Rand, digits bool) byte {
	if digits {
		return byte('0' + r.Intn(10))
	}
	return Pick(r, []byte("abcdefghijklmnopqrstuvwxyz0123456789_ABCXYZ"))
}

func isNumber(t string) bool { return t[0] >= '0' && t[0] <= '9' }

func stretch(r *Rand, t string, want int) string {
	for from, to := body(t); to-from < want; to++ {
		k := to
		if isNumber(t) && strings.Trim(t, "0123456789") != "" {
			return t
		}
		t = t[:k] + string(filler(r, isNumber(t))) + t[k:]
	}
	return t
}

func vary(r *Rand, t string) string {
	from, to := body(t)
	if to == from {
		return stretch(r, t, 1)
	}
	k := r.Range(from, to-1)
	switch r.Intn(5) {
	case 0: // one more
		return t[:to] + string(filler(r, isNumber(t))) + t[to:]
	case 1: // another case
		for j := from; j < to; j++ {
			c := t[k]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				return t[:k] + string(c^0x20) + t[k+1:]
			}
			if k++; k == to {
				k = from
			}
		}
	case 2: // two bytes swapped
		if j := r.Range(from, to-1); t[j] != '\\' && t[k] != '\\' && !isNumber(t) && (from > 0 || j > 0 && k > 0) {
			b := []byte(t)
			b[j], b[k] = b[k], b[j]
			return string(b)
		}
	}
	if t[k] == '\\' || k > from && t[k-1] == '\\' || t[k] == '\'' || isNumber(t) && (t[k] < '0' || t[k] > '9') || from == 0 && k == 0 {
		return t[:to] + string(filler(r, isNumber(t))) + t[to:]
	}
	c := filler(r, isNumber(t))
	if c == t[k] {
		c = filler(r, isNumber(t))
	}
	return t[:k] + string(c) + t[k+1:]
}

// Fork returns statements that are the same up to some token and go on
// differently: what a parser noted at a place for one is wrong for the next.
func Fork(r *Rand, s string, n int, other func() string) []string {
	ts := Tokens(s)
	var at []int
	for i, t := range ts {
		if strings.TrimSpace(t) != "" {
			at = append(at, i)
		}
	}
	if len(at) < 2 {
		return nil
	}
	k := r.Range(1, len(at)-1)
	i := at[k]
	out := []string{s}
	head, tail := strings.Join(ts[:i], ""), ts[i:]
	for len(out) < n {
		t := ""
		switch r.Intn(7) {
		case 0: // ends after the token
			t = tail[0]
		case 1: // some tokens less
			if from := at[min(len(at)-1, k+r.Range(1, 3))]; from > i {
				t = tail[0] + " " + strings.Join(ts[from:], "")
			}
		case 2: // ends a little later
			t = strings.Join(ts[i:at[min(len(at)-1, k+r.Range(1, 6))]], "")
		case 3: // another token after it
			t = tail[0] + " " + Pick(r, []string{"1", "x", "'s'", "(1)", "DESC", "+ 1", "AS y", "FROM t", ", 2", "DAY", "= 1", ".c", "[1]"})
			if r.P(50) && len(tail) > 2 {
				t += " " + strings.Join(tail[2:], "")
			}
		case 4, 5: // goes on as another statement does after such a token
			for c := 0; c < 12 && t == ""; c++ {
				var js []int
				to := Tokens(other())
				for j, w := range to {
					if strings.EqualFold(w, tail[0]) {
						js = append(js, j)
					}
				}
				if len(js) > 0 {
					t = tail[0] + strings.Join(to[Pick(r, js)+1:], "")
				}
			}
		case 6:
			t = MutateTokens(r, strings.Join(tail, ""), other())
		}
		if r.P(40) {
			out = append(out, head+t)
		} else {
			out = append([]string{head + t}, out...)
		}
	}
	return out
}

// NearKind is the kind of the documents of one family of Near.
const NearKind = "near-"

// longs adds n statements with a long flat list of something.
func longs(c *Corpus, seed uint64, n, maxLen int, add func(kind, text string)) {
	r := NewRand(Mix(seed, 0x1046))
	var flat []Pattern
	for _, p := range NestKinds {
		if p[1] == "" {
			flat = append(flat, p)
		}
	}
	for k := 0; k < n; k++ {
		p := Pick(r, flat)
		if k >= len(flat) {
			for t := 0; t < 50; t++ {
				if p = GrowPattern(r, Pick(r, c.Stmts)); p[1] == "" && len(p[3]) > 1 && len(p[3]) < 60 {
					break
				}
			}
		} else {
			p = flat[k]
		}
		if t := p.Doc(r.Range(maxLen/10, maxLen) / (len(p[3]) + 1)); !strings.Contains(strings.ToUpper(t), "INTERVAL") {
			add("long", t)
		}
	}
}

// misspelts adds n statements with a word that is not quite right.
func misspelts(c *Corpus, seed uint64, n int, add func(kind, text string)) {
	r := NewRand(Mix(seed, 0x3155))
	byLen := map[int][]string{}
	seen := map[string]bool{}
	for _, s := range c.All() {
		for _, t := range Tokens(s) {
			u := strings.ToUpper(t)
			if isLetter(t[0]) && len(t) > 1 && len(t) < 24 && !seen[u] && (u == t || len(byLen[len(u)]) == 0) { // mostly keywords
				seen[u] = true
				byLen[len(u)] = append(byLen[len(u)], u)
			}
		}
	}
	kin := map[string][]string{}
	var first []string
	for _, s := range c.All() {
		w := firstWord(s)
		if strings.HasPrefix(s, "--") || w == "" {
			continue
		}
		if kin[w] == nil {
			first = append(first, w)
		}
		kin[w] = append(kin[w], s)
	}
	for k := 0; k < n; k++ {
		ts := Tokens(Pick(r, kin[Pick(r, first)]))
		var at []int
		for i, t := range ts {
			if isLetter(t[0]) && len(t) > 1 && byLen[len(t)] != nil {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		i := at[0]
		if r.P(60) {
			i = Pick(r, at)
		}
		ts[i] = misspell(r, ts[i], byLen)
		if r.P(40) { // shortly after it the document ends
			ts = ts[:min(len(ts), i+1+r.Intn(8))]
		}
		add("misspelt", strings.Join(ts, ""))
	}
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func misspell(r *Rand, w string, byLen map[int][]string) string {
	if r.P(40) {
		w = Pick(r, byLen[len(w)])
	}
	b := []byte(w)
	i := r.Intn(len(b))
	switch r.Intn(6) {
	case 0: // a letter too few
		return string(append(b[:i:i], b[i+1:]...))
	case 1: // one too many
		return string(append(b[:i+1:i+1], b[i:]...))
	case 2: // two swapped
		j := (i + 1) % len(b)
		b[i], b[j] = b[j], b[i]
	case 3: // a wrong one
		b[i] = Pick(r, []byte("ABCDEFGHIKLMNOPRSTUVWXYZ_0é"))
	default: // between two words that differ in two letters
		u := strings.ToUpper(w)
		for c := 0; c < 300; c++ {
			o := Pick(r, byLen[len(u)])
			var diff []int
			for k := range o {
				if k < len(u) && o[k] != u[k] {
					diff = append(diff, k)
				}
			}
			if len(diff) == 2 {
				k := Pick(r, diff)
				return u[:k] + o[k:k+1] + u[k+1:]
			}
		}
		b[i] = Pick(r, []byte("ABCDEFGHIKLMNOPRSTUVWXYZ_0"))
	}
	return string(b)
}

// Library makes the documents of a check: all single statements, the corpus
// files, some grown ones, and n joined, mutated, damaged and differently laid
// out ones. Deterministic in seed.
func Library(c *Corpus, seed uint64, n, grown, maxLen int) []Doc {
	r := NewRand(Mix(seed, 0x11b))
	var ds []Doc
	seen := map[string]bool{}
	add := func(kind, text string) {
		if len(text) <= maxLen && !seen[text] {
			seen[text] = true
			ds = append(ds, Doc{kind, text})
		}
	}
	all := c.All()
	for _, s := range all {
		add("statement", s)
	}
	for _, f := range c.Files {
		add("file", f.Text)
	}
	for _, s := range c.Grown.Core {
		add("grown", s)
	}
	if grown >= len(c.Grown.Rest) {
		for _, s := range c.Grown.Rest {
			add("grown", s)
		}
	} else {
		for ; grown > 0; grown-- {
			add("grown", Pick(r, c.Grown.Rest))
		}
	}
	for k := range NestKinds {
		add("nest", NestDoc(k, r.Range(2, 9)))
	}
	for k, p := range NestKinds {
		// deep ones, as long as they may be
		if d := r.Range(20, 1500); p[1] != "" || k%3 == 0 {
			for t := ""; d > 10; d = d * 3 / 4 {
				if t = NestDoc(k, d); len(t) <= min(maxLen, 4000) && !strings.Contains(strings.ToUpper(t), "INTERVAL") {
					add("deep", t)
					break
				}
			}
		}
	}
	for k := 0; k < n/6; k++ {
		for _, t := range Near(r, Pick(r, all), r.Range(2, 4)) {
			add(NearKind+strconv.Itoa(k), t)
		}
	}
	for k := 0; k < n/8; k++ {
		for _, t := range Fork(r, Pick(r, all), r.Range(2, 4), func() string { return Pick(r, all) }) {
			if t = strings.TrimSpace(t); t != "" {
				add(NearKind+"fork-"+strconv.Itoa(k), t)
			}
		}
	}
	longs(c, seed, n/8, min(maxLen, 4000), add)
	misspelts(c, seed, n/2, add)
	mixed(c, seed, n/4, add)
	renamed(c, seed, n/4, add)
	dual(c, seed, n/4, add)
	kin := map[string][]string{}
	for _, s := range all {
		kin[firstWord(s)] = append(kin[firstWord(s)], s)
	}
	splice := func() string {
		a := Pick(r, all)
		b := Pick(r, kin[firstWord(a)])
		if r.P(15) {
			b = Pick(r, all)
		}
		t := Splice(r, a, b)
		if r.P(30) {
			t = Splice(r, t, Pick(r, kin[firstWord(a)]))
		}
		return t
	}
	tries := 0
	for base := len(ds); len(ds) < base+n && tries < 20*n; {
		tries++
		switch r.Intn(10) {
		case 7, 8, 9:
			add("spliced", splice())
		case 0, 1:
			var ss []string
			for k := r.Range(2, 5); k > 0; k-- {
				ss = append(ss, Pick(r, all))
			}
			add("joined", Join(r, ss))
		case 2, 3:
			t := MutateTokens(r, Pick(r, all), Pick(r, all))
			if r.P(40) {
				t = Respace(r, t)
			}
			add("mutated", t)
		case 4:
			t := []byte(Pick(r, all))
			if len(t) == 0 {
				continue
			}
			for k := r.Range(1, 3); k > 0; k-- {
				t[r.Intn(len(t))] = Pick(r, []byte("'`\"();,.-/*0aZ \n\x00\xffé"))
			}
			add("damaged", string(t))
		case 5:
			var ss []string
			for k := r.Range(1, 3); k > 0; k-- {
				ss = append(ss, Pick(r, all))
			}
			ss = append(ss, MutateTokens(r, Pick(r, all), Pick(r, all)), Pick(r, all))
			t := Join(r, ss)
			if r.P(50) {
				t = Respace(r, t)
			}
			add("joined-bad", t)
		case 6:
			add("respaced", Respace(r, Pick(r, all)))
		}
	}
	return ds
}
