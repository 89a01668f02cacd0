package scn

import "strings"

// Pattern is a family of documents: prefix, then n openers, the middle, n
// closers, the suffix. With an empty opener it is a list that grows. Then
// there may be something more that grows, and its end.
type Pattern [7]string

// Doc is the member of size n.
func (p Pattern) Doc(n int) string {
	return p[0] + strings.Repeat(p[1], n) + p[2] + strings.Repeat(p[3], n) + p[4] + strings.Repeat(p[5], n) + p[6]
}

const patSep = "\x1e"

func (p Pattern) String() string { return strings.Join(p[:], patSep) }

// ParsePattern undoes String.
func ParsePattern(s string) (p Pattern) {
	for i, x := range strings.SplitN(s, patSep, len(p)) {
		p[i] = x
	}
	return p
}

var junk = [][3]string{{" /*", "x", "*/"}, {"; SELECT '", "x", "'"}, {" -- ", "x", "\n"}, {"; SELECT `", "x", "`"}, {"; SELECT 1 AS ", "x", ""}, {"", " ", ""}, {"", "\n", ""}, {";", ";", ""}, {"; SELECT 1", " + a", ""},
	{"; SELECT ", "(", ""}, {"/*", "\n", "*/"}, {"; SELECT ", "9", ""}}

// WithJunk lets something else in the document grow too, behind, beside or
// ahead of what the pattern repeats.
func (p Pattern) WithJunk(r *Rand) Pattern {
	j := Pick(r, junk)
	unit := strings.Repeat(j[1], 1<<r.Intn(8))
	switch k := r.Intn(3); {
	case k == 0 && p[1] == "" && j[0] != "" && j[0][0] != ';': // ahead
		return Pattern{j[0], unit, j[2] + p[0], p[3], p[4]}
	case k < 2 && (j[0] == "" || j[0][0] != ';'): // between
		return Pattern{p[0], p[1], p[2], p[3], j[0], unit, j[2] + p[4]}
	}
	p[4], p[5], p[6] = p[4]+j[0], unit, j[2]
	return p
}

func isBlank(t string) bool { return strings.TrimSpace(t) == "" }

func isWord(t string) bool {
	c := t[0]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '\'' || c == '`' || c == '"'
}

// GrowPattern derives a growing family from a statement: a bracketed part put
// into itself in place of one of its words, an element of a list repeated, or
// any stretch of words repeated.
func GrowPattern(r *Rand, text string) Pattern {
	ts := Tokens(strings.TrimRight(strings.TrimSpace(text), ";"))
	join := func(i, j int) string { return strings.Join(ts[i:j], "") }
	match := map[int]int{}
	var stack []int
	for i, t := range ts {
		switch t {
		case "(", "[", "{":
			stack = append(stack, i)
		case ")", "]", "}":
			if len(stack) > 0 {
				match[stack[len(stack)-1]] = i
				stack = stack[:len(stack)-1]
			}
		}
	}
	var opens, commas []int
	for i, t := range ts {
		if _, ok := match[i]; ok {
			opens = append(opens, i)
		}
		if t == "," {
			commas = append(commas, i)
		}
	}
	switch k := r.Intn(10); {
	case k < 5 && len(opens) > 0:
		i := Pick(r, opens)
		j := match[i]
		// with what stands before the bracket: f(...), CAST(...), IN (...)
		from := i
		for b := r.Intn(3); b > 0 && from > 0; b-- {
			from--
			if from > 0 && isBlank(ts[from]) {
				from--
			}
		}
		var words []int
		for w := i + 1; w < j; w++ {
			if isWord(ts[w]) {
				words = append(words, w)
			}
		}
		if len(words) > 0 {
			w := Pick(r, words)
			if r.P(50) { // a whole operand rather than a word of it
				w2 := Pick(r, words)
				if w2 < w {
					w, w2 = w2, w
				}
				return Pattern{join(0, from), join(from, w), join(w, w2+1), join(w2+1, j+1), join(j+1, len(ts))}
			}
			return Pattern{join(0, from), join(from, w), ts[w], join(w+1, j+1), join(j+1, len(ts))}
		}
	case k < 8 && len(commas) > 0:
		i := Pick(r, commas)
		d := 0
		j := i + 1
		for ; j < len(ts); j++ {
			switch ts[j] {
			case "(", "[", "{":
				d++
			case ")", "]", "}":
				d--
			}
			if d < 0 || d == 0 && ts[j] == "," {
				break
			}
			if d == 0 && isBlank(ts[j]) && r.P(15) {
				break
			}
		}
		return Pattern{join(0, j), "", "", join(i, j), join(j, len(ts))}
	}
	if len(ts) == 0 {
		return Pattern{"SELECT 1", "", "", " + 1", ""}
	}
	i := r.Intn(len(ts))
	j := min(len(ts), i+1+r.Intn(10))
	sep := ""
	if r.P(60) {
		sep = " "
	}
	return Pattern{join(0, j), "", "", sep + join(i, j), join(j, len(ts))}
}

// Brackets puts every bracketed part of a statement, with the word before it,
// into itself in place of each of its words and of each element of its list.
// The key tells constructs apart.
func Brackets(text string, f func(key string, p func() Pattern)) {
	ts := Tokens(strings.TrimRight(strings.TrimSpace(text), ";"))
	join := func(i, j int) string { return strings.Join(ts[i:j], "") }
	var stack []int
	for j, t := range ts {
		switch t {
		case "(", "[", "{":
			stack = append(stack, j)
			continue
		case ")", "]", "}":
		default:
			continue
		}
		if len(stack) == 0 {
			continue
		}
		i := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		from := i
		for from > 0 && isBlank(ts[from-1]) {
			from--
		}
		if from > 0 && isWord(ts[from-1]) {
			from--
		} else {
			from = i
		}
		head := strings.ToUpper(join(from, i+1))
		put := func(kind string, w, w2 int) {
			f(head+kind, func() Pattern {
				return Pattern{join(0, from), join(from, w), join(w, w2), join(w2, j+1), join(j+1, len(ts))}
			})
		}
		nth := 0
		for n, sep := range []string{", ", " + "} {
			wide := strings.Repeat("x", 16<<(2*n))
			f(head+"flat"+sep, func() Pattern { return Pattern{join(0, j+1), "", "", sep + join(from, j+1), join(j+1, len(ts))} })
			f(head+"flatjunk"+sep, func() Pattern {
				return Pattern{join(0, j+1), "", "", sep + join(from, j+1), " /*", wide, "*/ " + join(j+1, len(ts))}
			})
		}
		for w := i + 1; w < j; w++ {
			if isWord(ts[w]) && nth < 12 {
				put("w"+string(rune('0'+nth)), w, w+1)
				nth++
			}
		}
		d, start := 0, i+1
		nth = 0
		for w := i + 1; w <= j; w++ {
			switch ts[w] {
			case "(", "[", "{":
				d++
			case ")", "]", "}":
				d--
			}
			if d < 0 || d == 0 && ts[w] == "," {
				for start < w && isBlank(ts[start]) {
					start++
				}
				if start < w && nth < 6 {
					put("e"+string(rune('0'+nth)), start, w)
					nth++
				}
				start = w + 1
			}
		}
	}
}
