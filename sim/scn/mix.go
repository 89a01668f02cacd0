package scn

import (
	"slices"
	"strings"
)

// words returns the upper-case words of the corpus: mostly keywords.
func (c *Corpus) words() []string {
	var out []string
	seen := map[string]bool{}
	for _, s := range c.All() {
		for _, t := range Tokens(s) {
			if len(t) > 1 && len(t) < 24 && isLetter(t[0]) && t == strings.ToUpper(t) && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}

// Words returns them for other packages.
func (c *Corpus) Words() []string { return c.words() }

var oddNames = []string{"interval", "INTERVAL", "date", "timestamp", "case", "end", "cast", "extract", "not", "null", "select", "from", "format", "settings", "values", "all", "any", "key", "first", "last"}

// Rename puts keywords in the place of some names.
func Rename(r *Rand, text string, words []string) string {
	ts := Tokens(text)
	var at []int
	for i, t := range ts {
		if isLetter(t[0]) && t != strings.ToUpper(t) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return text
	}
	w := Pick(r, words)
	for k := r.Range(1, 3); k > 0; k-- {
		if r.P(40) {
			w = Pick(r, words)
		}
		if r.P(25) {
			w = Pick(r, oddNames)
		}
		if r.P(60) {
			w = strings.ToLower(w)
		}
		ts[Pick(r, at)] = w
	}
	return strings.Join(ts, "")
}

// item is an element of a list: tokens from..to of it, and what kind of list it is.
type item struct {
	head     string
	from, to int
}

// items finds the elements of the lists of a statement.
func items(ts []string) []item {
	type level struct {
		head  string
		from  int // where the element begins
		count int
	}
	var out []item
	st := []level{{}}
	word := ""
	put := func(to int) {
		l := &st[len(st)-1]
		from := l.from
		for from < to && isBlank(ts[from]) {
			from++
		}
		for to > from && isBlank(ts[to-1]) {
			to--
		}
		if from < to {
			out = append(out, item{l.head, from, to})
		}
		l.count++
	}
	for i, t := range ts {
		switch {
		case t == "(" || t == "[" || t == "{":
			st = append(st, level{head: t + word, from: i + 1})
		case t == ")" || t == "]" || t == "}":
			if len(st) > 1 {
				if st[len(st)-1].count > 0 {
					put(i)
				}
				st = st[:len(st)-1]
			}
		case t == ",":
			put(i)
			st[len(st)-1].from = i + 1
		case isLetter(t[0]) && t == strings.ToUpper(t) && len(t) > 1:
			l := &st[len(st)-1]
			switch t {
			case "FROM", "WHERE", "GROUP", "ORDER", "HAVING", "LIMIT", "SETTINGS", "UNION", "FORMAT", "WITH", "WINDOW", "PREWHERE":
				if l.count > 0 {
					put(i)
				}
			}
			if l.count == 0 || t == "BY" || t == "SETTINGS" || t == "SELECT" {
				*l = level{head: t, from: i + 1}
			}
		}
		if isLetter(t[0]) {
			word = strings.ToUpper(t)
		} else if !isBlank(t) {
			word = ""
		}
	}
	if st[len(st)-1].count > 0 {
		put(len(ts))
	}
	return out
}

// mixed adds n statements with lists of elements from other statements' lists,
// some with keywords as names.
func mixed(c *Corpus, seed uint64, n int, add func(kind, text string)) {
	r := NewRand(Mix(seed, 0x313d))
	words := c.words()
	pool := map[string][]string{}
	type cand struct {
		ts []string
		is []item
	}
	byHead := map[string][]cand{}
	var heads []string
	for _, s := range c.All() {
		ts := Tokens(s)
		is := items(ts)
		for _, it := range is {
			if pool[it.head] == nil {
				heads = append(heads, it.head)
			}
			pool[it.head] = append(pool[it.head], strings.Join(ts[it.from:it.to], ""))
			byHead[it.head] = append(byHead[it.head], cand{ts, []item{it}})
		}
	}
	if len(heads) == 0 {
		return
	}
	// elements that mean a word that may be a name as well
	means := map[string][]cand{}
	for _, h := range heads {
		for _, cd := range byHead[h] {
			for _, w := range oddNames {
				if it := cd.is[0]; slices.Contains(cd.ts[it.from:it.to], strings.ToUpper(w)) {
					means[w] = append(means[w], cd)
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		h := Pick(r, heads)
		cd := Pick(r, byHead[h])
		w := ""
		if r.P(15) {
			w = Pick(r, oddNames)
			if len(means[w]) > 0 {
				cd = Pick(r, means[w])
				h = cd.is[0].head
			}
			w = strings.ToUpper(w)
		} else if r.P(25) {
			it := cd.is[0]
			w = wordOf(r, cd.ts[it.from:it.to])
		}
		it := cd.is[0]
		var els []string
		own := strings.Join(cd.ts[it.from:it.to], "")
		if w != "" {
			// the word as a name, again and again, then the element that means it
			e := Pick(r, pool[h])
			for j := r.Range(1, 12); j > 0; j-- {
				switch r.Intn(4) {
				case 0:
					els = append(els, w)
				case 1:
					els = append(els, Rename(r, e, []string{w}))
				case 2:
					els = append(els, Rename(r, Pick(r, pool[h]), []string{w}))
				case 3:
					els = append(els, strings.ToLower(w))
				}
			}
			els = append(els, own)
			add("mixed", strings.Join(cd.ts[:it.from], "")+strings.Join(els, ", ")+strings.Join(cd.ts[it.to:], ""))
			continue
		}
		for j := r.Range(1, 8); j > 0; j-- {
			e := Pick(r, pool[h])
			switch {
			case r.P(20):
				e = own
			case r.P(15):
				// one of some list like it
				e = Pick(r, pool[Pick(r, heads)])
			}
			if r.P(40) {
				e = Rename(r, e, words)
			}
			els = append(els, e)
		}
		if r.P(70) {
			els = append(els, own)
		}
		r.Shuffle(len(els), func(i, j int) { els[i], els[j] = els[j], els[i] })
		add("mixed", strings.Join(cd.ts[:it.from], "")+strings.Join(els, ", ")+strings.Join(cd.ts[it.to:], ""))
	}
}

// renamed adds n statements with keywords as names.
func renamed(c *Corpus, seed uint64, n int, add func(kind, text string)) {
	r := NewRand(Mix(seed, 0x4e41))
	words, all := c.words(), c.All()
	for k := 0; k < n; k++ {
		add("named", Rename(r, Pick(r, all), words))
	}
}

// wordOf picks a keyword of the tokens.
func wordOf(r *Rand, ts []string) string {
	var ws []string
	for _, t := range ts {
		if len(t) > 1 && isLetter(t[0]) && t == strings.ToUpper(t) {
			ws = append(ws, t)
		}
	}
	if len(ws) == 0 {
		return ""
	}
	return Pick(r, ws)
}

// dual adds n statements that use a word as a name again and again and then
// for what it means: SELECT interval, interval + 1, INTERVAL 1 DAY.
func dual(c *Corpus, seed uint64, n int, add func(kind, text string)) {
	r := NewRand(Mix(seed, 0xd0a1))
	exprs := map[string][]string{}
	var words []string
	for _, s := range c.All() {
		ts := Tokens(s)
		for i, t := range ts {
			if len(t) < 2 || !isLetter(t[0]) || t != strings.ToUpper(t) {
				continue
			}
			// what follows it, to the end of the element
			depth, j := 0, i+1
			for ; j < len(ts) && j < i+40; j++ {
				u := ts[j]
				switch u {
				case "(", "[", "{":
					depth++
				case ")", "]", "}":
					depth--
				}
				if depth < 0 || depth == 0 && (u == "," || u == ";" || slices.Contains(ends, u)) {
					break
				}
			}
			if e := strings.TrimSpace(strings.Join(ts[i:j], "")); e != t {
				if exprs[t] == nil {
					words = append(words, t)
				}
				if len(exprs[t]) < 40 {
					exprs[t] = append(exprs[t], e)
				}
			}
		}
	}
	if len(words) == 0 {
		return
	}
	forms := []string{"?", "?", "?", "? + 1", "1 - ?", "(?, 1)", "[?]", "f(?)", "? AS x", "t.?", "?.a", "? = ?", "NOT ?", "-?", "? ? 1", "?, (?)"}
	for k := 0; k < n; k++ {
		w := Pick(r, words)
		if u := strings.ToUpper(Pick(r, oddNames[:min(len(oddNames), r.Range(2, 40))])); r.P(60) && len(exprs[u]) > 0 {
			w = u
		}
		plain := r.P(60)
		as := []string{w, w, strings.ToLower(w)}
		list := func(tail ...string) string {
			var els []string
			for j := r.Range(1, 7); j > 0; j-- {
				f := Pick(r, forms)
				if plain {
					f = "?"
				}
				els = append(els, strings.ReplaceAll(f, "?", Pick(r, as))+Pick(r, tail))
			}
			if r.P(80) {
				els = append(els, Pick(r, exprs[w])+Pick(r, tail))
			}
			if r.P(20) {
				els = append(els, Pick(r, as))
			}
			return strings.Join(els, ", ")
		}
		switch r.Intn(6) {
		case 0:
			add("dual", "SELECT "+list("")+" FROM t ORDER BY "+list("", " ASC", " DESC"))
		case 1:
			add("dual", "SELECT 1 FROM t ORDER BY "+list("", " ASC", " DESC"))
		case 2:
			add("dual", "SELECT "+list("")+" FROM t GROUP BY "+list(""))
		case 3:
			add("dual", "SELECT f("+list("")+")")
		case 4:
			add("dual", "SELECT a FROM t WHERE a IN ("+list("")+")")
		case 5:
			add("dual", "SELECT "+list(""))
		}
	}
}

// ends are words an expression ends before.
var ends = []string{"FROM", "WHERE", "GROUP", "ORDER", "HAVING", "LIMIT", "SETTINGS", "UNION", "FORMAT", "WINDOW", "PREWHERE", "AS", "ASC", "DESC", "TO", "DELETE", "ENGINE"}
