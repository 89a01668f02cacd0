package scn

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Segment is the text between two top-level semicolons.
type Segment struct {
	From, To int  // To excludes the semicolon
	Empty    bool // only white space and comments
	Closed   bool // ended by a semicolon
}

// Split is an independent reading of where statements end: strings with
// backslash and doubled-quote escapes, back-quoted and double-quoted names,
// line and block comments. open names what is unterminated at the end of the text.
// A nil result with open == "" never happens.
func Split(s string) (segs []Segment, open string) {
	i, start := 0, 0
	empty := true
	for i < len(s) {
		c := s[i]
		switch {
		case c == ';':
			segs = append(segs, Segment{start, i, empty, true})
			i++
			start, empty = i, true
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := i + 2
			for j+1 < len(s) && !(s[j] == '*' && s[j+1] == '/') {
				j++
			}
			if j+1 >= len(s) {
				return append(segs, Segment{start, len(s), empty, false}), "comment"
			}
			i = j + 2
		case c == '\'':
			empty = false
			j := i + 1
			closed := false
			for j < len(s) {
				if s[j] == '\\' {
					j += 2
					continue
				}
				if s[j] == '\'' {
					if j+1 < len(s) && s[j+1] == '\'' {
						j += 2
						continue
					}
					closed = true
					break
				}
				j++
			}
			if !closed {
				return append(segs, Segment{start, len(s), false, false}), "string"
			}
			i = j + 1
		case c == '`' || c == '"':
			empty = false
			j := i + 1
			for j < len(s) && s[j] != c {
				j++
			}
			if j >= len(s) {
				return append(segs, Segment{start, len(s), false, false}), "identifier"
			}
			i = j + 1
		default:
			r, size := utf8.DecodeRuneInString(s[i:])
			if !unicode.IsSpace(r) {
				empty = false
			}
			i += size
		}
	}
	return append(segs, Segment{start, len(s), empty, false}), ""
}

// Tokens cuts a text into rough tokens (words, literals, punctuation, blanks),
// for mutation.
func Tokens(s string) []string {
	var ts []string
	i := 0
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	for i < len(s) {
		j := i + 1
		switch c := s[i]; {
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			for j < len(s) && (s[j] == ' ' || s[j] == '\n' || s[j] == '\t' || s[j] == '\r') {
				j++
			}
		case c == '\'' || c == '`' || c == '"':
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c == '\'' {
					j++
				}
				j++
			}
			j++
		}
		if j > len(s) {
			j = len(s)
		}
		ts = append(ts, s[i:j])
		i = j
	}
	return ts
}

// Puncts returns the runs of operator signs.
func Puncts(s string) []string {
	var out []string
	const signs = "+-*/<>=!|&^%?:.@#$~"
	for i := 0; i < len(s); i++ {
		j := i
		for j < len(s) && strings.IndexByte(signs, s[j]) >= 0 {
			j++
		}
		if j > i+1 {
			out = append(out, s[i:j])
		}
		if j > i {
			i = j
		}
	}
	return out
}
