package main

import (
	"errors"
	"sort"
	"strings"
	"time"

	"github.com/AfterShip/clickhouse-sql-parser/parser"

	"verifsim/scn"
	"verifsim/zzsim"
)

// evolveCmd grows a corpus: it changes documents and keeps those that make the
// parser go from one statement of its code to another in a new way. It is run by
// hand, and what it finds is committed under corpus.
func evolveCmd() {
	var in struct {
		Docs  []string
		Dict  []string
		Seed  uint64
		Sec   int
		Chunk int // most documents kept
	}
	decode(&in)
	r := scn.NewRand(in.Seed)
	cov := zzsim.Edges(1 << 20)
	seen := make([]uint8, len(cov))
	type doc struct {
		t   string
		err *parser.ParseError
	}
	var kept []doc
	execs := 0
	panics := map[string]bool{}
	try := func(text string) bool {
		execs++
		var pe *parser.ParseError
		clear(cov)
		zzsim.SetHidden(zzsim.Hidden{Canonical: true})
		res := zzsim.Run(zzsim.Plan{Strategy: "none"}, 3_000_000, func() {
			p := doParse(text)
			if p.pan != nil {
				panic(p.pan)
			}
			errors.As(p.err, &pe)
			if pe != nil {
				_ = pe.Error()
			}
			p.enumerate()
			for _, t := range p.trees {
				for _, op := range []string{"fmt", "beau0", "walk", "accept", "json", "pos"} {
					doRead(op, t, 0)
				}
			}
		})
		if res.Limit || res.Deadlock != "" {
			return false
		}
		if res.Panics[0] != nil {
			st := trimStack(res.Stacks[0])
			key := st
			if l := strings.SplitN(st, "\n", 3); len(l) > 1 {
				key = l[1]
			}
			if !panics[key] {
				panics[key] = true
				emit("P", map[string]string{"text": text, "stack": st})
			}
			return false
		}
		fresh := false
		for i, c := range cov {
			if c != 0 && seen[i] == 0 {
				seen[i] = 1
				fresh = true
			}
		}
		if fresh {
			kept = append(kept, doc{text, pe})
		}
		return fresh
	}
	sort.SliceStable(in.Docs, func(i, j int) bool { return len(in.Docs[i]) < len(in.Docs[j]) })
	for _, d := range in.Docs {
		try(d)
	}
	word := func() string {
		if r.P(50) || len(in.Dict) == 0 {
			ts := scn.Tokens(scn.Pick(r, kept).t)
			if len(ts) > 0 {
				return scn.Pick(r, ts)
			}
		}
		return scn.Pick(r, in.Dict)
	}
	end := time.Now().Add(time.Duration(in.Sec) * time.Second)
	for in.Sec > 0 && time.Now().Before(end) {
		d := scn.Pick(r, kept)
		if r.P(30) { // the latest
			d = kept[len(kept)-1-r.Skew(len(kept))]
		}
		t := d.t
		for k := 1 + r.Skew(4); k > 0; k-- {
			switch r.Intn(9) {
			case 0, 1:
				t = scn.Splice(r, t, scn.Pick(r, kept).t)
			case 2:
				t = scn.MutateTokens(r, t, scn.Pick(r, kept).t)
			case 3, 4:
				ts := scn.Tokens(t)
				i := r.Intn(len(ts) + 1)
				t = strings.Join(ts[:i], "") + " " + word() + " " + strings.Join(ts[i:], "")
			case 5: // replace a token
				ts := scn.Tokens(t)
				if len(ts) > 0 {
					ts[r.Intn(len(ts))] = word()
					t = strings.Join(ts, "")
				}
			case 6: // what the parser asked for
				if d.err != nil && d.t == t {
					w := ""
					if len(d.err.Expected) > 0 {
						w = string(scn.Pick(r, d.err.Expected))
					}
					if d.err.Keyword != "" {
						w = d.err.Keyword
					}
					if w == "" || strings.HasPrefix(w, "<") {
						w = scn.Pick(r, []string{"a", "1", "'x'", "(", ")", word()})
					}
					if i := int(d.err.Pos); i >= 0 && i <= len(t) {
						t = t[:i] + " " + w + " " + t[i:]
						if r.P(50) {
							t = t[:i] + " " + w
						}
					}
				}
			case 7: // lose a stretch
				ts := scn.Tokens(t)
				if len(ts) > 2 {
					i := r.Intn(len(ts))
					j := min(len(ts), i+1+r.Skew(12))
					t = strings.Join(ts[:i], "") + " " + strings.Join(ts[j:], "")
				}
			case 8: // move a stretch of another one in
				ts, os := scn.Tokens(t), scn.Tokens(scn.Pick(r, kept).t)
				if len(os) > 0 {
					i, a := r.Intn(len(ts)+1), r.Intn(len(os))
					b := min(len(os), a+1+r.Skew(12))
					t = strings.Join(ts[:i], "") + " " + strings.Join(os[a:b], "") + " " + strings.Join(ts[i:], "")
				}
			}
		}
		if len(t) > 400 || strings.Contains(t, "\x00") {
			continue
		}
		try(t)
	}
	var out []string
	for _, d := range kept {
		out = append(out, d.t)
	}
	emit("K", map[string]any{"docs": out, "execs": execs})
}
