package main

import (
	"encoding/json"
	"path/filepath"
	"strings"
	"sync"

	"verifsim/scn"
)

type group struct {
	Docs []int `json:"docs"`
	Fn   int   `json:"fn"`
	Ops  []int `json:"ops,omitempty"`
}

type focus struct {
	Groups []group `json:"groups"`
	Sus    []group `json:"sus"`
	New    []group `json:"new"`
}

type profile struct {
	Doc   int    `json:"doc"`
	Sites []byte `json:"sites"`
	Ops   []int  `json:"ops"`
	Good  bool   `json:"good"`
}

// profiles finds out which code the documents of the library reach. A document
// without an answer has none.
func (c *checker) profiles() []*profile {
	const step = 30
	profs := make([]*profile, len(c.lib))
	var mu sync.Mutex
	parallel((len(c.lib)+step-1)/step, workers, func(i int) bool {
		r, err := c.b.runProc("profile", map[string]any{"lib": c.job.Lib, "From": i * step, "To": (i + 1) * step})
		if err != nil {
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		for _, l := range r.lines {
			p := &profile{}
			if strings.HasPrefix(l, "F ") && json.Unmarshal([]byte(l[2:]), p) == nil && p.Doc < len(profs) {
				profs[p.Doc] = p
			}
		}
		return true
	})
	return profs
}

func (p *profile) reaches(site int) bool {
	return p != nil && site/8 < len(p.Sites) && p.Sites[site/8]&(1<<(site%8)) != 0
}

// profile groups the documents of the library by what they reach, so that
// generation can give rare constructs their turn.
func (c *checker) profile() error {
	profs := c.profiles()
	for i, p := range profs {
		c.lib[i].Good = p != nil && p.Good
	}
	if err := writeJSON(c.job.Lib, c.lib); err != nil {
		return err
	}
	f := focus{Groups: []group{}, Sus: []group{}}
	fn := map[string]int{}
	fnID := func(s string) int {
		if _, ok := fn[s]; !ok {
			fn[s] = len(fn)
		}
		return fn[s]
	}
	r := scn.NewRand(scn.Mix(c.seed, 0xf0c5))
	thin := func(docs []int) []int {
		for len(docs) > 40 {
			k := r.Intn(len(docs))
			docs = append(docs[:k:k], docs[k+1:]...)
		}
		return docs
	}
	seen, fresh := map[string]bool{}, map[string]bool{}
	for s, st := range c.b.woven.Sites {
		var docs []int
		var key strings.Builder
		n := 0
		for i, p := range profs {
			if p == nil {
				continue
			}
			n++
			if p.reaches(s) {
				docs = append(docs, i)
				key.WriteString(string(rune(i)))
			}
		}
		if len(docs) == 0 {
			continue
		}
		c.reached++
		id := fnID(st.File + " " + st.Func)
		if st.Sus || st.New {
			g := group{Docs: thin(append([]int{}, docs...)), Fn: id}
			ops := map[int]bool{}
			for _, p := range profs {
				if p == nil {
					continue
				}
				for k := 0; k+1 < len(p.Ops); k += 2 {
					if p.Ops[k] == s && !ops[p.Ops[k+1]] {
						ops[p.Ops[k+1]] = true
						g.Ops = append(g.Ops, p.Ops[k+1])
					}
				}
			}
			if st.Sus {
				f.Sus = append(f.Sus, g)
			}
			if k := key.String(); st.New && !fresh[k] {
				fresh[k] = true
				f.New = append(f.New, g)
			}
		}
		if k := key.String(); len(docs)*2 < n && !seen[k] {
			seen[k] = true
			f.Groups = append(f.Groups, group{Docs: thin(docs), Fn: id})
		}
	}
	// the same for tokens
	toks := map[string][]int{}
	var order []string
	for i, d := range c.lib {
		in := map[string]bool{}
		for _, t := range append(scn.Tokens(string(d.Text)), scn.Puncts(string(d.Text))...) {
			t = strings.ToUpper(t)
			if !in[t] && len(t) < 24 {
				in[t] = true
				if toks[t] == nil {
					order = append(order, t)
				}
				toks[t] = append(toks[t], i)
			}
		}
	}
	for _, t := range order {
		if d := toks[t]; len(d)*4 < len(c.lib) {
			w := "word"
			if strings.Trim(t, "+-*/<>=!|&^%?:.,;@#$~(){}[]") == "" {
				w = "sign"
			}
			f.Groups = append(f.Groups, group{Docs: thin(d), Fn: fnID(w + string(rune('0'+scn.HashStr(t)%20)))})
		}
	}
	c.groups = len(f.Groups)
	c.susReached = len(f.Sus)
	c.job.Focus = filepath.Join(c.b.dir, "focus.json")
	return writeJSON(c.job.Focus, f)
}
