package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"sync"
	"time"

	"verifsim/scn"
)

// evolve grows corpus/grown.json for that many minutes. Not part of any check.
func evolve(minutes int, seed uint64) int {
	c, err := newChecker("C10", "quick", seed)
	if err != nil {
		die("%v", err)
	}
	procTimeout = time.Duration(minutes+30) * time.Minute
	dir := filepath.Join(verifDir, "corpus")
	corpus, err := scn.LoadCorpus(dir)
	if err != nil {
		die("%v", err)
	}
	docs := append(append(corpus.All(), corpus.Grown.Core...), corpus.Grown.Rest...)
	src, err := os.ReadFile(filepath.Join(repoDir, "parser/keyword.go"))
	if err != nil {
		die("%v", err)
	}
	dict := []string{"(", ")", ",", "[", "]", "{", "}", ".", "::", "=", "*", "1", "'x'", "a", "`b`", "->", "-", "+", "?", ":", ";", "()", "(a)", "1.5", "/* c */", "--c\n", "<>", "!=", "==", "||", "/", "%", "<=", "@", "\"q\""}
	for _, m := range regexp.MustCompile(`= +"([A-Z_]+)"`).FindAllSubmatch(src, -1) {
		dict = append(dict, string(m[1]))
	}
	type out struct {
		Docs  []string `json:"docs"`
		Execs int      `json:"execs"`
	}
	one := func(docs []string, seed uint64, sec int) (o out) {
		r, err := c.b.runProc("evolve", map[string]any{"Docs": docs, "Dict": dict, "Seed": seed, "Sec": sec})
		if err != nil {
			die("%v", err)
		}
		if r.crash != "" {
			fmt.Println("CRASH", r.crash)
		}
		for _, l := range r.lines {
			switch l[0] {
			case 'P':
				fmt.Println("PANIC", l)
			case 'K':
				_ = json.Unmarshal([]byte(l[2:]), &o)
			}
		}
		return o
	}
	var all []string
	execs := 0
	var mu sync.Mutex
	parallel(workers, workers, func(i int) bool {
		o := one(docs, scn.Mix(seed, uint64(i)), minutes*60)
		mu.Lock()
		defer mu.Unlock()
		all = append(all, o.Docs...)
		execs += o.Execs
		return true
	})
	merged := one(append(all, docs...), seed, 0)
	have := map[string]bool{}
	for _, d := range corpus.All() {
		have[d] = true
	}
	ev := []string{}
	for _, d := range merged.Docs {
		if !have[d] {
			ev = append(ev, d)
		}
	}
	fmt.Printf("%d executions, %d documents from %s, of %d kept\n", execs, len(ev), strconv.Itoa(len(docs)), len(all))
	return c.rank(corpus, ev)
}

// rank writes grown.json with documents that do for every statement first.
func (c *checker) rank(corpus *scn.Corpus, ev []string) int {
	base := corpus.All()
	for _, d := range append(append([]string{}, base...), ev...) {
		c.lib = append(c.lib, LibDoc{Text: []byte(d)})
	}
	c.job.Lib = filepath.Join(c.b.dir, "lib.json")
	if err := writeJSON(c.job.Lib, c.lib); err != nil {
		die("%v", err)
	}
	profs := c.profiles()
	need := map[int]bool{}
	for s := range c.b.woven.Sites {
		by := false
		for i, p := range profs {
			r := p.reaches(s)
			if r && i < len(base) {
				by = false
				break
			}
			by = by || r
		}
		if by {
			need[s] = true
		}
	}
	fmt.Println(len(need), "statements only grown documents reach")
	g := scn.Grown{Core: []string{}, Rest: []string{}}
	core := map[int]bool{}
	for len(need) > 0 {
		best, most := -1, 0
		for i := len(base); i < len(profs); i++ {
			n := 0
			for s := range need {
				if profs[i].reaches(s) {
					n++
				}
			}
			if n > most {
				best, most = i, n
			}
		}
		core[best] = true
		for s := range need {
			if profs[best].reaches(s) {
				delete(need, s)
			}
		}
		g.Core = append(g.Core, string(c.lib[best].Text))
	}
	for i := len(base); i < len(profs); i++ {
		if !core[i] {
			g.Rest = append(g.Rest, string(c.lib[i].Text))
		}
	}
	fmt.Println(len(g.Core), "documents do for these")
	b, _ := json.MarshalIndent(g, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "corpus", "grown.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	return 0
}

// rankFile ranks a plain list of documents.
func rankFile(path string) int {
	c, err := newChecker("C10", "quick", 1)
	if err != nil {
		die("%v", err)
	}
	corpus, err := scn.LoadCorpus(filepath.Join(verifDir, "corpus"))
	if err != nil {
		die("%v", err)
	}
	var ev []string
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &ev)
	}
	if err != nil {
		die("%v", err)
	}
	return c.rank(corpus, ev)
}

// uncovered lists the statements no document of the whole library reaches.
func uncovered(seed uint64) int {
	c, err := newChecker("C10", "thorough", seed)
	if err != nil {
		die("%v", err)
	}
	if err := c.prepare(); err != nil {
		die("%v", err)
	}
	profs := c.profiles()
	for s, site := range c.b.woven.Sites {
		hit := false
		for _, p := range profs {
			hit = hit || p.reaches(s)
		}
		if !hit {
			fmt.Println(site)
		}
	}
	return 0
}
