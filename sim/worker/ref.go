package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"verifsim/scn"
	"verifsim/zzsim"
)

// StmtRef is what reading one statement alone gives.
type StmtRef struct {
	Type  string            `json:"type"`
	Nodes int               `json:"nodes"`
	Sel   []int             `json:"sel"`           // node ordinals with results
	Kin   [][]int           `json:"kin,omitempty"` // those of one type
	Ops   map[string]string `json:"ops"`           // "op@ordinal" -> hash

	Panics bool `json:"panics,omitempty"` // some read panics
}

// DocRef is what a fresh process with nothing else in it makes of a document.
type DocRef struct {
	Parse  string    `json:"parse"`  // hash of everything the parse returned
	Again  string    `json:"again"`  // same for asking the parser again
	Failed bool      `json:"failed"` // error or panic
	Panic  string    `json:"panic,omitempty"`
	Steps  uint64    `json:"steps"`
	Stmts  []StmtRef `json:"stmts"`
	Hash   string    `json:"hash"` // of the text
}

func selNodes(n int, text string) []int {
	r := scn.NewRand(scn.HashStr(text))
	sel := []int{0}
	seen := map[int]bool{0: true}
	for k := 0; k < 5; k++ {
		i := r.Intn(n)
		if k%2 == 0 {
			i = r.Skew(n)
		}
		if !seen[i] {
			seen[i] = true
			sel = append(sel, i)
		}
	}
	return sel
}

// kinNodes picks some types that occur more than once, and two nodes of each.
func kinNodes(t *tree, text string) [][]int {
	r := scn.NewRand(scn.HashStr(text) + 1)
	of := map[string][]int{}
	var types []string
	for i, n := range t.nodes {
		ty := typeName(n)
		if of[ty] = append(of[ty], i); len(of[ty]) == 2 {
			types = append(types, ty)
		}
	}
	var out [][]int
	for k := 0; k < 4 && len(types) > 0; k++ {
		j := r.Intn(len(types))
		ns := of[types[j]]
		types = append(types[:j], types[j+1:]...)
		i := r.Intn(len(ns) - 1)
		out = append(out, []int{ns[i], ns[i+1+r.Intn(len(ns)-1-i)]})
	}
	return out
}

func computeRef(text string) *DocRef {
	ref := &DocRef{Hash: hashOf(text)}
	zzsim.SetHidden(zzsim.Hidden{Canonical: true})
	res := zzsim.Run(zzsim.Plan{Strategy: "none"}, refLimit(text), func() {
		p := doParse(text)
		ref.Steps = zzsim.Steps()
		ref.Parse = hashOf(p.String())
		ref.Failed = p.err != nil || p.pan != nil
		if p.pan != nil {
			ref.Panic = p.pan.String()
		}
		p.enumerate()
		for i, t := range p.trees {
			sr := StmtRef{Type: typeName(p.stmts[i]), Nodes: len(t.nodes), Sel: selNodes(len(t.nodes), text), Ops: map[string]string{}}
			if len(p.trees) < 12 {
				sr.Kin = kinNodes(t, text)
			}
			for _, n := range append(append([]int{}, sr.Sel...), flat(sr.Kin)...) {
				if _, done := sr.Ops[readOps[0]+fmt.Sprintf("@%d", n)]; done {
					continue
				}
				for _, op := range readOps {
					out := readStr(op, t, n)
					sr.Panics = sr.Panics || strings.HasPrefix(out, "panic: ")
					sr.Ops[fmt.Sprintf("%s@%d", op, n)] = hashOf(out)
				}
			}
			ref.Stmts = append(ref.Stmts, sr)
		}
		ref.Again = hashOf(p.again())
	})
	if res.Limit {
		ref.Panic = "step limit"
		ref.Failed = true
	} else if res.Deadlock != "" {
		ref.Panic = "deadlock"
		ref.Failed = true
	} else if len(res.Panics) > 0 && res.Panics[0] != nil {
		fmt.Fprintln(os.Stderr, res.Panics[0], res.Stacks[0])
		os.Exit(3)
	}
	return ref
}

func flat(kin [][]int) (out []int) {
	for _, k := range kin {
		out = append(out, k...)
	}
	return out
}

// refLimit bounds the steps of a reference process.
func refLimit(text string) uint64 { return 200_000_000 + 20000*uint64(len(text)) }

// refCmd is the reference process: document on stdin, DocRef on stdout.
func refCmd() {
	var doc struct{ Text []byte }
	if err := json.NewDecoder(os.Stdin).Decode(&doc); err != nil {
		fatal("ref: %v", err)
	}
	out, err := json.Marshal(computeRef(string(doc.Text)))
	if err != nil {
		fatal("ref: %v", err)
	}
	os.Stdout.Write(out)
}

// refStore finds reference results: in memory, in the directory the driver
// filled, or from a fresh reference process.
type refStore struct {
	m     map[string]*DocRef
	dir   string
	procs int
}

func (s *refStore) get(text string) *DocRef {
	if r, ok := s.m[text]; ok {
		return r
	}
	r := &DocRef{}
	b, err := os.ReadFile(refPath(s.dir, text))
	if err != nil {
		in, _ := json.Marshal(struct{ Text []byte }{[]byte(text)})
		s.procs++
		if b, err = self("ref", in); err != nil {
			fatal("reference process: %v", err)
		}
	}
	if err := json.Unmarshal(b, r); err != nil {
		fatal("reference of %s: %v", clip(text, 200), err)
	}
	s.m[text] = r
	return r
}

func pipe(c *exec.Cmd, in []byte) ([]byte, error) {
	c.Stdin = bytes.NewReader(in)
	c.Env = append(os.Environ(), "ZZSIM_INIT=0")
	var stderr bytes.Buffer
	c.Stderr = &stderr
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, stderr.String())
	}
	return out, nil
}
