package main

import (
	"encoding/base64"
	"strings"

	"verifsim/scn"
	"verifsim/zzsim"
)

// Focus says which documents lead where. It steers generation.
type Focus struct {
	Groups []Group `json:"groups"`
	Sus    []Group `json:"sus"`
	New    []Group `json:"new"`
}

// Group is documents that reach the same code.
type Group struct {
	Docs []int `json:"docs"`
	Fn   int   `json:"fn"`            // the function this code is in
	Ops  []int `json:"ops,omitempty"` // read operations that get there
}

// Profile is what one document reaches.
type Profile struct {
	Doc   int    `json:"doc"`
	Sites string `json:"sites"`
	Ops   []int  `json:"ops,omitempty"` // pairs of suspect site, read operation
	Good  bool   `json:"good"`          // it parses
}

// profileCmd runs documents of the library one by one.
func profileCmd() {
	var in struct {
		Lib      string `json:"lib"`
		From, To int
	}
	decode(&in)
	var docs []LibDoc
	readJSON(in.Lib, &docs)
	cov := zzsim.Cov()
	looked := append(append([]int{}, sites.Sus...), sites.New...)
	for i := in.From; i < in.To && i < len(docs); i++ {
		if docs[i].Panic {
			continue
		}
		text := string(docs[i].Text)
		clear(cov)
		pr := Profile{Doc: i}
		bits := make([]byte, (len(cov)+7)/8)
		collect := func() {
			for j, c := range cov {
				if c != 0 {
					bits[j/8] |= 1 << (j % 8)
				}
			}
		}
		zzsim.SetHidden(zzsim.Hidden{Canonical: true})
		res := zzsim.Run(zzsim.Plan{Strategy: "none"}, 20_000_000, func() {
			p := doParse(text)
			p.enumerate()
			pr.Good = p.pan == nil && p.err == nil && len(p.stmts) > 0
			r := scn.NewRand(scn.HashStr(text))
			for op, name := range readOps {
				if name == "dump" || strings.HasPrefix(name, "beau") && name != "beau0" {
					continue
				}
				if len(looked) > 0 {
					collect()
					for _, j := range looked {
						cov[j] = 0
					}
				}
				for st, t := range p.trees {
					if st > 5 {
						break
					}
					readStr(name, t, 0)
					readStr(name, t, r.Intn(len(t.nodes)))
				}
				for _, j := range looked {
					if cov[j] != 0 {
						pr.Ops = append(pr.Ops, j, op)
					}
				}
			}
		})
		if res.Limit || res.Deadlock != "" {
			continue
		}
		collect()
		pr.Sites = base64.StdEncoding.EncodeToString(bits)
		emit("F", pr)
	}
}
