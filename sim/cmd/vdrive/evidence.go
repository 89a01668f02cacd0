package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func perHour(n int, d time.Duration) int {
	if d <= 0 {
		return 0
	}
	return int(float64(n) / d.Hours())
}

func levelOf(prop string) string {
	switch prop {
	case "C05", "C06", "C07", "C08", "C09":
		return "fault_enumeration"
	}
	return "exploration"
}

func writeEvidence(prop, tier string, seed uint64, coverage map[string]any, assumptions []string, wall time.Duration, violations int) {
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	b, err := json.MarshalIndent(map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed), "level": levelOf(prop), "coverage": coverage,
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": violations,
	}, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// missedLog, with VERIF_MISSED=file, gets the statements no run reached.
var missedLog = func() *os.File {
	f, _ := os.Create(os.Getenv("VERIF_MISSED"))
	return f
}()

// evidence writes what a check of the library covered.
func (c *checker) evidence(q *batch, took time.Duration, code int) {
	st := &q.st
	covered, hot, hotCovered := 0, 0, 0
	missed := map[string]int{}
	for _, x := range st.Cov {
		covered += bits.OnesCount8(x)
	}
	for i, s := range c.b.woven.Sites {
		on := i/8 < len(st.Cov) && st.Cov[i/8]&(1<<(i%8)) != 0
		if s.Hot {
			hot++
			if on {
				hotCovered++
			}
		}
		if !on {
			if missedLog != nil {
				fmt.Fprintf(missedLog, "%s:%d %s\n", s.File, s.Line, s.Func)
			}
			missed[s.File+" "+s.Func]++
		}
	}
	type miss struct {
		Func string `json:"func"`
		N    int    `json:"statements"`
	}
	var ms []miss
	for f, n := range missed {
		ms = append(ms, miss{f, n})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].N > ms[j].N || ms[i].N == ms[j].N && ms[i].Func < ms[j].Func })
	if len(ms) > 25 {
		ms = ms[:25]
	}
	samples := []any{}
	if ss, err := c.b.scenarios(c.job, []uint64{c.seedOf(0), c.seedOf(max(1, st.Runs/2)), c.seedOf(max(2, st.Runs-1))}); err == nil {
		for _, s := range ss {
			for i, d := range s.Docs {
				s.Docs[i] = cut(d, 400)
			}
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"evaluations": st.Evals, "distinct_nontrivial": len(q.hashes),
		"rule":    rules[c.prop],
		"samples": samples,
		"runs":    st.Runs, "runs_without_any_check": st.Trivial, "processes": q.procs,
		"runs_per_hour":    perHour(st.Runs, took),
		"seeds_per_hour":   perHour(st.Runs, took),
		"simulated_time":   fmt.Sprintf("%d steps (statements of the parser executed under the simulator)", st.Steps),
		"context_switches": st.Preempt, "strategies": st.Strats, "workload_classes": st.Classes,
		"faults_injected": st.Faults, "conditions_met": st.Probes, "seams_used": st.Seams,
		"statement_sites": len(c.b.woven.Sites), "statement_sites_reached": covered,
		"suspect_sites_reached_by_the_library": c.susReached, "document_groups_by_reach": c.groups, "statement_sites_reached_by_the_library": c.reached,
		"hot_sites": hot, "hot_sites_reached": hotCovered, "sites_missed_most": ms,
		"seams_woven": c.b.woven.Seams, "weaver_warnings": c.b.woven.Warnings,
		"library_documents": len(c.lib), "library_excluded_because_they_panic_alone": c.exclude, "extra_reference_processes": st.RefProcs,
		"race_detector": c.b.race, "stopped_by_the_clock": st.Stopped,
		"real":    "package parser, every statement, compiled from the working tree; the Go runtime and standard library",
		"stub":    "thread scheduling, map order, clock, random numbers, sync primitives and pools used by package parser (zzsim)",
		"build_s": c.b.took.Seconds(), "references_s": c.refTook.Seconds(), "search_s": took.Seconds(),
	}
	if covered == 0 && code == 0 {
		die("no statement of the library was reached under the simulator")
	}
	writeEvidence(c.prop, c.tier, c.seed, cov, assumptions, time.Since(c.start), code)
	fmt.Printf("%s: %d runs, %d checks, %d distinct, %d steps, %d switches, %d/%d statements reached; build %.1fs refs %.1fs search %.1fs\n", c.prop, st.Runs, st.Evals, len(q.hashes), st.Steps,
		st.Preempt, covered, len(c.b.woven.Sites), c.b.took.Seconds(), c.refTook.Seconds(), took.Seconds())
}

var assumptions = []string{
	"a preemption can happen between any two statements of package parser; inside a statement only through calls",
	"the race detector's happens-before model; package parser uses no assembly, cgo or channels",
	"reference results come from the same code run alone in a fresh process: an error common to every run is another property's affair",
}

var rules = map[string]string{
	"C01": "a run is 2-5 threads that parse, render and read their own documents under one schedule, all drawn from the seed; non-trivial: at least one result was compared; distinct by schedule (thread, step of each switch), documents and operations",
	"C02": "a run is 2-5 threads reading one or two shared trees under one schedule; non-trivial: at least one result was compared; distinct by schedule, documents and operations",
	"C03": "a run is a history of parses and reads under one setting of the hidden randomness (map order, pool hits, clock, random numbers) in a process with its own past; non-trivial: at least one result was compared with a fresh process; distinct by documents and operations",
	"C04": "a run is a sequence of reads on parsed trees, many of them cut short (callback stops, fails, panics, ends its goroutine); non-trivial: at least one later result was compared; distinct by documents, operations and fault positions",
	"C05": "a run fails a visitor at every callback (up to 60 drawn ones in long traversals) of Accept on one statement, by error or panic; non-trivial: a traversal was judged; distinct by documents, operations and schedule",
	"C06": "a run cancels walks and searches at every callback (up to 60 drawn ones in long walks) on one statement; non-trivial: a walk was judged; distinct by documents, operations and schedule",
	"C09": "a run crashes the writing of a document at every byte (up to 250 drawn ones in long documents) or applies a drawn sequence of storage faults to it, then parses what is left; non-trivial: a parse was judged; distinct by documents, faults and positions",
	"C10": "a run applies a drawn sequence of storage faults to a document and makes every kind of read on what a parse of it returns; non-trivial: a parse was judged; distinct by documents, faults and positions",
	"C11": "a run parses, renders and walks one generated, nested, repeated or damaged document counting steps and allocated bytes, or lets one thread stall for ever while others work; non-trivial: a bound was judged; distinct by documents, operations and schedule",
	"C12": "a run appends statements, some damaged, to a document and parses it again and again, comparing with each statement alone; non-trivial: a comparison was made; distinct by documents and operations",
	"C13": "a run is 1-4 threads that each parse, edit and read trees of their own, often of the same text; non-trivial: at least one result was compared; distinct by schedule, documents and edits",
	"C14": "a run is 1-3 threads making nested library calls from callbacks on shared and own trees; non-trivial: at least one result was compared; distinct by schedule, documents and operations",
	"C15": "a run is 1-3 threads each writing to up to three formatters, with expressions that write themselves, nest and panic, judged against a model; non-trivial: a formatter was compared; distinct by schedule, documents and operations",
}
