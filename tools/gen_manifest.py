#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

SIM = "deterministic simulation with fault injection: "
C = {
    "C01": ("seeded interleavings of caller threads at every statement, race detector under hidden hand-overs, results against lone reference processes", "exploration",
            "Samples schedules of 2-6 threads parsing and rendering up to about 20 documents; any shared unsynchronised memory touched on a sampled path is reported by happens-before whatever the order it ran in. Trusts the instrumenter, Go's race detector and the references, which come from the same code run alone."),
    "C02": ("seeded interleavings of readers of one shared tree, race detector under hidden hand-overs, results against lone reference processes", "exploration",
            "Samples read mixes and schedules of 2-6 threads on shared trees of every statement kind in the corpus. Trusts the race detector and the reference processes."),
    "C03": ("simulated process randomness (map order, hash seeds, pool hits, clock, random numbers) and process history, results against a canonical process", "exploration",
            "Samples hidden randomness and earlier activity; only sources of randomness behind a seam are controlled (listed in DESIGN.md 2.1), others would have to show by chance."),
    "C04": ("seeded histories of reads with injected callback stops, errors and panics; deep dump before and after, results against a fresh process", "exploration",
            "Samples read histories and fault points; the comparison itself is exact (every exported and unexported field of every node)."),
    "C05": ("injected error or panic at callbacks of visitor traversals; prefix and unwind models over the recorded callback history", "fault_enumeration",
            "For small trees every callback is a fault point, for larger ones a seeded sample; models are independent of the traversal code except for the child order, which is taken from the fault-free run."),
    "C06": ("injected cancellation at callbacks of walks and searches; prefix, pruning and search models over the recorded callback history", "fault_enumeration",
            "For small trees every callback is a cancellation point, for larger ones a seeded sample."),
    "C07": ("simulated kernel under the tool's file reads: short, interrupted and failing opens and reads, wrong and changing sizes; output against the fault-free run", "fault_enumeration",
            "Every read call of small files is failed in every way; sizes and fault places are sampled for larger ones. Trusts the kernel model (open, read, pread, seek, fstat, write, close)."),
    "C08": ("simulated kernel under the tool's output: short, interrupted and failing writes at chosen bytes; output against the fault-free run", "fault_enumeration",
            "Write faults at bytes of the output (boundaries, every byte of small outputs, sampled bytes of larger ones) in every output mode. Trusts the kernel model."),
    "C09": ("torn, stale-tailed and zero-tailed writes of documents; statements against an independent splitter and lone parses of the segments", "fault_enumeration",
            "Every cut point of small documents, sampled ones of larger documents; the splitter is an independent lexical model."),
    "C10": ("disk damage to documents (cut, flipped, lost, repeated, misplaced, zeroed bytes), then every public operation; error fields against a recomputation from the text", "exploration",
            "Samples damage to corpus, generated and deeply nested documents up to 64 KiB; a panic anywhere in any operation is a violation."),
    "C11": ("simulated clock counting executed statements and scanned bytes, growing document families and stalled threads; step and allocation bounds", "exploration",
            "Samples documents, nesting patterns and growth families; bounds are ratios with slack over what was measured, so a constant-factor slow-down below that slack is not reported."),
    "C12": ("append histories of good, bad and damaged statements; trees and errors against shifted lone parses", "exploration",
            "Samples histories of up to about a dozen statements with separators and comments; comparison is exact up to the offset shift."),
    "C13": ("interleaved owners editing and reading their own trees; a clone-and-edit model of each tree", "exploration",
            "Samples edit histories over exported fields by reflection, and schedules; rendering of the edited tree is compared with that of an equal tree built without history."),
    "C14": ("re-entrant library calls injected at callbacks under seeded interleavings; inner and outer results against lone reference processes", "exploration",
            "Samples nestings (depth up to 4) and schedules; a deadlock shows as a simulated thread that cannot run."),
    "C15": ("seeded histories of formatter operations on several formatters and threads with panicking custom expressions; an independent formatter model", "exploration",
            "Samples operation histories; the model is an independent executable description of the documented behaviour, node texts come from the library's own fresh formatter."),
}

N = {
    "N01": "A pure function of the statement's text: no schedule, clock, fault or history enters it, so simulation would only be input generation.",
    "N02": "Compares two pure renderings of one tree; nothing in it depends on time, faults, history or interleaving.",
    "N03": "Grouping of an expression is a pure function of its tokens; an oracle would be a second expression parser, not a simulator.",
    "N04": "Positions are a pure function of the text; no fault, schedule or history enters (that they shift with what precedes is claimed as C12).",
    "N05": "Which nodes a complete traversal reaches is a pure function of the tree (interrupted and failing traversals are claimed as C05 and C06).",
    "N06": "Acceptance of keywords as names is a pure function of the text; deciding it is input enumeration.",
    "N07": "Spelling of literals is a pure function of the text.",
    "N08": "Compares parses of two texts; a pure function with no schedule, fault, clock or history.",
}

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, (tech, level, note) in C.items():
    checks.append({"property": p, "quick_cmd": "bin/check.sh " + p, "thorough_cmd": "bin/check.sh " + p + " thorough",
                   "evidence_file": "evidence/%s.json" % p, "technique": SIM + tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bin/check.sh build",
     "hooks": {"guard": "none in /repo: all seams are woven into a copy of the sources at check time",
               "enable": "go build -overlay, made by build/vdrive from /repo's working tree", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in N.items()],
     "notes": "Replay a violation with 'bin/check.sh replay FILE'; 'bin/check.sh selftest Cxx' runs seeds three times and compares the event hashes. VERIF_SEED selects the seed, VERIF_TIER the tier, VERIF_REPO another tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
