// vdrive builds the simulator from the current tree of /repo, runs the checks,
// minimises and replays violations.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "vdrive: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	debug.SetMemoryLimit(6 << 30)
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	verifDir = filepath.Dir(filepath.Dir(exe))
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repoDir = r
	}
	runs := flag.Int("runs", 0, "number of runs (0: that of the tier)")
	flag.Parse()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		seed = uint64(n)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	a := flag.Args()
	if len(a) < 2 {
		die("usage: vdrive check PROP [TIER] | replay FILE | selftest PROP")
	}
	if len(a) > 2 {
		tier = a[2]
	}
	switch a[0] {
	case "check":
		if _, ok := confs[a[1]]; !ok && a[1] != "C07" && a[1] != "C08" {
			die("unknown property %s", a[1])
		}
		os.Exit(check(a[1], tier, seed, *runs))
	case "evolve":
		n, _ := strconv.Atoi(a[1])
		os.Exit(evolve(n, seed))
	case "baseline":
		os.Exit(writeBaseline())
	case "rank":
		os.Exit(rankFile(a[1]))
	case "uncovered":
		os.Exit(uncovered(seed))
	case "replay":
		os.Exit(replay(a[1]))
	case "selftest":
		n := *runs
		if n == 0 {
			n = 400
		}
		os.Exit(selftest(a[1], seed, n))
	default:
		die("unknown command %s", a[0])
	}
}
