// The worker executes simulated runs. It is built by vdrive with the woven
// parser under it and is told what to do on standard input.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"time"

	"verifsim/scn"
	"verifsim/zzsim"
)

var sitesFile string

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "worker: "+format+"\n", args...)
	os.Exit(3)
}

func readJSON(path string, v any) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fatal("%s: %v", path, err)
	}
}

// SitesInfo is what the instrumenter tells the worker.
type SitesInfo struct {
	N   int   `json:"n"`
	Hot []int `json:"hot"`
	Sus []int `json:"sus"`
	New []int `json:"new"`
}

var sites SitesInfo

// Job is a batch of runs.
type Job struct {
	Prop   string   `json:"prop"`
	Lib    string   `json:"lib"`
	Refs   string   `json:"refs"`
	Focus  string   `json:"focus"`
	Seeds  []uint64 `json:"seeds"`
	Events bool     `json:"events"` // report the event hash of every run
	Stop   int64    `json:"stop"`   // unix seconds after which no further run starts
}

// Stats of a batch.
type Stats struct {
	Runs     int            `json:"runs"`
	Evals    int            `json:"evals"`
	Trivial  int            `json:"trivial"`
	Steps    uint64         `json:"steps"`
	Preempt  int            `json:"preempt"`
	Classes  map[string]int `json:"classes"`
	Strats   map[string]int `json:"strats"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Seams    map[string]int `json:"seams"`
	Hashes   []uint64       `json:"hashes"`
	Cov      string         `json:"cov"`
	Stopped  bool           `json:"stopped"`
	RefProcs int            `json:"refProcs"`
}

func main() {
	flag.CommandLine = flag.NewFlagSet("worker", flag.ExitOnError)
	cmd := "run"
	if len(os.Args) > 1 {
		cmd = os.Args[1]
		os.Args = append(os.Args[:1:1], os.Args[2:]...)
	}
	flag.StringVar(&sitesFile, "sites", "", "what the instrumenter wrote")
	flag.Parse()
	debug.SetMaxStack(1 << 30)
	runtime.GOMAXPROCS(2)
	if sitesFile != "" {
		readJSON(sitesFile, &sites)
	}
	zzsim.Init(sites.N, sites.Hot, sites.Sus)
	switch cmd {
	case "ref":
		refCmd()
	case "full":
		fullCmd()
	case "run":
		runCmd()
	case "exec":
		execCmd()
	case "evolve":
		evolveCmd()
	case "profile":
		profileCmd()
	case "gen":
		var job Job
		decode(&job)
		l := loadLibrary(&job)
		for _, s := range job.Seeds {
			emit("G", generate(job.Prop, s, l))
		}
	default:
		fatal("unknown command %s", cmd)
	}
}

func decode(v any) {
	if err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(v); err != nil {
		fatal("input: %v", err)
	}
}

func emit(tag string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("output: %v", err)
	}
	os.Stdout.Write(append(append([]byte(tag+" "), b...), '\n'))
}

// Found is a violating run.
type Found struct {
	Scenario *scn.Scenario `json:"scenario"`
	Outcome  *scn.Outcome  `json:"outcome"`
}

func runCmd() {
	var job Job
	decode(&job)
	l := loadLibrary(&job)
	store := &refStore{m: map[string]*DocRef{}, dir: job.Refs}
	st := &Stats{Classes: map[string]int{}, Strats: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}}
	for _, seed := range job.Seeds {
		if job.Stop > 0 && time.Now().Unix() > job.Stop {
			st.Stopped = true
			break
		}
		s := generate(job.Prop, seed, l)
		s.Init = zzsim.InitSeed()
		fmt.Fprintf(os.Stdout, "B %d\n", seed)
		o := execute(s, store)
		st.Runs++
		st.Evals += o.Evals
		if o.Evals == 0 {
			st.Trivial++
		}
		st.Steps += o.Steps
		st.Preempt += o.Preempt
		st.Classes[s.Class]++
		st.Strats[s.Plan.Strategy]++
		for k, v := range o.Faults {
			st.Faults[k] += v
		}
		for k, v := range o.Probes {
			scn.AddTo(st.Probes, k, v)
		}
		if o.Evals > 0 {
			st.Hashes = append(st.Hashes, o.Hash)
		}
		if job.Events {
			fmt.Fprintf(os.Stdout, "E %d %016x %d\n", seed, o.EventHash, o.Steps)
		}
		if o.Violation != nil {
			emit("V", Found{s, o})
			break
		}
	}
	st.Seams = zzsim.Fired()
	st.RefProcs = store.procs
	cov := zzsim.Cov()
	bits := make([]byte, (len(cov)+7)/8)
	for i, c := range cov {
		if c != 0 {
			bits[i/8] |= 1 << (i % 8)
		}
	}
	st.Cov = base64.StdEncoding.EncodeToString(bits)
	emit("S", st)
}

// execCmd executes the given scenarios one after another in this process and
// reports each.
func execCmd() {
	var in struct {
		Refs      string          `json:"refs"`
		Scenarios []*scn.Scenario `json:"scenarios"`
	}
	decode(&in)
	store := &refStore{m: map[string]*DocRef{}, dir: in.Refs}
	for _, s := range in.Scenarios {
		o := execute(s, store)
		emit("O", o)
		if o.Violation != nil {
			break
		}
	}
	emit("D", struct{}{})
}

type fullReq struct {
	Text []byte
	What string
	Arg  string
}

// runFull asks a fresh process for the full text of a result.
func runFull(text, what, arg string) (string, error) {
	in, _ := json.Marshal(fullReq{[]byte(text), what, arg})
	out, err := self("full", in)
	return string(out), err
}

func fullCmd() {
	var q fullReq
	decode(&q)
	zzsim.SetHidden(zzsim.Hidden{Canonical: true})
	zzsim.Run(zzsim.Plan{Strategy: "none"}, refLimit(string(q.Text)), func() {
		p := doParse(string(q.Text))
		switch q.What {
		case "parse":
			os.Stdout.WriteString(p.String())
		case "again":
			os.Stdout.WriteString(p.again())
		default:
			var st, n int
			fmt.Sscanf(q.Arg, "%d/%d", &st, &n)
			p.enumerate()
			if st < len(p.trees) && n < len(p.trees[st].nodes) {
				os.Stdout.WriteString(readStr(q.What, p.trees[st], n))
			}
		}
	})
}

func self(cmd string, in []byte) ([]byte, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, cmd, "-sites", sitesFile)
	return pipe(c, in)
}

func refPath(dir, text string) string {
	return filepath.Join(dir, hashOf(text))
}
