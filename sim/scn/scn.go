package scn

import (
	"strings"

	"verifsim/zzsim"
)

// Op is one step of a simulated thread.
type Op struct {
	K   string `json:"k"`           // kind
	D   int    `json:"d,omitempty"` // document
	S   int    `json:"s,omitempty"` // statement of the document
	N   int    `json:"n,omitempty"` // node ordinal
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	T   string `json:"t,omitempty"`
	F   string `json:"f,omitempty"` // fault kind
	Sub []Op   `json:"sub,omitempty"`
}

// Scenario is one execution: a pure function of it and the code.
type Scenario struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Init    uint64         `json:"init,omitempty"`  // set-up of the process it runs in
	Class   string         `json:"class,omitempty"` // workload class, for statistics
	Docs    []string       `json:"docs,omitempty"`
	B64     []int          `json:"b64,omitempty"` // docs given in base64
	Threads [][]Op         `json:"threads,omitempty"`
	Plan    zzsim.Plan     `json:"plan"`
	Hidden  zzsim.Hidden   `json:"hidden"`
	Args    []string       `json:"args,omitempty"`
	Params  map[string]int `json:"params,omitempty"`
}

// Violation is what a failed check says.
type Violation struct {
	Class  string `json:"class"` // what kind of violation; stable under minimisation
	Detail string `json:"detail"`
}

// Outcome of one scenario.
type Outcome struct {
	Violation *Violation     `json:"violation,omitempty"`
	Known     []string       `json:"known,omitempty"`
	Steps     uint64         `json:"steps"`
	Preempt   int            `json:"preempt"`
	Hash      uint64         `json:"hash"` // of the interleaving / case
	Faults    map[string]int `json:"faults,omitempty"`
	Probes    map[string]int `json:"probes,omitempty"`
	Evals     int            `json:"evals"`   // checks made
	Trivial   bool           `json:"trivial"` // nothing interesting happened
	Switches  []zzsim.Switch `json:"switches,omitempty"`
	Refined   *Scenario      `json:"refined,omitempty"` // a more exact form of the same failure
	EventHash uint64         `json:"eventHash"`         // of everything observed, for the determinism test
}

// AddFault counts faults that really happened.
func (o *Outcome) AddFault(k string, n int) {
	if o.Faults == nil {
		o.Faults = map[string]int{}
	}
	o.Faults[k] += n
}

// AddProbe counts conditions worth reaching; "max..." keep the largest value.
func (o *Outcome) AddProbe(k string, n int) {
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	AddTo(o.Probes, k, n)
}

// AddTo adds to a counter map.
func AddTo(m map[string]int, k string, n int) {
	if strings.HasPrefix(k, "max") {
		if n > m[k] {
			m[k] = n
		}
		return
	}
	m[k] += n
}

// Fail records the first violation.
func (o *Outcome) Fail(class, detail string) {
	if o.Violation == nil {
		if len(detail) > 20000 {
			detail = detail[:20000] + " ..."
		}
		o.Violation = &Violation{class, detail}
	}
}

// Event folds an observation into the event hash.
func (o *Outcome) Event(s string) {
	o.EventHash = (o.EventHash ^ HashStr(s)) * 0x100000001b3
}
