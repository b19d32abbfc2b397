//go:build go1.22

// Package plan describes one simulated execution: everything that is not
// decided by the seeded scheduler. A plan plus the code under test determines
// the execution exactly.
package plan

import "encoding/json"

// Item is one scheduled or triggered action.
type Item struct {
	ID int    `json:"id"`
	At int64  `json:"at"`           // earliest simulated ms
	K  string `json:"k"`            // kind of action
	N  int    `json:"n,omitempty"`  // cosigner (1..n); -1 = current leader; 0 = any / the event's node
	P  int    `json:"p,omitempty"`  // peer, sentry or second party
	D  int64  `json:"d,omitempty"`  // duration or delay, ms
	Ev string `json:"ev,omitempty"` // trigger event (empty: purely timed)
	Ct int    `json:"ct,omitempty"` // fire at the ct-th matching event after At
	A  int64  `json:"a,omitempty"`
	B  int64  `json:"b,omitempty"`
	C  int64  `json:"c,omitempty"`
	S  string `json:"s,omitempty"`
	Q  *Req   `json:"q,omitempty"`
}

// Req is a request made by a sentry over one privval connection.
type Req struct {
	Kind string `json:"kind"` // prevote precommit proposal pubkey ping raw
	H    int64  `json:"h,omitempty"`
	R    int64  `json:"r,omitempty"`
	V    int    `json:"v,omitempty"`  // block variant; 0 = nil block
	Ts   int64  `json:"ts,omitempty"` // timestamp offset, ms
	Pol  int64  `json:"pol,omitempty"`
	Raw  string `json:"raw,omitempty"`
	TO   int64  `json:"to,omitempty"` // response deadline ms
}

// Plan is one run.
type Plan struct {
	Prop    string           `json:"prop"`
	Seed    uint64           `json:"seed"`
	Mode    string           `json:"mode"` // cluster single kv cli
	Scn     string           `json:"scn,omitempty"`
	N       int              `json:"n,omitempty"`
	T       int              `json:"t,omitempty"`
	Sentry  [][]int          `json:"sentry,omitempty"` // per sentry: cosigners connected to it
	Policy  uint32           `json:"policy"`
	Tick    uint64           `json:"tick"`
	Preempt uint32           `json:"preempt"`
	LatMin  int64            `json:"latmin"` // us
	LatMax  int64            `json:"latmax"`
	SpikePm int              `json:"spikepm,omitempty"`
	SpikeMs int64            `json:"spikems,omitempty"`
	Split   bool             `json:"split,omitempty"`
	Items   []Item           `json:"items"`
	Horizon int64            `json:"horizon"` // ms until faults stop
	Final   string           `json:"final,omitempty"`
	Down    []int            `json:"down,omitempty"` // cosigners left down in the final phase
	Opt     map[string]int64 `json:"opt,omitempty"`
	Verbose int              `json:"verbose"` // 0..2, does not change the execution
}

// Violation is one broken property in one run.
type Violation struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"` // stable class of the violation
	Msg  string `json:"msg"`
	At   int64  `json:"at"` // simulated ms
}

// Result is what a run reports.
type Result struct {
	Violations []Violation    `json:"violations"`
	Hash       string         `json:"hash"`
	SimMs      int64          `json:"sim_ms"`
	Steps      uint64         `json:"steps"`
	Switches   uint64         `json:"switches"`
	Preempts   uint64         `json:"preempts"`
	Heap       uint64         `json:"heap"`
	Stats      map[string]int `json:"stats"`
	Faults     map[string]int `json:"faults"`
	Fired      []int          `json:"fired"` // ids of items that took effect
	States     []string       `json:"states,omitempty"`
	Harness    string         `json:"harness,omitempty"` // harness error: the run is void
	Trace      []string       `json:"trace,omitempty"`
	More       bool           `json:"more,omitempty"` // another step follows
	Exit       int            `json:"exit,omitempty"`
	Fatal      string         `json:"fatal,omitempty"`
}

func (p *Plan) Clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func (p *Plan) O(k string) int64 { return p.Opt[k] }

// Ct2 is the count of an injected error: the ct-th matching operation fails.
func (it Item) Ct2() int {
	if it.Ct < 1 {
		return 1
	}
	return it.Ct
}
