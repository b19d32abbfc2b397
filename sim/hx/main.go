//go:build go1.22

// Command hxsim runs one simulated execution of horcrux, described by
// ./plan.json, and writes ./result.json.
package main

import (
	"encoding/json"
	"fmt"
	"github.com/hashicorp/raft"
	"os"
	"runtime"
	"sort"
	"strconv"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

func main() {
	b, err := os.ReadFile("plan.json")
	must(err)
	p := &plan.Plan{}
	must(json.Unmarshal(b, p))
	if os.Getenv("HX_DUMP") != "" {
		runtime.SimDebug(true)
	}
	if st := os.Getenv("HX_ST"); st != "" {
		var e, f, t uint64
		fmt.Sscanf(st, "%d:%d:%d", &e, &f, &t)
		runtime.SimTrace(e, f, t)
	}
	maxT := p.O("maxms")
	if maxT == 0 {
		maxT = 1800000
	}
	maxS := uint64(p.O("maxsteps"))
	if maxS == 0 {
		maxS = 60e6
	}
	seed := p.Seed
	if p.Mode == "cli" { // one process per step
		k, _ := strconv.Atoi(os.Getenv("HX_STEP"))
		seed ^= uint64(k+1) * 0xd1342543de82ef95
	}
	runtime.SimStart(seed, p.Policy, p.Tick, p.Preempt, runtime.SimNow()+maxT*1e6, maxS)
	w := newWorld(p, seed)
	w.verbose = p.Verbose > 0
	w.installHooks()
	if p.O("trail") > 0 {
		raft.SimTrailing, raft.SimThreshold, raft.SimInterval = uint64(p.O("trail")), uint64(p.O("snapthr")), uint64(p.O("snapint"))
	}
	go w.ticker()
	func() {
		switch p.Mode {
		case "cluster":
			w.runCluster()
		case "single":
			w.runSingle()
		case "kv":
			w.runKV()
		case "cli":
			w.runCLI()
		default:
			w.harness = "unknown mode " + p.Mode
		}
	}()
	w.finish()
}

func (w *world) finish() {
	w.done = true
	for k, v := range w.net.stats {
		w.stats["net_"+k] += v
	}
	w.stats["steps_per_s_max_ms"] = int(runtime.SimRate())
	r := plan.Result{Violations: w.viol, Hash: fmt.Sprintf("%016x", runtime.SimHash()), SimMs: w.ms(), Steps: runtime.SimSteps(),
		Switches: runtime.SimSwitches(), Preempts: runtime.SimPreempts(), Heap: runtime.SimHeap(), Stats: w.stats, Faults: w.faults,
		Harness: w.harness, Trace: w.trace, More: w.more}
	for id := range w.firedM {
		r.Fired = append(r.Fired, id)
	}
	sort.Ints(r.Fired)
	r.States = sortedKeys(w.states)
	b, err := json.Marshal(&r)
	must(err)
	must(os.WriteFile("result.json", b, 0644))
	os.Exit(0)
}
