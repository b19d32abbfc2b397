//go:build go1.22

// Command hxdrv explores a property by seeded simulation: it generates plans,
// runs each in the simulator, minimises what breaks and writes the evidence.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hxdrv check|replay|run|sweep|gen ...")
		os.Exit(2)
	}
	sc := make(chan os.Signal, 1)
	signal.Notify(sc, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sc
		os.Exit(2)
	}()
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "check":
		os.Exit(check(args))
	case "replay":
		os.Exit(replay(args))
	case "run":
		os.Exit(runOne(args))
	case "sweep":
		os.Exit(sweep(args))
	case "gen":
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		b, _ := json.MarshalIndent(plan.Gen(args[0], seed, "quick"), "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

// seedFor derives the i-th seed of a property from the base seed.
func seedFor(base uint64, prop string, i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	z := h + base*0x9e3779b97f4a7c15 + uint64(i)*0xbf58476d1ce4e5b9
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return (z ^ (z >> 31)) >> 16
}

type finding struct{ prop, sig, match, what string }

// known findings: lines "finding: property=C00 sig=<class> match=<substring of the message> :: <what fails>"
func knownFindings() []finding {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var o []finding
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := strings.TrimSpace(s.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		head, what, _ := strings.Cut(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), " :: ")
		k := finding{what: what}
		for _, part := range strings.Split(head, " ") {
			a, b, _ := strings.Cut(part, "=")
			switch a {
			case "property":
				k.prop = b
			case "sig":
				k.sig = b
			case "match":
				k.match = strings.ReplaceAll(b, "_", " ")
			}
		}
		if k.prop != "" && k.sig != "" {
			o = append(o, k)
		}
	}
	return o
}

var known = sync.OnceValue(knownFindings)

func isKnown(ks []finding, v *plan.Violation) int {
	for i, k := range ks {
		if k.prop == v.Prop && (k.sig == "*" || slices.Contains(strings.Split(k.sig, ","), v.Sig)) && strings.Contains(v.Msg, k.match) {
			return i
		}
	}
	return -1
}

type replayFile struct {
	Property  string          `json:"property"`
	Violation *plan.Violation `json:"violation"`
	Hash      string          `json:"hash"`
	OrigSeed  uint64          `json:"orig_seed"`
	OrigItems int             `json:"orig_items"`
	Plan      *plan.Plan      `json:"plan"`
	Schedule  []string        `json:"schedule"`
}

type agg struct {
	runs, void, items         int
	simMs                     int64
	steps, switches, preempts uint64
	hashes, states            map[string]bool
	faults, stats             map[string]int
	modes                     map[string]int
	harness                   []string
	other                     map[string]int
	nontrivial                map[string]bool
	maxHeap                   uint64
	samples                   []any
}

func check(args []string) int {
	t0 := time.Now()
	prop := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", env("VERIF_TIER", "quick"), "")
	budget := fs.Int("budget", 0, "seconds of exploration")
	maxRuns := fs.Int("max", 0, "")
	workers := fs.Int("j", 8, "")
	fs.Parse(args[1:])
	base, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 63)
	if *budget == 0 {
		*budget = 70
		if *tier == "thorough" {
			*budget = 800
		}
		if b, err := strconv.Atoi(os.Getenv("HX_BUDGET")); err == nil {
			*budget = b
		}
	}
	end := t0.Add(time.Duration(*budget) * time.Second)
	ks := known()
	seen := map[int]string{}
	a := &agg{hashes: map[string]bool{}, states: map[string]bool{}, faults: map[string]int{}, stats: map[string]int{}, modes: map[string]int{}, other: map[string]int{}, nontrivial: map[string]bool{}}
	corpus := loadCorpus(prop)
	var mu sync.Mutex
	next := 0
	var bad *plan.Plan
	var badRes *plan.Result
	var badV *plan.Violation
	badIdx := 1 << 60
	type rerun struct {
		p *plan.Plan
		h string
	}
	var reruns []rerun
	var wg sync.WaitGroup
	for wk := 0; wk < *workers; wk++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				stop := time.Now().After(end) && i >= len(corpus) || badV != nil || *maxRuns > 0 && i >= *maxRuns
				next++
				mu.Unlock()
				if stop {
					return
				}
				var p *plan.Plan
				if i < len(corpus) {
					p = corpus[i]
				} else {
					p = plan.Gen(prop, seedFor(base, prop, i-len(corpus)), *tier)
				}
				r := runPlan(p, 0)
				mu.Lock()
				a.add(p, r)
				if len(reruns) < 6 && r.Harness == "" && i%7 == 3 {
					reruns = append(reruns, rerun{p, r.Hash})
				}
				for k := range r.Violations {
					v := &r.Violations[k]
					if v.Prop != prop {
						a.other[v.Prop+":"+v.Sig]++
						continue
					}
					if kf := isKnown(ks, v); kf >= 0 {
						seen[kf] = v.Msg
						continue
					}
					if i < badIdx {
						bad, badRes, badV, badIdx = p, r, v, i
					}
				}
				if r.Fatal != "" && prop == "C17" && i < badIdx {
					bad, badRes, badIdx = p, r, i
					badV = &plan.Violation{Prop: "C17", Sig: "fatal", Msg: "the process was ended by the runtime: " + r.Fatal}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	explore := time.Since(t0)
	// the same plan must give the same execution
	mism := 0
	for _, x := range reruns {
		if r := runPlan(x.p, 0); r.Hash != x.h {
			mism++
			fmt.Fprintf(os.Stderr, "nondeterminism: seed %d: %s then %s %s\n", x.p.Seed, x.h, r.Hash, r.Harness)
		}
	}
	rc, nviol := 0, 0
	if badV != nil {
		r2 := runPlan(bad, 0)
		for try := 0; try < 3 && badV.Sig != "fatal" && find(r2, prop, badV.Sig) == nil; try++ {
			r2 = runPlan(bad, 0)
		}
		if badV.Sig != "fatal" && find(r2, prop, badV.Sig) == nil {
			fmt.Fprintf(os.Stderr, "not reproduced: seed %d %s: %s (hash %s, then %s %s)\n", bad.Seed, badV.Sig, badV.Msg, badRes.Hash, r2.Hash, r2.Harness)
			rc = 2
		} else {
			nviol = 1
			rc = 1
			report(prop, bad, badV, *workers)
		}
	}
	for i, k := range ks {
		if k.prop == prop {
			if m, ok := seen[i]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.what, m)
			} else {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
			}
		}
	}
	if rc == 0 && (a.runs == 0 || a.void*2 > a.runs) {
		fmt.Fprintf(os.Stderr, "%d of %d runs gave no verdict: %s\n", a.void, a.runs, strings.Join(a.harness, " | "))
		rc = 2
	}
	a.evidence(prop, *tier, base, explore, time.Since(t0), nviol, len(reruns), mism, len(corpus))
	fmt.Printf("%s %s: %d runs (%d without verdict), %.0f simulated s, %d violations, %.1f s\n", prop, *tier, a.runs, a.void, float64(a.simMs)/1000, nviol, time.Since(t0).Seconds())
	if len(a.harness) > 0 {
		fmt.Fprintf(os.Stderr, "no verdict: %s\n", strings.Join(a.harness[:min(3, len(a.harness))], "\n"))
	}
	return rc
}

func report(prop string, p *plan.Plan, v *plan.Violation, workers int) {
	q, tries := p, 0
	if v.Sig != "fatal" {
		q, tries = minimise(p, prop, v.Sig, 60*time.Second, workers)
	}
	r := runPlan(q, 0)
	if mv := find(r, prop, v.Sig); mv != nil {
		v = mv
	} else if v.Sig != "fatal" {
		q = p
		r = runPlan(q, 0)
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, p.Seed))
	rf := replayFile{Property: prop, Violation: v, Hash: r.Hash, OrigSeed: p.Seed, OrigItems: len(p.Items), Plan: q, Schedule: r.Trace}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0644)
	fmt.Printf("violated: %s [%s] %s\n", prop, v.Sig, v.Msg)
	fmt.Printf("seed %d; minimised from %d to %d requests and faults in %d runs; simulated time of the violation %d ms\n", p.Seed, len(p.Items), len(q.Items), tries, v.At)
	for _, it := range q.Items {
		b, _ := json.Marshal(it)
		fmt.Printf("  %s\n", b)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
}

func loadCorpus(prop string) []*plan.Plan {
	fs, _ := filepath.Glob(filepath.Join(verif, "corpus", prop, "*.json"))
	sort.Strings(fs)
	var o []*plan.Plan
	for _, f := range fs {
		b, err := os.ReadFile(f)
		p := &plan.Plan{}
		if err == nil && json.Unmarshal(b, p) == nil {
			o = append(o, p)
		}
	}
	return o
}

func (a *agg) add(p *plan.Plan, r *plan.Result) {
	a.runs++
	a.modes[p.Mode]++
	if r.Harness != "" {
		a.void++
		if len(a.harness) < 20 {
			h := r.Harness
			if len(h) > 300 {
				h = h[:300]
			}
			a.harness = append(a.harness, fmt.Sprintf("seed %d: %s", p.Seed, h))
		}
		return
	}
	a.items += len(p.Items)
	a.simMs += r.SimMs
	a.steps += r.Steps
	a.switches += r.Switches
	a.preempts += r.Preempts
	a.maxHeap = max(a.maxHeap, r.Heap)
	a.hashes[r.Hash] = true
	nf := 0
	for k, v := range r.Faults {
		a.faults[k] += v
		nf += v
	}
	for k, v := range r.Stats {
		addStat(a.stats, k, v)
	}
	for _, s := range r.States {
		a.states[p.Mode+strconv.Itoa(p.N)+"/"+strconv.Itoa(p.T)+":"+s] = true
	}
	if nf > 0 && len(r.Fired) > 0 {
		a.nontrivial[r.Hash] = true
		if len(a.samples) < 3 {
			var its []any
			for _, it := range p.Items {
				if len(its) < 12 && it.K != "req" {
					its = append(its, it)
				}
			}
			a.samples = append(a.samples, map[string]any{"seed": p.Seed, "mode": p.Mode, "cosigners": p.N, "threshold": p.T, "policy": p.Policy, "preempt": p.Preempt,
				"requests_and_faults": len(p.Items), "faults": its, "execution_hash": r.Hash, "simulated_ms": r.SimMs, "scheduling_steps": r.Steps, "injected": r.Faults})
		}
	}
}

func (a *agg) evidence(prop, tier string, base uint64, explore, wall time.Duration, nviol, rer, mism, corpus int) {
	hr := explore.Hours()
	real := "every goroutine of the horcrux processes: cosigner/signer commands, sign state, threshold validator, local and remote cosigner, gRPC (client, server, HTTP/2), hashicorp/raft with BoltDB log store and file snapshots, raftadmin, tendermint privval connection and protocol, Go runtime scheduler and standard library (patched at the seams)"
	stub := "TCP (in-memory streams with simulated latency and faults), wall clock and timers (simulated), random source (seeded), process table and signals, stable storage below the file system calls (durable image kept beside the real scratch files), sentries (simulated Tendermint nodes) and hostile peers"
	cov := map[string]any{
		"evaluations":                         a.runs,
		"distinct_nontrivial":                 len(a.nontrivial),
		"rule":                                "One evaluation is one simulated execution of a generated plan (cluster shape, sentry requests, fault schedule, scheduler policy, latencies) under one seed. It counts as distinct and non-trivial when its execution hash (FNV-1a over every scheduling decision and delivered event) is new in this run, at least one fault was injected and at least one planned item took effect.",
		"samples":                             a.samples,
		"seed_base":                           base,
		"runs_without_verdict":                a.void,
		"replayed_from_corpus":                corpus,
		"modes":                               a.modes,
		"runs_per_hour":                       int(float64(a.runs) / hr),
		"seeds_per_hour":                      int(float64(a.runs-corpus) / hr),
		"simulated_seconds":                   float64(a.simMs) / 1000,
		"simulated_seconds_per_hour":          int(float64(a.simMs) / 1000 / hr),
		"scheduling_steps":                    a.steps,
		"goroutine_switches":                  a.switches,
		"forced_preemptions":                  a.preempts,
		"faults_injected":                     a.faults,
		"observed":                            a.stats,
		"distinct_interleavings":              len(a.hashes),
		"distinct_interleavings_measure":      "distinct execution hashes (order of all scheduling decisions, network deliveries and file operations)",
		"distinct_abstract_states":            len(a.states),
		"distinct_abstract_states_measure":    "distinct (mode, cluster shape, observed release/answer event) facts, such as share released by cosigner i at height/round/step",
		"determinism_reruns":                  rer,
		"determinism_mismatches":              mism,
		"violations_of_other_properties_seen": a.other,
		"real_code":                           real,
		"stubbed":                             stub,
	}
	if len(a.harness) > 0 {
		cov["no_verdict_reasons"] = a.harness[:min(5, len(a.harness))]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the simulated network, clock, storage and process model of DESIGN.md covers the faults real deployments meet",
			"a rename of a file whose content was synced is durable once it returned (no directory sync is modelled)",
			"RSA, SHA and Ed25519 arithmetic are trusted; the checks recompute signatures with the tendermint library",
		},
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil || rf.Plan == nil {
		fmt.Fprintln(os.Stderr, "not a replay file", err)
		return 2
	}
	r := runPlan(rf.Plan, len(args)-1)
	fmt.Printf("hash %s (recorded %s)\n", r.Hash, rf.Hash)
	if rf.Violation.Sig == "fatal" && r.Fatal != "" {
		fmt.Printf("violated: %s\nVIOLATION property=%s replay=%s\n", r.Fatal, rf.Property, args[0])
		return 1
	}
	if v := find(r, rf.Property, rf.Violation.Sig); v != nil {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		fmt.Printf("violated: %s [%s] t=%dms %s\n", v.Prop, v.Sig, v.At, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
		return 1
	}
	fmt.Printf("no violation of %s [%s] %s\n", rf.Property, rf.Violation.Sig, r.Harness)
	return 0
}

// run: one seed, printed (development).
func runOne(args []string) int {
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	p := plan.Gen(args[0], seed, env("VERIF_TIER", "quick"))
	r := runPlan(p, len(args)-2)
	r.Trace = nil
	r.States = nil
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(b))
	return 0
}

// sweep: many seeds of one property; all violations are listed (development).
func sweep(args []string) int {
	fs := flag.NewFlagSet("sweep", flag.ExitOnError)
	n := fs.Int("n", 200, "")
	from := fs.Int("from", 0, "")
	twice := fs.Bool("twice", false, "run each seed twice")
	base := fs.Uint64("base", 1, "")
	workers := fs.Int("j", 8, "")
	show := fs.Int("show", 4, "seeds per class")
	tier := fs.String("tier", "quick", "")
	fs.Parse(args[1:])
	prop := args[0]
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := *from
	cls := map[string][]string{}
	cnt := map[string]int{}
	stats := map[string]int{}
	faults := map[string]int{}
	t0 := time.Now()
	var sim int64
	var slow []string
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= *from+*n {
					return
				}
				sd := seedFor(*base, prop, i)
				p := plan.Gen(prop, sd, *tier)
				t1 := time.Now()
				r := runPlan(p, 0)
				d := time.Since(t1)
				var r2 *plan.Result
				if *twice {
					r2 = runPlan(p, 0)
				}
				mu.Lock()
				if d > 8*time.Second {
					slow = append(slow, fmt.Sprintf("%d:%.1fs", sd, d.Seconds()))
				}
				sim += r.SimMs
				for k, v := range r.Stats {
					addStat(stats, k, v)
				}
				for k, v := range r.Faults {
					faults[k] += v
				}
				put := func(c, m string) {
					cnt[c]++
					if len(cls[c]) < *show {
						cls[c] = append(cls[c], fmt.Sprintf("%d (%s): %s", sd, p.Mode, m))
					}
				}
				if r2 != nil && r2.Hash != r.Hash {
					put("NONDET", r.Hash+" "+r2.Hash)
				}
				if r.Harness != "" {
					c := r.Harness
					if len(c) > 20 {
						c = c[:20]
					}
					put("HARNESS "+c, r.Harness)
				}
				dup := map[string]bool{}
				for _, v := range r.Violations {
					if c := v.Prop + " " + v.Sig; !dup[c] {
						dup[c] = true
						put(c, v.Msg)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s: %d\n", k, cnt[k])
		for _, m := range cls[k] {
			fmt.Printf("    %s\n", m)
		}
	}
	b, _ := json.Marshal(stats)
	c, _ := json.Marshal(faults)
	fmt.Printf("%d runs in %.1fs, %d sim s\nstats %s\nfaults %s\nslow %v\n", *n, time.Since(t0).Seconds(), sim/1000, b, c, slow)
	return 0
}
