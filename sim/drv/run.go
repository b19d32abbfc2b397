//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

var (
	verif   string // /verif
	simBin  string
	scratch atomic.Uint32
)

func init() {
	exe, _ := os.Executable()
	verif = filepath.Dir(filepath.Dir(filepath.Dir(exe))) // <verif>/.cache/bin/hxdrv
	if v := os.Getenv("HX_VERIF"); v != "" {
		verif = v
	}
	simBin = filepath.Join(filepath.Dir(exe), "hxsim")
}

// scratchDir makes a directory whose path always has the same length: the
// paths the simulated program sees must not differ between two executions.
func scratchDir() string {
	for {
		n := uint32(os.Getpid())<<12 ^ scratch.Add(1)
		for _, base := range []string{"/dev/shm/hx", "/tmp/hx----"} {
			d := fmt.Sprintf("%s%08x", base, n)
			if os.Mkdir(d, 0700) == nil {
				return d
			}
		}
		time.Sleep(time.Millisecond)
	}
}

// spins are the properties that a process breaks which runs on without end:
// those that promise an answer, service or an end within a time.
var spins = map[string]bool{"C06": true, "C07": true, "C12": true, "C14": true, "C17": true, "C22": true, "C23": true}

// runPlan executes one plan: one process, or for multi-step plans one process
// per step on the same directory.
func runPlan(p *plan.Plan, verbose int) *plan.Result {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	p = p.Clone()
	p.Verbose = verbose
	b, _ := json.Marshal(p)
	if err := os.WriteFile(filepath.Join(dir, "plan.json"), b, 0644); err != nil {
		return &plan.Result{Harness: err.Error()}
	}
	var tot *plan.Result
	for step := 0; ; step++ {
		r := runStep(dir, step, verbose)
		if tot == nil {
			tot = r
		} else {
			merge(tot, r)
		}
		if strings.HasPrefix(r.Harness, "runaway: SIM-SPIN") && spins[p.Prop] {
			l, _, _ := strings.Cut(r.Harness, "\n")
			tot.Harness = ""
			tot.Violations = append(tot.Violations, plan.Violation{Prop: p.Prop, Sig: "runaway", Msg: l})
			return tot
		}
		if r.Harness != "" || !r.More || len(r.Violations) > 0 {
			return tot
		}
		if step > 98 {
			tot.Harness = "too many steps"
			return tot
		}
	}
}

func merge(t, r *plan.Result) {
	t.Violations = append(t.Violations, r.Violations...)
	t.Hash += "." + r.Hash
	t.SimMs += r.SimMs
	t.Steps += r.Steps
	t.Switches += r.Switches
	t.Preempts += r.Preempts
	if r.Heap > t.Heap {
		t.Heap = r.Heap
	}
	for k, v := range r.Stats {
		addStat(t.Stats, k, v)
	}
	for k, v := range r.Faults {
		t.Faults[k] += v
	}
	t.Fired = append(t.Fired, r.Fired...)
	t.States = append(t.States, r.States...)
	t.Harness = r.Harness
	t.Trace = append(t.Trace, r.Trace...)
	t.More = r.More
}

func runStep(dir string, step int, verbose int) *plan.Result {
	os.Remove(filepath.Join(dir, "result.json"))
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, simBin)
	c.Dir = dir
	// a fixed environment: its size is an input of the simulated process
	c.Env = []string{"PATH=/bin", fmt.Sprintf("HX_STEP=%02d", step)}
	var eb tailBuf
	c.Stderr = &eb
	if verbose > 0 {
		c.Stderr = os.Stderr
	}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	err := c.Run()
	r := &plan.Result{}
	b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
	if rerr == nil {
		rerr = json.Unmarshal(b, r)
	}
	if err != nil || rerr != nil {
		code := -1
		if c.ProcessState != nil {
			code = c.ProcessState.ExitCode()
		}
		r = &plan.Result{Exit: code}
		tail := eb.String()
		switch {
		case ctx.Err() != nil:
			r.Harness = "timeout: no result after 180 s"
		case code == 97:
			r.Harness = "deadlock: " + tail
		case code == 94 || code == 95:
			r.Harness = "runaway: " + eb.head()
			if i := strings.Index(r.Harness, "SIM-"); i > 0 {
				r.Harness = "runaway: " + r.Harness[i:]
			}
		case code == 98:
			r.Harness = "overrun: " + tail
		default:
			r.Harness = fmt.Sprintf("exit %d (%v): %s", code, err, tail)
			if i := strings.Index(eb.head(), "fatal error: "); i >= 0 {
				l := eb.head()[i:]
				if j := strings.IndexByte(l, '\n'); j > 0 {
					l = l[:j]
				}
				r.Fatal = l
			}
		}
	}
	if r.Stats == nil {
		r.Stats = map[string]int{}
	}
	if r.Faults == nil {
		r.Faults = map[string]int{}
	}
	return r
}

// tailBuf keeps the first 4 kB and the last 2 kB.
type tailBuf struct{ h, t bytes.Buffer }

func (b *tailBuf) Write(p []byte) (int, error) {
	if n := 4096 - b.h.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		b.h.Write(p[:n])
	}
	b.t.Write(p)
	if b.t.Len() > 8192 {
		x := append([]byte{}, b.t.Bytes()[b.t.Len()-2048:]...)
		b.t.Reset()
		b.t.Write(x)
	}
	return len(p), nil
}

func (b *tailBuf) head() string { return b.h.String() }
func (b *tailBuf) String() string {
	s := b.t.String()
	if len(s) > 2048 {
		s = s[len(s)-2048:]
	}
	return s
}

// addStat sums counters and takes the largest of maxima.
func addStat(m map[string]int, k string, v int) {
	if strings.HasSuffix(k, "_max_ms") {
		m[k] = max(m[k], v)
		return
	}
	m[k] += v
}
