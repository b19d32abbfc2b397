//go:build go1.22

package main

import (
	"time"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

// find returns the violation of class (prop, sig) in a result.
func find(r *plan.Result, prop, sig string) *plan.Violation {
	for i := range r.Violations {
		if v := &r.Violations[i]; v.Prop == prop && (sig == "" || v.Sig == sig) && isKnown(known(), v) < 0 {
			return v
		}
	}
	return nil
}

// minimise removes scheduled requests and faults (and then simplifies the
// scheduling parameters) as long as the same class of violation remains.
func minimise(p *plan.Plan, prop, sig string, limit time.Duration, workers int) (*plan.Plan, int) {
	end := time.Now().Add(limit)
	tries := 0
	// the first of several candidates (by index) that still fails
	try := func(cands []*plan.Plan) int {
		for i := 0; i < len(cands) && time.Now().Before(end); i += workers {
			j := min(i+workers, len(cands))
			ok := make([]bool, j-i)
			done := make(chan bool)
			for k := i; k < j; k++ {
				go func(k int) {
					ok[k-i] = find(runPlan(cands[k], 0), prop, sig) != nil
					done <- true
				}(k)
			}
			for k := i; k < j; k++ {
				<-done
			}
			tries += j - i
			for k := range ok {
				if ok[k] {
					return i + k
				}
			}
		}
		return -1
	}
	cur := p.Clone()
	// items that never fired cannot matter much: drop them first
	r := runPlan(cur, 0)
	fired := map[int]bool{}
	for _, id := range r.Fired {
		fired[id] = true
	}
	c := cur.Clone()
	c.Items = nil
	for _, it := range cur.Items {
		if fired[it.ID] {
			c.Items = append(c.Items, it)
		}
	}
	if v := find(r, prop, sig); v != nil {
		d := c.Clone()
		d.Items = nil
		for _, it := range c.Items {
			if it.At <= v.At+1 {
				d.Items = append(d.Items, it)
			}
		}
		if i := try([]*plan.Plan{d, c}); i == 0 {
			cur = d
		} else if i == 1 {
			cur = c
		}
	}
	n := 2
	for len(cur.Items) >= 1 && time.Now().Before(end) {
		if n > len(cur.Items) {
			n = len(cur.Items)
		}
		var cands []*plan.Plan
		for k := 0; k < n; k++ {
			a, b := k*len(cur.Items)/n, (k+1)*len(cur.Items)/n
			d := cur.Clone()
			d.Items = append(append([]plan.Item{}, cur.Items[:a]...), cur.Items[b:]...)
			cands = append(cands, d)
		}
		if i := try(cands); i >= 0 {
			cur = cands[i]
			n = max(n-1, 2)
			continue
		}
		if n == len(cur.Items) {
			break
		}
		n *= 2
	}
	for _, f := range []func(*plan.Plan){
		func(d *plan.Plan) { d.Preempt = 0 },
		func(d *plan.Plan) { d.SpikePm, d.SpikeMs = 0, 0 },
		func(d *plan.Plan) { d.Split = false },
		func(d *plan.Plan) { d.Policy = 0 },
		func(d *plan.Plan) { d.LatMin, d.LatMax = 100, 300 },
		func(d *plan.Plan) { d.Tick = 1000 },
	} {
		d := cur.Clone()
		f(d)
		if time.Now().Before(end) && try([]*plan.Plan{d}) == 0 {
			cur = d
		}
	}
	return cur, tries
}
