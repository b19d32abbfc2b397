//go:build go1.22

package main

// C25: every sentry gets its vote signed, not only the one that asked first.

import (
	"time"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

// oneLeader tells who leads, or 0; a single signer leads itself.
func (w *world) oneLeader() (int, int32) {
	if w.p.Mode == "single" {
		return 1, w.nodes[1].nid
	}
	ls := w.leaders()
	if len(ls) != 1 {
		return 0, 0
	}
	return ls[0], w.nodes[ls[0]].nid
}

func (w *world) finalC25() {
	if p, _ := w.signEverywhere(240000); len(p) > 0 {
		w.stats["final_sign_failed"]++
		return
	}
	time.Sleep(30 * time.Second)
	type asked struct {
		l *link
		q plan.Req
		a *answer
	}
	for i := 0; i < 8; i++ {
		ls := w.liveLinks()
		h, r := w.nextH(), w.p.O("rbase")+int64(w.rng.n(2))
		base := plan.Req{Kind: kinds3[w.rng.n(3)], H: h, R: r, V: w.rng.n(3), TO: 15000}
		if base.Kind == "proposal" {
			base.V, base.Pol = 1, -1
		}
		lead, nid := w.oneLeader()
		if lead == 0 || len(ls) == 0 {
			time.Sleep(5 * time.Second)
			continue
		}
		spread := []int64{1, 50, 2000, 3600000}[w.rng.n(4)]
		var all []*asked
		n := len(ls) + w.rng.n(3)
		ts := int64(0)
		for j := 0; j < n; j++ {
			x := &asked{l: ls[j%len(ls)], q: base}
			if j > 0 && w.rng.n(5) == 0 {
				x.q.Ts = all[0].q.Ts // exactly what was signed first
			} else {
				// Each timestamp is another one; requests with 2k and 2k+1 may share it.
				x.q.Ts = ts
				ts += 2 * (1 + w.rng.n64(spread))
			}
			all = append(all, x)
		}
		if w.rng.n(2) == 0 { // not only forward in time, as clocks differ
			for j := n - 1; j > 1; j-- {
				k := 1 + int(w.rng.n64(int64(j)))
				all[j].q.Ts, all[k].q.Ts = all[k].q.Ts, all[j].q.Ts
			}
		}
		for _, x := range all {
			done := make(chan bool, 1)
			x.l.submit(0, &x.q, func(a *answer) { x.a = a; done <- true })
			<-done
		}
		lead2, nid2 := w.oneLeader()
		w.stats["c25_rounds"]++
		for j, x := range all {
			if lead2 != lead || nid2 != nid {
				w.stats["c25_leader_changed"]++
				break
			}
			w.stats["c25_asked"]++
			if !x.a.ok {
				w.violate("C25", "turned-away", "quiet, n%d leads: %d requests one after the other to sign %s h=%d r=%d block %d, timestamps apart: number %d, through n%d with timestamp %+d ms (the first: %+d ms), failed: %s%s", lead, n,
					base.Kind, h, r, base.V, j+1, x.l.n.id, x.q.Ts, all[0].q.Ts, x.a.err, x.a.rerr)
				return
			}
		}
	}
}
