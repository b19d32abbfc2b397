//go:build go1.22

package main

// A threshold cluster with its sentries: fault phase, then quiet final phase.

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

func (w *world) setupCluster() {
	p := w.p
	makeKeys(p.Seed, p.T, p.N)
	sharded := p.O("shard") == 1
	if sharded && !w.shard() {
		return
	}
	var names = map[int][]int{}
	for k, ids := range p.Sentry {
		for _, id := range ids {
			names[id] = append(names[id], k+1)
		}
	}
	for i := 1; i <= p.N; i++ {
		nd := w.newNode(i, fmt.Sprintf("n%d", i), fmt.Sprintf("10.0.0.%d", i), i)
		nd.args = []string{"cosigner", "start"}
		w.writeHome(nd, p.N, p.T, names[i])
		if sharded {
			w.shareFile(nd)
		}
		w.nodes = append(w.nodes, nd)
		if p.O("markM")>>uint(i)&1 == 1 {
			w.mark(nd, hrs{p.O("markH"), p.O("markR"), int8(p.O("markS"))}, 0)
		}
	}
	for k, ids := range p.Sentry {
		s := w.addSentry(k + 1)
		s.listen()
		for _, id := range ids {
			w.addLink(s, w.nodes[id])
		}
	}
	if p.Prop == "C19" {
		w.o.initSecrets()
	}
}

func (w *world) runCluster() {
	w.setupCluster()
	if len(w.nodes) < w.p.N+1 {
		return // no share files
	}
	for _, n := range w.nodes[1:] {
		if w.p.O("late"+strconv.Itoa(n.id)) > 0 {
			n := n
			w.after(w.p.O("late"+strconv.Itoa(n.id)), func() { go w.start(n) })
			continue
		}
		go w.start(n)
	}
	w.loadItems()
	w.sleepUntil(w.p.Horizon)
	w.stopFaults()
	for _, n := range w.nodes[1:] {
		n.held = false
		down := false
		for _, d := range w.p.Down {
			down = down || d == n.id
		}
		if down {
			n.held = true
			if n.alive {
				w.kill(n, false, false)
			}
		} else if !n.alive {
			go w.start(n)
		}
	}
	w.drain()
	switch w.p.Final {
	case "C07":
		w.finalC07(240000)
	case "C08":
		w.finalC08()
	case "C11":
		w.finalC11()
	case "C12":
		w.finalC12()
	case "C14":
		w.finalC14()
	case "C22":
		if left, took := w.signEverywhere(240000); len(left) > 0 {
			w.violate("C22", "no-signature", "the cosigners %v (threshold %d of %d shares) do not sign within %d s: %s", w.p.O("sub"), w.p.T, w.p.N, took/1000, w.describe())
		} else {
			w.stats["gaps_signed"]++
			w.states[fmt.Sprintf("gaps:%d/%d:%b", w.p.T, w.p.N, w.p.O("sub")>>1)] = true
		}
	case "C23":
		w.finalC23()
	case "C24":
		w.finalC24()
	case "C25":
		w.finalC25()
	case "C21":
		w.finalC21()
	case "sign":
		w.finalSign()
	}
	w.o.finalScan()
	for _, n := range w.nodes[1:] {
		w.checkFiles(n, "at the end")
		if n.lost {
			w.checkLost(n)
		}
	}
}

func (w *world) sleepUntil(ms int64) {
	if d := w.t0 + ms*1e6 - now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// drain waits until no request is outstanding.
func (w *world) drain() {
	end := now() + 90e9
	for now() < end {
		busy := false
		for _, l := range w.sortedLinks() {
			busy = busy || l.busy || len(l.q) > 0
		}
		if !busy {
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func (w *world) liveLinks() []*link {
	var out []*link
	for _, l := range w.sortedLinks() {
		if !l.n.held && w.present(l.n.id) {
			out = append(out, l)
		}
	}
	return out
}

// ask sends q on link l and waits for the outcome.
func (w *world) ask(l *link, q plan.Req) *answer {
	ch := make(chan *answer, 1)
	l.submit(0, &q, func(a *answer) { ch <- a })
	return <-ch
}

// askAll sends q on every link at once.
func (w *world) askAll(ls []*link, q plan.Req) []*answer {
	out := make([]*answer, len(ls))
	done := make(chan int, len(ls))
	for i, l := range ls {
		q := q
		l.submit(0, &q, func(a *answer) { out[i] = a; done <- i })
	}
	for range ls {
		<-done
	}
	return out
}

// raiseAsked: fresh heights are above what the nodes have signed, altered
// messages included. No height is fresh after one near the largest.
func (w *world) raiseAsked() bool {
	for _, n := range w.nodes[1:] {
		for _, cl := range []string{"share", "priv"} {
			b, err := os.ReadFile(n.statePath(cl))
			if err != nil {
				continue
			}
			if st, err := parseState(b); err == nil && st.hrs.H > w.o.maxAsked {
				w.o.maxAsked = st.hrs.H
			}
		}
	}
	if w.o.maxAsked > 1<<62 {
		w.stats["no_fresh_height"]++
		return false
	}
	return true
}

func (w *world) nextH() int64 {
	w.o.maxAsked++
	return w.o.maxAsked
}

var kinds3 = []string{"proposal", "prevote", "precommit"}

// signEverywhere makes fresh sign requests until each link had a success.
func (w *world) signEverywhere(limitMs int64) (pending []*link, took int64) {
	start := now()
	pending = w.liveLinks()
	if !w.raiseAsked() {
		return nil, 0
	}
	w.o.maxAsked += 3
	for len(pending) > 0 && now()-start < limitMs*1e6 {
		h := w.nextH()
		as := w.askAll(w.liveLinks(), plan.Req{Kind: kinds3[1+int(h%2)], H: h, R: w.p.O("rbase"), V: 1, TO: 12000})
		var left []*link
		for _, l := range pending {
			ok := false
			for _, a := range as {
				ok = ok || a.l == l && a.ok
			}
			if !ok {
				left = append(left, l)
			}
		}
		pending = left
		if len(pending) > 0 {
			time.Sleep(2 * time.Second)
		}
	}
	return pending, (now() - start) / 1e6
}

func (w *world) describe() string {
	var s string
	for _, n := range w.nodes[1:] {
		st := "up"
		if !n.alive {
			st = "down"
		}
		s += fmt.Sprintf("n%d:%s inc=%d share=%v priv=%v; ", n.id, st, n.inc, n.last["share"], n.last["priv"])
	}
	return s + fmt.Sprintf("leader=n%d", w.leader)
}

func (w *world) finalC07(limit int64) {
	for end := now() + 90e9; ; {
		var off []*link
		for _, l := range w.liveLinks() {
			if l.n.alive && (l.conn == nil || l.raw.closed || l.raw.in.eof || l.raw.in.rst) {
				off = append(off, l)
			}
		}
		if len(off) == 0 {
			break
		}
		if now() > end {
			w.violate("C07", "unconnected", "90 s after faults stopped, n%d has still not connected to sentry %d again (connections so far: %d)", off[0].n.id, off[0].s.k, off[0].nConn)
			return
		}
		time.Sleep(time.Second)
	}
	pending, took := w.signEverywhere(limit)
	if len(pending) > 0 {
		var names string
		for _, l := range pending {
			names += fmt.Sprintf(" sentry%d/n%d(conn=%v)", l.s.k, l.n.id, l.conn != nil)
		}
		lasterr := ""
		for i := len(w.o.answers) - 1; i >= 0; i-- {
			if a := w.o.answers[i]; !a.ok && a.l == pending[0] {
				lasterr = a.err + a.rerr
				break
			}
		}
		w.violate("C07", "stuck", "after faults stopped, no fresh vote was signed within %d s through%s (last error %q); %s", limit/1000, names, lasterr, w.describe())
		return
	}
	w.stats["recovered_ms"] += int(took)
	w.stats["recovered_max_ms"] = max(w.stats["recovered_max_ms"], int(took))
	w.stats["recovered"]++
}

func (w *world) finalSign() {
	if p, _ := w.signEverywhere(60000); len(p) > 0 {
		w.stats["final_sign_failed"]++
	}
}

// watermarks reports cosigners whose durable watermarks are below h.
func (w *world) watermarksBelow(h hrs) string {
	for _, n := range w.nodes[1:] {
		if !n.alive || n.held {
			continue
		}
		for _, cl := range []string{"share", "priv"} {
			st, err := n.diskState(w, cl)
			if err != nil {
				return fmt.Sprintf("n%d %s: %v", n.id, cl, err)
			}
			if st.hrs.less(h) {
				return fmt.Sprintf("n%d %s at %v", n.id, cl, st.hrs)
			}
		}
	}
	return ""
}

func (w *world) finalC08() {
	if p, _ := w.signEverywhere(200000); len(p) > 0 {
		w.stats["final_sign_failed"]++
		return
	}
	rounds := 3
	for i := 0; i < rounds; i++ {
		h := w.nextH()
		if i == 1 {
			h += 5
			w.o.maxAsked = h
		}
		kind := kinds3[w.rng.n(3)]
		l := w.liveLinks()[w.rng.n(len(w.liveLinks()))]
		a := w.ask(l, plan.Req{Kind: kind, H: h, R: w.p.O("rbase") + int64(w.rng.n(2)), V: 1, TO: 12000})
		if !a.ok {
			continue
		}
		w.stats["c08_rounds"]++
		hr, _, _ := decode(a.msg)
		bad := ""
		for t := 0; t < 200; t++ {
			if bad = w.watermarksBelow(hr); bad == "" {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if bad != "" {
			w.violate("C08", "watermark", "20 s after %v was signed in a quiet cluster: %s; %s", hr, bad, w.describe())
			return
		}
		// from now on nobody starts anything lower
		for _, low := range []plan.Req{
			{Kind: "precommit", H: h - 1, R: 2, V: 2},
			{Kind: "prevote", H: 1 + w.rng.n64(h), R: 0, V: 3},
		} {
			lh := hrs{low.H, low.R, stepOf(low.Kind)}
			if !lh.less(hr) {
				continue
			}
			low := low
			if k := w.steal(plan.Item{K: "rogue", S: "steal", Q: &low}); k > 0 {
				w.violate("C08", "lower", "%d cosigners signed %v after %v was signed and distributed", k, lh, hr)
			}
			w.stats["c08_low_probes"]++
		}
	}
}

// midC08 is the same check during calm stretches of the fault phase.
func (w *world) midC08(h hrs) {
	if w.quiet || w.p.SpikePm > 0 || w.faultUntil > now()-15e9 {
		return
	}
	t := now()
	incs := map[int]int32{}
	for _, n := range w.nodes[1:] {
		incs[n.id] = n.nid
		if !n.alive {
			return
		}
	}
	w.after(10000, func() {
		if w.faultUntil > t-15e9 || w.done {
			return
		}
		for _, n := range w.nodes[1:] {
			if !n.alive || n.nid != incs[n.id] {
				return
			}
			// connected means: raft replication with it worked all along (the
			// leader backs off for up to 10 s after failures)
			if !n.repl.since(t) {
				w.stats["c08_not_replicating"]++
				return
			}
		}
		w.stats["c08_calm_checks"]++
		if bad := w.watermarksBelow(h); bad != "" {
			w.violate("C08", "watermark", "10 s after %v was signed with all cosigners connected: %s; %s", h, bad, w.describe())
		}
	})
}

func (w *world) finalC11() {
	if p, _ := w.signEverywhere(200000); len(p) > 0 {
		w.stats["final_sign_failed"]++
		return
	}
	ls := w.liveLinks()
	for i := 0; i < 3; i++ {
		h := w.nextH() + int64(i%2)
		w.o.maxAsked = h
		q := plan.Req{Kind: kinds3[w.rng.n(3)], H: h, R: w.p.O("rbase") + int64(w.rng.n(2)), V: w.rng.n(3), Ts: w.rng.n64(2000), TO: 12000}
		if q.Kind == "proposal" {
			q.V = 1
			q.Pol = -1
		}
		before := w.leaders()
		if len(before) != 1 {
			continue
		}
		nid := w.nodes[before[0]].nid
		a := w.ask(ls[w.rng.n(len(ls))], q)
		if !a.ok {
			continue
		}
		time.Sleep(time.Duration(w.rng.n(3000)) * time.Millisecond)
		for j := 0; j < 2; j++ {
			for _, l := range ls {
				b := w.ask(l, q)
				after := w.leaders()
				if b.ok && !bytes.Equal(b.sig, a.sig) {
					w.violate("C11", "different", "the repeated request %s h=%d r=%d got another signature from n%d than first from n%d", q.Kind, q.H, q.R, l.n.id, a.l.n.id)
				}
				if len(after) != 1 || after[0] != before[0] || w.nodes[before[0]].nid != nid {
					break
				}
				w.stats["c11_repeats"]++
				if !b.ok {
					w.violate("C11", "refused", "quiet cluster with unchanged leader n%d: the repeat of the latest signed request %s h=%d r=%d through n%d failed: %s%s", before[0], q.Kind, q.H, q.R, l.n.id, b.err, b.rerr)
				}
			}
		}
		if w.rng.n(2) == 0 { // the same again after a leader change: same signature or error
			w.elect(0, "", false)
			time.Sleep(8 * time.Second)
			for _, l := range ls {
				b := w.ask(l, q)
				if b.ok && !bytes.Equal(b.sig, a.sig) && w.lateRepeat(a, b) {
					w.violate("C11", "different-leader", "the repeated request %s h=%d r=%d got another signature after a leader change", q.Kind, q.H, q.R)
				}
				w.stats["c11_repeats_other_leader"]++
			}
		}
	}
}

// lateRepeat: whether a different signature after a leader change counts.
func (w *world) lateRepeat(a, b *answer) bool { return false }

func (w *world) finalC12() {
	// every link is served again
	ls := w.liveLinks()
	end := now() + 60e9
	pending := append([]*link(nil), ls...)
	for len(pending) > 0 && now() < end {
		var left []*link
		for i, a := range w.askAll(pending, plan.Req{Kind: "pubkey", TO: 5000}) {
			if !a.ok {
				left = append(left, pending[i])
			}
		}
		pending = left
		time.Sleep(time.Second)
	}
	for _, l := range pending {
		if l.n.alive {
			w.violate("C12", "not-served", "60 s after faults stopped n%d still does not serve sentry %d (connections so far: %d, connected: %v)", l.n.id, l.s.k, l.nConn, l.conn != nil)
		}
	}
	for i := 0; i < 4; i++ {
		h := w.nextH()
		for _, l := range ls {
			w.ask(l, plan.Req{Kind: []string{"ping", "precommit", "pubkey", "prevote"}[i], H: h, V: 1, TO: 30000})
		}
	}
}

func (w *world) finalC14() {
	if p, _ := w.signEverywhere(200000); len(p) > 0 {
		w.stats["final_sign_failed"]++
		return
	}
	n := w.p.N
	// raft backs off up to some 10 s from a peer that was down; a transfer
	// needs a target that has caught up
	time.Sleep(45 * time.Second)
	for i := 0; i < 4; i++ {
		ls := w.leaders()
		for t := 0; t < 30 && len(ls) != 1; t++ {
			time.Sleep(time.Second)
			ls = w.leaders()
		}
		if len(ls) != 1 {
			w.violate("C14", "no-leader", "no single leader in a quiet cluster for 30 s: %v", ls)
			return
		}
		old := ls[0]
		cli := w.rng.n(2) == 0
		at := old
		if cli {
			at = 1 + w.rng.n(n)
			if !w.nodes[at].alive {
				at = old
			}
		}
		k := w.rng.n(5)
		target := ""
		want := 0 // any other
		switch {
		case k <= 1:
			want = 1 + w.rng.n(n)
			target = strconv.Itoa(want)
			if !w.nodes[want].alive {
				want = -1 // cannot become leader
			}
		case k == 2:
			target = ""
			for j := 1; j <= n; j++ {
				if !w.nodes[j].alive {
					want = -1 // raft may pick the dead one and give up
				}
			}
		case k == 3:
			target = strconv.Itoa(old)
			want = old
		case k == 4:
			target = []string{"99", "x", "0", "-1", "10.0.0.1:2222"}[w.rng.n(5)]
			want = -1
		}
		w.tr("C14: leader n%d, transfer to %q (cli=%v at n%d)", old, target, cli, at)
		w.elect(at, target, cli)
		w.stats["c14_transfers"]++
		got := []int{}
		for t := 0; t < 30; t++ {
			time.Sleep(500 * time.Millisecond)
			got = w.leaders()
			if len(got) == 1 && (want == -1 || want == 0 && got[0] != old || got[0] == want) && t >= 3 {
				break
			}
		}
		okT := len(got) == 1 && (want == -1 || want == 0 && got[0] != old || got[0] == want)
		if !okT {
			sig := "named"
			if want == 0 {
				sig = "unnamed"
			} else if want == old {
				sig = "self"
			} else if want == -1 {
				sig = "unknown"
			}
			w.violate("C14", "transfer:"+sig, "15 s after asking leader n%d for a transfer to %q the leaders are %v", old, target, got)
		}
		if want == old {
			// it must not have lost leadership on the way either
			w.stats["c14_self"]++
		}
		if p, _ := w.signEverywhere(60000); len(p) > 0 {
			w.violate("C14", "no-sign", "60 s after a transfer from n%d to %q signing does not work through n%d; %s", old, target, p[0].n.id, w.describe())
			return
		}
		if want == -1 {
			// a transfer to a dead target is in progress until raft's backoff from it and the
			// connection attempt to it end, and until then the leader ignores others
			time.Sleep(45 * time.Second)
		}
	}
}

// checkLost: a lost share sign state is not replaced by the process itself (C20).
func (w *world) checkLost(n *node) {
	b, err := os.ReadFile(n.statePath("share"))
	if err != nil {
		return
	}
	if st, err := parseState(b); err == nil {
		w.violate("C20", "replaced", "n%d put a share sign state (%v) in the place of the lost one", n.id, st.hrs)
	}
}

// finalC23: every process is told to stop while it works, ends, and serves again after its next start.
func (w *world) finalC23() {
	for k := 0; k < 2; k++ {
		if left, _ := w.signEverywhere(240000); len(left) > 0 {
			w.violate("C23", "no-service", "%d s after the last disturbance n%d does not sign for sentry %d; %s", 240, left[0].n.id, left[0].s.k, w.describe())
			return
		}
		if k == 1 {
			return
		}
		ns := w.nodes[1:]
		for _, l := range w.liveLinks() {
			l.submit(0, &plan.Req{Kind: "precommit", H: w.nextH(), V: 1, TO: 30000}, nil)
		}
		for _, n := range ns {
			if !n.alive || !n.up {
				continue
			}
			time.Sleep(time.Duration(w.rng.n(40)) * time.Millisecond)
			if ex := n.exited; ex != nil && n.alive {
				inc := n.inc
				sig := []os.Signal{os.Interrupt, syscall.SIGTERM}[w.rng.n(2)]
				go w.stopping(n, inc, ex)
				w.signal(n, sig)
			}
		}
		time.Sleep(stopBound + 5*time.Second)
		for _, n := range ns {
			if !n.alive {
				n.wantDead = false
				go w.start(n)
			}
		}
		time.Sleep(5 * time.Second)
	}
}
