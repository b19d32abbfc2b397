//go:build go1.22

package plan

import (
	"fmt"
	"sort"
)

// Rng is the generator's seeded stream.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng {
	z := seed + 0x1234567
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return &Rng{z ^ (z >> 31)}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.U64() % uint64(k))
}
func (r *Rng) P(pct int) bool       { return r.N(100) < pct }
func (r *Rng) R(a, b int) int       { return a + r.N(b-a+1) }
func (r *Rng) R64(a, b int64) int64 { return a + int64(r.U64()%uint64(b-a+1)) }
func Pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }
func PickW[T any](r *Rng, ws []int, xs ...T) T {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.N(t)
	for i, w := range ws {
		if k < w {
			return xs[i]
		}
		k -= w
	}
	return xs[0]
}

type gen struct {
	p  *Plan
	r  *Rng
	id int
	h  int64 // current height
}

func (g *gen) add(it Item) *Item {
	g.id++
	it.ID = g.id
	g.p.Items = append(g.p.Items, it)
	return &g.p.Items[len(g.p.Items)-1]
}

const warm = 3500 // ms until a leader is normally elected

// Gen makes the plan of one seed for a property.
func Gen(prop string, seed uint64, tier string) *Plan {
	p := gen1(prop, seed, tier)
	if p.Mode == "cluster" || p.Mode == "single" {
		p.roundBase()
	}
	return p
}

// roundBase lifts the rounds of some plans beyond what fewer bits can hold.
func (p *Plan) roundBase() {
	var base int64
	switch p.Seed * 0xd1342543de82ef95 >> 57 {
	case 0:
		base = 1<<31 - 20
	case 1:
		base = 1<<16 - 2
	case 2:
		base = 1<<8 - 2
	case 3:
		base = 1<<7 - 2
	default:
		return
	}
	p.Opt["rbase"] = base
	seen := map[*Req]bool{}
	for _, it := range p.Items {
		if it.Q != nil && it.Q.Kind != "bad" && it.Q.R < 16 && !seen[it.Q] {
			seen[it.Q] = true
			it.Q.R += base
		}
	}
	if _, ok := p.Opt["markH"]; ok {
		p.Opt["markR"] += base
	}
}

func gen1(prop string, seed uint64, tier string) *Plan {
	r := NewRng(seed)
	p := &Plan{Prop: prop, Seed: seed, Mode: "cluster", Opt: map[string]int64{}}
	g := &gen{p: p, r: r}
	p.Policy = uint32(r.N(4))
	p.Tick = Pick[uint64](r, 0, 200, 1000, 1000, 5000, 50000)
	p.Preempt = PickW[uint32](r, []int{2, 3, 3, 2, 1}, 0, 20, 60, 200, 7)
	p.LatMin, p.LatMax = 100, Pick[int64](r, 300, 2000, 2000, 8000, 40000)
	if r.P(25) {
		p.LatMin = p.LatMax / 2
	}
	p.Split = r.P(30)
	if r.P(20) {
		p.SpikePm, p.SpikeMs = r.R(1, 20), int64(r.R(50, 1500))
	}
	switch prop {
	case "C13":
		g.kv()
		return p
	case "C15":
		g.single()
		return p
	case "C20":
		if r.P(60) {
			g.cli()
			return p
		}
	case "C16", "C18":
		g.cli()
		return p
	case "C22":
		if r.P(65) {
			g.cli()
			return p
		}
	case "C03", "C04", "C05", "C12", "C17", "C23", "C24", "C25":
		if r.P(20) {
			g.single()
			return p
		}
	}
	g.cluster()
	return p
}

// topology picks cluster size and who is connected to whom.
func (g *gen) topology() {
	r, p := g.r, g.p
	switch r.N(12) {
	case 0:
		p.N, p.T = 2, 2
	case 1, 2:
		p.N, p.T = 5, 3
	case 3:
		p.N, p.T = 4, 3
	case 4:
		p.N, p.T = 3, 3
	case 5:
		p.N, p.T = 5, 4
	default:
		p.N, p.T = 3, 2
	}
	ns := r.R(1, 3)
	if p.Prop == "C01" || p.Prop == "C02" || p.Prop == "C11" {
		ns = r.R(2, 4)
	}
	seen := map[int]bool{}
	for k := 0; k < ns; k++ {
		var ids []int
		for i := 1; i <= p.N; i++ {
			if r.P(55) {
				ids = append(ids, i)
			}
		}
		if len(ids) == 0 {
			ids = []int{r.R(1, p.N)}
		}
		for _, i := range ids {
			seen[i] = true
		}
		p.Sentry = append(p.Sentry, ids)
	}
	for i := 1; i <= p.N; i++ {
		if !seen[i] && r.P(70) {
			k := r.N(ns)
			p.Sentry[k] = append(p.Sentry[k], i)
			sort.Ints(p.Sentry[k])
		}
	}
}

type lk struct{ s, n int }

func (g *gen) links() []lk {
	var out []lk
	for k, ids := range g.p.Sentry {
		for _, i := range ids {
			out = append(out, lk{k + 1, i})
		}
	}
	return out
}

func (g *gen) req(at int64, l lk, q Req) {
	g.add(Item{At: at, K: "req", N: l.n, P: l.s, Q: &q})
}

// traffic is the consensus-like request stream between two times.
//
//	conflictPct: a link asks for another block than the rest
//	repeatPct:   a request is asked again later
//	oldPct:      a request for something already passed
//	tsPct:       timestamps differ between sentries
func (g *gen) traffic(from, to int64, conflictPct, repeatPct, oldPct, tsPct int) {
	r := g.r
	ls := g.links()
	if g.h == 0 {
		g.h = int64(r.R(2, 20)) + g.base()
	}
	gap := int64(r.R(100, 2500))
	if r.P(30) {
		gap = int64(r.R(5, 60)) // back to back
	}
	at := from
	max := 90
	round := int64(0)
	for at < to && len(g.p.Items) < max {
		kinds := []string{"prevote", "precommit"}
		if r.P(50) {
			kinds = []string{"proposal", "prevote", "precommit"}
		}
		for _, k := range kinds {
			v := 1
			if k != "proposal" && r.P(12) {
				v = 0
			}
			n := len(ls)
			use := r.R(1, n)
			if r.P(40) {
				use = n
			}
			perm := g.perm(n)
			for _, i := range perm[:use] {
				q := Req{Kind: k, H: g.h, R: round, V: v}
				if k == "proposal" {
					q.Pol = -1
					if round > 0 {
						q.Pol = int64(r.N(int(round)+1)) - 1
					}
				}
				if r.P(conflictPct) {
					q.V = r.R(0, 3)
					if r.P(20) {
						q.V = Pick(r, 11, 21, 101, 111)
					}
					if k == "proposal" && r.P(30) {
						q.Pol++
					}
				}
				if r.P(tsPct) {
					q.Ts = int64(r.N(900))
				}
				t := at + int64(r.N(40))
				if r.P(20) {
					t = at + int64(r.N(int(gap)+200))
				}
				g.req(t, ls[i], q)
				if r.P(repeatPct) {
					q2 := q
					if r.P(30) {
						q2.Ts += int64(r.R(1, 400))
					}
					l := ls[i]
					if r.P(60) {
						l = ls[r.N(n)]
					}
					g.req(t+int64(r.R(1, 3000)), l, q2)
				}
			}
			if r.P(oldPct) {
				q := Req{Kind: Pick(r, "proposal", "prevote", "precommit"), H: g.h - int64(r.N(3)), R: int64(r.N(2)), V: r.R(1, 2)}
				if q.H < 1 {
					q.H = 1
				}
				if r.P(30) {
					q.H, q.R = g.h, round
				}
				g.req(at+int64(r.N(int(gap)+100)), ls[r.N(n)], q)
			}
			at += gap/2 + int64(r.N(int(gap)+1))
		}
		if r.P(20) {
			round++
		} else {
			round = 0
			g.h += int64(PickW(r, []int{8, 1, 1}, 1, 2, 7))
		}
	}
}

func (g *gen) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

var rpcPh = []string{"req:out-pre", "req:out-post", "req:in", "resp:out-pre", "resp:out-post", "resp:in"}

func (g *gen) anyNode() int { return PickW(g.r, []int{4, 3, 1}, g.r.R(1, g.p.N), -1, -2) }

// trigger picks a point in the protocol.
func (g *gen) trigger() (ev string, n int) {
	r := g.r
	n = PickW(r, []int{4, 2, 2, 2}, 0, r.R(1, g.p.N), -1, -2)
	switch r.N(10) {
	case 0, 1, 2:
		return "rpc:SetEph:" + Pick(r, rpcPh...), n
	case 3, 4:
		return "rpc:GetEph:" + Pick(r, rpcPh...), n
	case 5:
		return "rpc:SignBlock:" + Pick(r, rpcPh...), n
	case 6:
		return "rpc:" + Pick(r, "App", "RequestVote") + ":" + Pick(r, rpcPh...), n
	default:
		return g.fsTrigger(), n
	}
}

func (g *gen) fsTrigger() string {
	r := g.r
	switch r.N(4) {
	case 0:
		return "fs:" + Pick(r, "share", "priv", "tmp")
	case 1:
		return "fs:" + Pick(r, "open", "write", "sync", "close") + ":tmp:" + Pick(r, "pre", "post")
	case 2:
		return "fs:rename:" + Pick(r, "share", "priv") + ":" + Pick(r, "pre", "post")
	default:
		return "fs:" + Pick(r, "writeat:raft", "write:raft", "sync:raft") + ":" + Pick(r, "pre", "post")
	}
}

// faults adds k faults of the given kinds between two times.
func (g *gen) faults(k int, from, to int64, kinds ...string) {
	for i := 0; i < k; i++ {
		g.fault(Pick(g.r, kinds...), g.r.R64(from, to))
	}
}

func (g *gen) down() int64 {
	return int64(PickW(g.r, []int{2, 4, 2}, g.r.R(1, 300), g.r.R(500, 5000), g.r.R(5000, 15000)))
}

func (g *gen) fault(kind string, at int64) {
	r, p := g.r, g.p
	it := Item{At: at, N: g.anyNode()}
	switch kind {
	case "crash", "power":
		it.K = "crash"
		it.D = g.down()
		if kind == "power" {
			it.A = 1
			it.B = int64(r.N(2))
		}
	case "crashat", "powerat":
		it.K = "crash"
		it.D = g.down()
		it.Ev, it.N = g.trigger()
		it.Ct = PickW(r, []int{4, 3, 2}, 1, r.R(1, 5), r.R(1, 30))
		if kind == "powerat" {
			it.A = 1
		}
	case "crashfs", "powerfs":
		it.K = "crash"
		it.D = g.down()
		it.Ev = g.fsTrigger()
		it.N = PickW(r, []int{4, 2, 2, 2}, 0, r.R(1, p.N), -1, -2)
		it.Ct = PickW(r, []int{4, 3, 2}, 1, r.R(1, 6), r.R(1, 40))
		if kind == "powerfs" {
			it.A = 1
		}
	case "blackout": // the power of a majority, or of all, is lost
		k := p.N/2 + 1
		if r.P(60) {
			k = p.N
		}
		width := PickW(r, []int{4, 2, 1}, int64(5), 300, 4000)
		d := g.down()
		for _, i := range g.perm(p.N)[:k] {
			x := it
			x.K, x.N, x.A, x.B = "crash", i+1, 1, 1
			x.At = at + r.R64(0, width)
			x.D = d + r.R64(0, 1500)
			g.add(x)
		}
		return
	case "stop", "stopat", "stopfs":
		it.K = "stop"
		it.D = g.down()
		it.C = int64(r.N(2))
		if r.P(25) {
			it.A, it.B = int64(r.R(1, 3)), int64(PickW(r, []int{2, 2, 1}, 0, r.R(1, 20), r.R(20, 2000)))
		}
		switch kind {
		case "stopat":
			it.Ev, it.N = g.trigger()
			it.Ct = PickW(r, []int{4, 3, 2}, 1, r.R(1, 5), r.R(1, 30))
		case "stopfs":
			it.Ev = g.fsTrigger()
			it.N = PickW(r, []int{4, 2, 2, 2}, 0, r.R(1, p.N), -1, -2)
			it.Ct = PickW(r, []int{4, 3, 2}, 1, r.R(1, 6), r.R(1, 40))
		}
	case "part":
		it.K = "part"
		it.A = int64(PickW(r, []int{4, 1, 1, 2, 2}, 0, 1, 2, 3, 4))
		it.P = r.R(1, p.N)
		it.B = int64(r.N(1<<uint(p.N))) << 1
		it.D = int64(r.R(200, 12000))
		if r.P(15) {
			it.C = 1
		}
	case "partat":
		it.K = "part"
		it.A = int64(PickW(r, []int{4, 1, 1, 2}, 0, 1, 2, 4))
		it.B = int64(r.N(1<<uint(p.N))) << 1
		it.D = int64(r.R(200, 12000))
		it.Ev, it.N = g.trigger()
		it.Ct = r.R(1, 6)
	case "rst":
		it.K = "rst"
	case "rstat":
		it.K = "rst"
		it.Ev, it.N = g.trigger()
		it.Ct = r.R(1, 6)
	case "slow":
		it.K = "slow"
		it.A = int64(Pick(r, 20, 150, 600, 1600, 3000))
		it.D = int64(r.R(500, 10000))
	case "stall":
		it.K = "stall"
		it.D = int64(PickW(r, []int{3, 3, 2}, r.R(5, 200), r.R(200, 3000), r.R(3000, 15000)))
	case "stallat":
		it.K = "stall"
		it.D = int64(PickW(r, []int{3, 3, 2}, r.R(5, 200), r.R(200, 3000), r.R(3000, 15000)))
		it.Ev, it.N = g.trigger()
		it.Ct = r.R(1, 6)
	case "skew":
		it.K = "skew"
		it.A = int64(Pick(r, -1, 1)) * int64(Pick(r, 50, 1000, 10000, 3600000, 400000000))
	case "slowdisk":
		it.K = "slowdisk"
		it.A = int64(Pick(r, 1, 5, 30, 200, 1000))
		it.D = int64(r.R(500, 15000))
	case "ioerr":
		it.K = "ioerr"
		it.S = Pick(r, "open:tmp", "write:tmp", "sync:tmp", "rename:share", "rename:priv", ":tmp", "write:share", "write:priv", "open:share", "open:priv")
		if r.P(15) {
			it.S = Pick(r, "writeat:raft", "write:raft", "sync:raft", "open:raft", "rename:raft")
		}
		it.A = int64(Pick(r, 28, 5, 122, 30)) // ENOSPC EIO EDQUOT EROFS
		it.B = int64(r.N(2))
		it.C = int64(r.N(2))
		it.Ct = r.R(1, 4)
		it.N = r.R(1, p.N)
	case "corrupt":
		it.K = "corrupt"
		it.Ev = Pick(r, "rpc:GetEph:resp:out-pre", "rpc:SetEph:resp:out-pre", "rpc:SetEph:resp:out-pre", "rpc:SetEph:req:out-pre", "rpc:SignBlock:resp:out-pre")
		it.N = Pick(r, 0, 0, -1, r.R(1, p.N))
		it.A = int64(r.N(10))
		if r.P(10) {
			it.A = 10
		}
		it.Ct = r.R(1, 5)
	case "sentrydown":
		it.K = "sentrydown"
		it.P = r.R(1, len(p.Sentry))
		it.D = int64(r.R(100, 8000))
	case "badhs":
		it.K = "badhs"
		it.P = r.R(1, len(p.Sentry))
		it.D = int64(r.R(100, 12000))
		it.A = int64(r.N(7))
	case "longdown":
		// a sentry is away for minutes
		it.K = "sentrydown"
		it.P = r.R(1, len(p.Sentry))
		it.At = r.R64(200, 6000)
		it.D = int64(r.R(40000, 300000))
		p.Horizon = max(p.Horizon, it.At+it.D+1000)
	case "mark":
		// an operator raises a stopped cosigner's state by hand
		it.K = "mark"
		it.N = r.R(1, p.N)
		it.A, it.B, it.C = g.heightAt(at)+int64(r.N(3)), int64(PickW(r, []int{4, 2, 1}, 0, 1, 2)), int64(r.N(4))
		it.P = PickW(r, []int{4, 1, 1}, 0, 1, 2)
		it.D = g.down()
	case "sclose":
		l := g.links()[r.N(len(g.links()))]
		it.K, it.P, it.N = "sclose", l.s, l.n
	case "elect":
		it.K = "elect"
		it.N = Pick(r, 0, 0, r.R(1, p.N))
		it.S = Pick(r, "", fmt.Sprint(r.R(1, p.N)), fmt.Sprint(r.R(1, p.N)), "77")
		it.A = int64(r.N(2))
		if it.N == 0 {
			it.A = 0
		}
	case "snapshot":
		it.K = "snapshot"
	case "steal":
		it.K, it.S = "rogue", "steal"
		it.N = 0
		it.B = int64(r.N(1<<uint(p.N))) << 1
		if r.P(60) {
			it.B = 0
		}
		it.Q = g.rogueReq()
		if r.P(40) {
			it.Ev, _ = g.trigger()
			it.Ct = r.R(1, 8)
		}
	case "replay", "remix":
		it.K, it.S = "rogue", kind
		it.N = Pick(r, 0, r.R(1, p.N))
		it.A = int64(r.N(4))
		it.B = int64(PickW(r, []int{4, 2, 1}, 0, r.N(4), r.N(30)))
		it.Q = g.rogueReq()
	case "forge":
		it.K, it.S = "rogue", "forge"
		it.N = 0
		it.A = int64(r.N(17))
		it.Q = g.rogueReq()
	case "empty":
		it.K, it.S = "rogue", "empty"
		it.N = 0
		it.A = int64(r.N(2))
		it.Q = g.rogueReq()
	case "block":
		it.K, it.S = "rogue", "block"
		it.Q = g.rogueReq()
	case "badgrpc":
		it.K, it.S = "rogue", "bad"
		it.A = int64(r.N(22))
		it.Q = g.rogueReq()
		if it.N == 0 {
			it.N = -1
		}
	case "badpriv":
		l := g.links()[r.N(len(g.links()))]
		it = Item{At: at, K: "req", N: l.n, P: l.s, Q: &Req{Kind: "bad", Raw: Pick(r, BadPrivvalKinds...), V: r.N(1000), H: g.heightAt(at) + int64(r.N(4))}}
	case "cutreq":
		l := g.links()[r.N(len(g.links()))]
		it = Item{At: at, K: "req", N: l.n, P: l.s, Q: &Req{Kind: Pick(r, "prevote", "precommit", "pubkey", "ping"), Raw: Pick(r, "cut", "slow", "gone"), V: 1, H: g.heightAt(at) + int64(r.N(3))}}
	}
	g.add(it)
}

// BadPrivvalKinds must match the harness.
var BadPrivvalKinds = []string{"embed", "seq", "votetype", "proptype", "nilvote", "nilprop", "nilreq", "badhash", "badpsh", "neg", "empty", "wrongway",
	"garbage", "huge", "trunc", "rawbytes", "bigstr", "notime", "farfuture", "baddate", "flip", "neghuge"}

// heightAt is about the height the traffic is at.
// base is where the chain's heights begin: in some runs beyond what 32 bits or a float can hold.
func (g *gen) base() int64 {
	switch g.p.Seed * 0x9e3779b97f4a7c15 >> 57 {
	case 0:
		return 1<<31 - 12
	case 1:
		return 1<<32 - 12
	case 2:
		return 1<<53 - 12
	case 3:
		return 1<<61 + 1
	case 4:
		return 1<<16 - 12
	}
	return 0
}

func (g *gen) heightAt(at int64) int64 {
	h := int64(3)
	for _, it := range g.p.Items {
		if it.K == "req" && it.Q != nil && it.At <= at && it.Q.H > h {
			h = it.Q.H
		}
	}
	return h
}

func (g *gen) rogueReq() *Req {
	r := g.r
	// near something the traffic asks for
	q := Req{Kind: Pick(r, "proposal", "prevote", "precommit"), H: g.h, V: r.R(1, 3)}
	var cand []*Req
	for _, it := range g.p.Items {
		if it.K == "req" && it.Q != nil && it.Q.H > 0 && it.Q.Kind != "bad" {
			cand = append(cand, it.Q)
		}
	}
	if len(cand) > 0 && r.P(85) {
		c := cand[r.N(len(cand))]
		q.H, q.R = c.H, c.R
		if r.P(70) {
			q.Kind = c.Kind
		}
		if stepOK(q.Kind) && r.P(30) {
			q.V = c.V
		}
		switch r.N(6) {
		case 0:
			q.H++
		case 1:
			if q.H > 1 {
				q.H--
			}
		case 2:
			q.R++
		}
		q.Ts = c.Ts
		if r.P(40) {
			q.Ts += int64(r.R(1, 50))
		}
	}
	if !stepOK(q.Kind) {
		q.Kind = "precommit"
	}
	if q.Kind == "proposal" {
		q.Pol = -1
	}
	return &q
}

func stepOK(k string) bool { return k == "proposal" || k == "prevote" || k == "precommit" }

var wire = []string{"part", "partat", "rst", "rstat", "slow"}
var procs = []string{"crash", "crashat", "power", "powerat", "stop", "stall", "stallat", "blackout"}
var disk = []string{"slowdisk", "ioerr", "crashfs", "powerfs"}

func cat(xs ...[]string) []string {
	var o []string
	for _, x := range xs {
		o = append(o, x...)
	}
	return o
}

// swarm keeps a random subset of the kinds.
func (g *gen) swarm(kinds []string) []string {
	var o []string
	for _, k := range kinds {
		if g.r.P(45) {
			o = append(o, k)
		}
	}
	if len(o) == 0 {
		o = append(o, Pick(g.r, kinds...))
	}
	return o
}

func (g *gen) cluster() {
	r, p := g.r, g.p
	g.topology()
	dur := int64(r.R(6000, 22000))
	end := warm + dur
	p.Horizon = end + 1500
	if r.P(15) && p.Prop != "C06" {
		// somebody starts late
		p.Opt[fmt.Sprintf("late%d", r.R(1, p.N))] = int64(r.R(100, 9000))
	}
	switch p.Prop {
	case "C01", "C02", "C03", "C04", "C08", "C20":
		if r.P(15) {
			// states raised by hand before the first start
			g.h = int64(r.R(2, 20)) + g.base()
			p.Opt["markH"], p.Opt["markR"], p.Opt["markS"] = g.h+int64(r.N(4)), int64(PickW(r, []int{4, 2, 1}, 0, 1, 2)), int64(r.N(4))
			p.Opt["markM"] = int64(1<<uint(p.N)-1) << 1
			if r.P(40) {
				p.Opt["markM"] = int64(r.N(1<<uint(p.N))) << 1
			}
		}
	}
	switch p.Prop {
	case "C01", "C07", "C11", "C14", "C17":
		if r.P(15) {
			g.compact()
		}
	}
	all := cat(wire, procs, disk, []string{"skew", "elect", "corrupt", "sentrydown", "badhs", "sclose", "snapshot"})
	nf := r.R(1, 7)
	switch p.Prop {
	case "C01":
		g.traffic(warm, end, 30, 25, 15, 40)
		if r.P(60) {
			g.turn(r.R(1, 3), warm, end)
		}
		g.faults(nf, 1500, end, g.swarm(cat(all, []string{"steal", "block", "elect", "stallat", "partat"}))...)
		if r.P(25) {
			g.faults(r.R(1, 3), warm, end, "steal", "block", "remix")
		}
		if r.P(40) {
			g.race(r.R(1, 4), warm, end)
		}
		p.Final = "sign"
	case "C02":
		g.traffic(warm, end, 25, 20, 15, 40)
		if r.P(35) {
			g.turn(r.R(1, 2), warm, end)
		}
		g.faults(r.R(2, 8), warm, end, g.swarm([]string{"steal", "steal", "steal", "replay", "remix", "block"})...)
		g.faults(r.R(0, 4), 1500, end, g.swarm(all)...)
		if r.P(50) {
			for k := r.R(1, 3); k > 0; k-- {
				g.duel(warm, end)
			}
		}
		if r.P(25) {
			g.race(r.R(1, 3), warm, end)
		}
		if r.P(15) {
			g.faults(r.R(1, 2), warm, end, "mark")
		}
	case "C03":
		g.traffic(warm, end, 15, 15, 5, 30)
		g.faults(nf, warm-500, end, g.swarm(cat(disk, []string{"slowdisk", "ioerr", "ioerr", "crashfs", "stall", "elect", "crash", "blackout"}))...)
		if r.P(30) {
			g.faults(2, warm, end, "steal", "replay")
		}
	case "C04":
		g.traffic(warm, end, 10, 10, 5, 30)
		g.faults(r.R(2, 8), 500, end, g.swarm(cat(disk, []string{"crashfs", "powerfs", "powerfs", "power", "crash", "stop", "ioerr", "ioerr", "slowdisk", "steal", "blackout"}))...)
		p.Final = "sign"
	case "C05":
		g.traffic(warm, end, 12, 40, 25, 45)
		if r.P(30) {
			g.turn(r.R(1, 2), warm, end)
		}
		if r.P(40) {
			g.race(r.R(1, 3), warm, end)
		}
		g.faults(nf+2, warm-500, end, g.swarm(cat([]string{"corrupt", "corrupt", "corrupt", "elect", "crashat", "stallat", "partat", "rstat", "slow", "ioerr"}, wire))...)
	case "C06":
		g.c06()
	case "C07":
		g.traffic(warm, end, 15, 10, 10, 30)
		g.faults(r.R(2, 10), 500, end, g.swarm(cat(all, procs, wire, []string{"elect", "steal"}))...)
		// leave the smallest set that must work
		if r.P(50) {
			q := p.N/2 + 1
			if p.T > q {
				q = p.T
			}
			for _, i := range g.perm(p.N)[:p.N-q] {
				if r.P(70) {
					p.Down = append(p.Down, i+1)
				}
			}
		}
		if r.P(6) {
			g.faults(1, 500, end, "longdown")
		}
		p.Final = "C07"
	case "C08":
		g.traffic(warm, end, 5, 8, 8, 30)
		if r.P(50) {
			g.faults(r.R(1, 4), 1500, end, g.swarm(all)...)
		}
		p.Final = "C08"
	case "C09":
		g.traffic(warm, end, 25, 45, 10, 30)
		if r.P(30) {
			g.turn(r.R(1, 2), warm, end)
		}
		if r.P(30) {
			g.race(r.R(1, 3), warm, end)
		}
		g.faults(nf+1, warm-500, end, g.swarm(cat(wire, []string{"crashat", "stallat", "corrupt", "elect", "slow", "rstat", "partat", "ioerr", "replay"}))...)
	case "C10":
		g.traffic(warm, end, 10, 10, 5, 30)
		g.faults(r.R(4, 12), warm, end, g.swarm([]string{"forge", "forge", "forge", "empty", "replay", "corrupt", "remix"})...)
		g.faults(r.R(0, 3), warm, end, g.swarm(all)...)
	case "C11":
		g.traffic(warm, end, 15, 60, 10, 30)
		if r.P(25) {
			g.turn(r.R(1, 2), warm, end)
		}
		if r.P(25) {
			g.race(r.R(1, 3), warm, end)
		}
		g.faults(r.R(0, 4), warm-500, end, g.swarm(cat(wire, []string{"elect", "stall", "crash", "stop", "slow", "sclose", "sentrydown"}))...)
		p.Final = "C11"
	case "C12":
		g.traffic(warm, end, 10, 15, 10, 30)
		g.pings(r.R(5, 20), 1000, end)
		g.faults(r.R(3, 10), warm-1000, end, g.swarm([]string{"sentrydown", "badhs", "badhs", "sclose", "cutreq", "cutreq", "badpriv", "crash", "stop", "part"})...)
		if r.P(6) {
			g.faults(1, 500, end, "longdown")
		}
		p.Final = "C12"
	case "C14":
		g.traffic(warm, end, 15, 10, 5, 30)
		g.faults(r.R(2, 6), warm, end, "elect")
		g.faults(r.R(0, 3), warm, end, g.swarm(all)...)
		if r.P(25) && p.N > 2 {
			q := p.N/2 + 1
			if p.T > q {
				q = p.T
			}
			if p.N > q {
				p.Down = []int{r.R(1, p.N)}
			}
		}
		p.Final = "C14"
	case "C17":
		g.traffic(warm, end, 10, 10, 10, 20)
		g.faults(r.R(6, 16), 1500, end, g.swarm([]string{"badpriv", "badpriv", "badpriv", "badgrpc", "badgrpc", "badgrpc", "cutreq", "badhs"})...)
		if r.P(30) {
			g.faults(r.R(1, 4), 500, end, g.swarm(cat(wire, []string{"crash", "crashat", "elect", "stall", "stop", "snapshot"}))...)
		}
		if r.P(15) {
			g.faults(r.R(1, 3), 0, 1500, "badgrpc")
		}
		p.Final = "C07"
	case "C20":
		g.traffic(warm, end, 15, 15, 15, 30)
		for _, i := range g.perm(p.N)[:PickW(r, []int{6, 2}, 1, 2)] {
			g.add(Item{At: r.R64(1000, end-2000), K: "damage", N: i + 1, A: int64(r.N(8)), B: int64(r.N(2)), D: int64(r.R(50, 4000))})
		}
		g.faults(r.R(0, 5), 500, end, g.swarm(cat(all, []string{"steal", "steal", "replay", "stop", "crash"}))...)
	case "C22":
		// not every share has its cosigner: share IDs with gaps
		p.N = r.R(2, 6)
		k := r.R(2, p.N)
		if p.N > 2 && r.P(85) {
			k = r.R(2, p.N-1)
		}
		ids := r.Perm(p.N)[:k]
		p.T = r.R(1, k)
		if r.P(70) {
			p.T = max(2, k/2+1)
		}
		sub := int64(0)
		for _, i := range ids {
			sub |= 1 << uint(i+1)
		}
		p.Opt["sub"] = sub
		p.Sentry = nil
		for s := r.R(1, 3); s > 0; s-- {
			var on []int
			for _, i := range ids {
				if r.P(60) {
					on = append(on, i+1)
				}
			}
			if len(on) == 0 {
				on = []int{ids[0] + 1}
			}
			sort.Ints(on)
			p.Sentry = append(p.Sentry, on)
		}
		end = warm + int64(r.R(1000, 5000))
		p.Horizon = end + 500
		g.traffic(warm, end, 10, 10, 10, 30)
		if r.P(50) {
			g.faults(r.R(1, 4), warm, end, g.swarm(cat(wire, []string{"crash", "stop", "elect", "stall", "skew"}))...)
		}
		p.Final = "C22"
	case "C23":
		g.traffic(warm, end, 15, 15, 10, 30)
		g.faults(r.R(2, 8), 500, end, g.swarm([]string{"stop", "stop", "stopat", "stopat", "stopfs"})...)
		g.faults(r.R(0, 5), 500, end, g.swarm(cat(wire, []string{"crash", "stall", "stallat", "skew", "elect", "elect", "sentrydown", "badhs", "sclose", "snapshot", "cutreq", "badpriv"}))...)
		if r.P(10) {
			g.faults(1, 500, end, "longdown")
		}
		p.Final = "C23"
	case "C24":
		g.wear(end)
	case "C25":
		p.LatMax = min(p.LatMax, 8000)
		p.LatMin = min(p.LatMin, p.LatMax)
		p.SpikePm, p.SpikeMs = 0, 0
		g.traffic(warm, end, 15, 10, 10, 40)
		if r.P(60) {
			g.faults(r.R(1, 5), 1500, end, g.swarm(all)...)
		}
		if p.N > p.T && p.N > p.N/2+1 && r.P(35) {
			q := max(p.T, p.N/2+1)
			if p.N > q {
				p.Down = g.perm(p.N)[:1]
				p.Down[0]++
			}
		}
		p.Final = "C25"
	case "C21":
		p.Opt["shard"] = 1
		p.Opt["shExtra"] = int64(r.R(0, 3))
		p.Opt["shBad"] = int64(r.R(0, 2))
		nf := r.R(0, 3)
		p.Opt["shFaults"] = int64(nf)
		for i := 0; i < nf; i++ {
			k := fmt.Sprint(i)
			p.Opt["shK"+k] = int64(PickW(r, []int{2, 2, 5}, 1, 2, 3))
			p.Opt["shC"+k] = int64(r.R(1, 8*p.N))
			if p.Opt["shK"+k] == 3 {
				p.Opt["shC"+k] = int64(r.R(0, 2*p.N-1))
			}
			p.Opt["shE"+k] = Pick[int64](r, 5, 28, 30, 122)
			p.Opt["shS"+k] = int64(r.N(2))
			if r.P(30) {
				p.Opt["shN"+k] = int64(r.R(2, 7))
				p.Opt["shT"+k] = int64(r.R(1, int(p.Opt["shN"+k])))
			}
			p.Opt["shRm"+k] = int64(r.N(2))
		}
		end = warm + int64(r.R(1000, 5000))
		p.Horizon = end + 500
		g.traffic(warm, end, 10, 10, 10, 30)
		if r.P(40) {
			g.faults(r.R(1, 3), warm, end, g.swarm(all)...)
		}
		p.Final = "C21"
	case "C19":
		g.traffic(warm, end, 15, 15, 10, 30)
		if r.P(50) {
			g.faults(r.R(1, 4), warm, end, "remix", "replay")
		}
		g.faults(r.R(1, 8), 1500, end, g.swarm(cat(all, []string{"steal", "forge", "badgrpc", "badpriv", "corrupt", "ioerr", "replay"}))...)
	}
}

// duel: two or more requesters race for the same block position on the same cosigners.
func (g *gen) duel(from, to int64) {
	r := g.r
	at := r.R64(from, to)
	q := g.rogueReq()
	q.H = g.heightAt(to) + int64(r.R(0, 3))
	n := r.R(2, 4)
	for i := 0; i < n; i++ {
		q2 := *q
		q2.V = i + 1
		if r.P(30) {
			q2.Ts += int64(i)
		}
		if r.P(15) && q2.H > 1 {
			q2.H--
		}
		g.add(Item{At: at + int64(r.N(8)), K: "rogue", S: "steal", Q: &q2})
	}
	if r.P(70) {
		// they find the cosigners stalled, for the parts and for the signatures,
		// so that the calls pile up
		d := int64(r.R(10, 40))
		e := at + d + int64(r.R(0, 8))
		for i := 1; i <= g.p.N; i++ {
			if r.P(80) {
				g.add(Item{At: at, K: "stall", N: i, D: d})
			}
			if r.P(80) {
				g.add(Item{At: e, K: "stall", N: i, D: int64(r.R(10, 30))})
			}
		}
	}
}

// race: requests for the same block position that a stalled node finds all at
// once when it goes on, so that they really overlap inside it.
func (g *gen) race(k int, from, to int64) {
	r := g.r
	ls := g.links()
	for ; k > 0; k-- {
		at := r.R64(from, to)
		d := int64(r.R(20, 140))
		n := PickW(r, []int{5, 2}, -1, r.R(1, g.p.N))
		if g.p.Mode == "single" {
			n = 1
		}
		g.add(Item{At: at, K: "stall", N: n, D: d})
		q := Req{Kind: Pick(r, "proposal", "prevote", "precommit"), H: g.heightAt(at) + int64(PickW(r, []int{3, 5, 1}, 0, 1, 2)), R: int64(PickW(r, []int{6, 2, 1}, 0, 1, 2)), V: 1, Pol: 0}
		if q.Kind == "proposal" {
			q.Pol = -1
		}
		rounds := r.R(1, 4)
		perm := g.perm(len(ls))
		for i, l := range perm {
			if i > 0 && i >= rounds+1 {
				break
			}
			q2 := q
			q2.V = 1 + i
			if r.P(25) {
				q2.V = 1
				q2.Ts = int64(i * r.N(30))
				if q2.Kind == "proposal" && r.P(50) {
					q2.Pol++
				}
			} else if r.P(10) {
				q2.V = 0
			}
			if r.P(10) {
				q2.R++
			}
			g.req(at+int64(r.N(int(d))), ls[l], q2)
		}
	}
}

// turn: a block position is signed, another cosigner becomes leader, and a
// variant of the block is asked for at the same position.
func (g *gen) turn(k int, from, to int64) {
	r, p := g.r, g.p
	ls := g.links()
	for ; k > 0; k-- {
		at := r.R64(from, to)
		q := Req{Kind: Pick(r, "proposal", "proposal", "prevote", "precommit"), H: g.heightAt(at) + int64(PickW(r, []int{3, 1}, 1, 2)), R: int64(PickW(r, []int{4, 2, 1}, 0, 1, 2)), V: 1}
		if q.Kind == "proposal" {
			q.Pol = int64(r.N(int(q.R)+1)) - 1
		}
		g.req(at, ls[r.N(len(ls))], q)
		t := at + int64(r.R(100, 700))
		switch r.N(4) {
		case 0, 1:
			g.add(Item{At: t, K: "elect", S: Pick(r, "", "", fmt.Sprint(r.R(1, p.N)))})
			t += int64(r.R(100, 600))
		case 2:
			g.add(Item{At: t, K: "stall", N: -1, D: int64(r.R(1500, 5000))})
			t += int64(r.R(1500, 5500))
		default:
			g.add(Item{At: t, K: "crash", N: -1, D: int64(r.R(1, 5000)), A: int64(r.N(2))})
			t += int64(r.R(1500, 5500))
		}
		for n := r.R(1, 2); n > 0; n-- {
			q2 := q
			switch r.N(5) {
			case 0:
				q2.V = Pick(r, 0, 2, 11, 21, 101, 111)
			case 1:
				q2.Ts = int64(r.R(1, 900))
			case 2:
				q2.R++
			default:
				if q.Kind == "proposal" {
					q2.Pol = q.Pol + int64(Pick(r, 1, 1, 2, -1))
					if r.P(50) {
						q2.Ts = int64(r.R(1, 900))
					}
				} else {
					q2.V = Pick(r, 0, 2, 11, 21, 101, 111)
					q2.Ts = int64(r.N(900))
				}
			}
			g.req(t+int64(r.N(300)), ls[r.N(len(ls))], q2)
		}
	}
}

func (g *gen) pings(k int, from, to int64) {
	ls := g.links()
	for i := 0; i < k; i++ {
		g.req(g.r.R64(from, to), ls[g.r.N(len(ls))], Req{Kind: Pick(g.r, "ping", "pubkey")})
	}
}

// c06: fewer than a threshold take part for a while.
func (g *gen) c06() {
	r, p := g.r, g.p
	g.traffic(warm, warm+3000, 5, 5, 5, 20)
	a := int64(warm + 3000 + 4500)
	b := a + int64(r.R(6000, 20000))
	if r.P(35) {
		b = a + int64(r.R(25000, 45000))
	}
	keep := r.R(1, p.T-1)
	perm := g.perm(p.N)
	up := map[int]bool{}
	for _, i := range perm[:keep] {
		up[i+1] = true
	}
	how := r.N(6)
	for i := 1; i <= p.N; i++ {
		if up[i] {
			continue
		}
		t := a - 4000 + int64(r.N(1500))
		d := b - t + 3000
		k := how
		if how == 5 {
			k = r.N(5)
		}
		switch k {
		case 0:
			g.add(Item{At: t, K: "crash", N: i, D: d})
		case 1:
			g.add(Item{At: t, K: "crash", N: i, D: d, A: 1, B: 1})
		case 2:
			g.add(Item{At: t, K: "stall", N: i, D: d})
		case 3:
			g.add(Item{At: t, K: "stop", N: i, D: d})
		case 4:
			g.add(Item{At: t, K: "part", N: i, A: 0, D: d})
			// a partitioned group must not be large enough by itself
			mask := int64(0)
			for j := range up {
				mask |= 1 << uint(j)
			}
			if p.N-keep >= p.T {
				continue
			}
		}
	}
	p.Opt["c06from"], p.Opt["c06to"] = a, b
	for j := range up {
		p.Opt[fmt.Sprintf("up%d", j)] = 1
	}
	// far above every earlier request: none of these may be signed already
	h := g.h + 5
	for _, it := range p.Items {
		if it.Q != nil && it.Q.H >= h-5 {
			h = it.Q.H + 10
		}
		if it.K == "bad" || it.K == "rogue" {
			h = max(h, it.A+10)
		}
	}
	var ls []lk
	for _, l := range g.links() {
		if up[l.n] {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		for j := 1; j <= p.N; j++ {
			if up[j] {
				p.Sentry[0] = append(p.Sentry[0], j)
				sort.Ints(p.Sentry[0])
				ls = append(ls, lk{1, j})
				break
			}
		}
	}
	p.Opt["c06h"] = h
	for t := a; t < b; t += int64(r.R(300, 4000)) {
		k := Pick(r, "prevote", "precommit", "proposal")
		for _, i := range g.perm(len(ls))[:r.R(1, len(ls))] {
			q := Req{Kind: k, H: h, V: 1, TO: 60000}
			if k == "proposal" {
				q.Pol = -1
			}
			g.req(t+int64(r.N(50)), ls[i], q)
		}
		h++
	}
	p.Horizon = b + 2000
}
