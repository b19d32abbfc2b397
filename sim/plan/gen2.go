//go:build go1.22

package plan

import "fmt"

// single-signer runs.
func (g *gen) single() {
	r, p := g.r, g.p
	p.Mode = "single"
	p.N, p.T = 1, 1
	ns := r.R(1, 3)
	for i := 0; i < ns; i++ {
		p.Sentry = append(p.Sentry, []int{1})
	}
	from, dur := int64(500), int64(r.R(4000, 16000))
	end := from + dur
	p.Horizon = end + 1500
	kinds := cat([]string{"crash", "crashat", "crashfs", "powerfs", "power", "stop", "stop", "ioerr", "slowdisk", "sentrydown", "badhs", "sclose", "cutreq", "stall", "skew", "part"})
	switch p.Prop {
	case "C15":
		g.traffic(from, end, 30, 30, 30, 40)
		g.faults(r.R(1, 7), from, end, g.swarm(kinds)...)
		if r.P(50) {
			g.faults(1, from, end, "stop")
		}
		if r.P(60) {
			g.race(r.R(1, 5), from, end)
		}
	case "C03", "C04":
		g.traffic(from, end, 10, 15, 5, 30)
		g.faults(r.R(1, 7), from, end, g.swarm([]string{"crashfs", "powerfs", "powerfs", "power", "ioerr", "ioerr", "slowdisk", "stop", "crash"})...)
	case "C05":
		g.traffic(from, end, 15, 50, 25, 60)
		if r.P(40) {
			g.race(r.R(1, 4), from, end)
		}
		g.faults(r.R(0, 4), from, end, g.swarm(kinds)...)
	case "C12":
		g.traffic(from, end, 10, 15, 10, 30)
		g.pings(r.R(5, 20), from, end)
		g.faults(r.R(3, 10), from, end, g.swarm([]string{"sentrydown", "badhs", "badhs", "sclose", "cutreq", "cutreq", "badpriv", "crash", "stop"})...)
		if r.P(20) {
			g.faults(1, from, end, "longdown")
		}
		p.Final = "C12"
	case "C23":
		g.traffic(from, end, 10, 10, 10, 30)
		g.faults(r.R(2, 8), from, end, g.swarm([]string{"stop", "stop", "stopat", "stopfs"})...)
		g.faults(r.R(0, 5), from, end, g.swarm([]string{"sentrydown", "badhs", "sclose", "cutreq", "badpriv", "crash", "stall", "skew", "part"})...)
		p.Final = "C23"
	case "C24":
		g.wear(end)
	case "C25":
		p.LatMax = min(p.LatMax, 8000)
		p.LatMin = min(p.LatMin, p.LatMax)
		p.SpikePm, p.SpikeMs = 0, 0
		g.traffic(from, end, 15, 20, 10, 40)
		g.faults(r.R(0, 5), from, end, g.swarm(kinds)...)
		p.Final = "C25"
	case "C17":
		g.traffic(from, end, 10, 10, 10, 20)
		g.faults(r.R(6, 16), from, end, g.swarm([]string{"badpriv", "badpriv", "badpriv", "cutreq", "badhs"})...)
		p.Final = "C07"
	}
	for i := range p.Items {
		if it := &p.Items[i]; it.K != "req" && it.K != "sentrydown" && it.K != "badhs" {
			it.N = 1
			if it.K == "crash" && it.Ev != "" && it.Ev[:3] == "rpc" {
				it.Ev = Pick(r, "fs:priv", "fs:tmp", "fs:rename:priv:pre", "fs:rename:priv:post", "fs:sync:tmp:pre", "fs:write:tmp:post")
			}
		}
	}
}

// wear repeats the same disturbances many times over (C24).
func (g *gen) wear(end int64) {
	r, p := g.r, g.p
	p.Final = "C24"
	single := p.Mode == "single"
	from := int64(warm)
	kinds := []string{"load", "flap", "bad", "refused", "disk"}
	if single {
		from = 500
	} else {
		kinds = append(kinds, "starve", "starve", "refuse", "refuse", "elect", "peer", "rst", "hang")
	}
	for k := PickW(r, []int{5, 3}, 1, 2); k > 0; k-- {
		kind := Pick(r, kinds...)
		end = from + r.R64(20000, 60000)
		many := r.R(40, 80)
		every := func(f func(at int64)) {
			for i := 0; i < many; i++ {
				f(r.R64(from, end))
			}
		}
		ask := func(ms int64) {
			for at := from; at < end; at += ms {
				g.h++
				for _, l := range g.links() {
					if r.P(85) {
						g.req(at+r.R64(0, ms/2), l, Req{Kind: Pick(r, "prevote", "precommit", "proposal"), H: g.h, V: 1, TO: 12000, Pol: -1})
					}
				}
			}
		}
		switch kind {
		case "load":
			ask(int64(r.R(300, 1000)))
		case "flap":
			every(func(at int64) {
				g.fault(PickW(r, []int{4, 1, 2, 3}, "sclose", "sentrydown", "badhs", "cutreq"), at)
				if it := &p.Items[len(p.Items)-1]; it.D > 1500 {
					it.D = int64(r.R(100, 1500))
				}
			})
			g.traffic(from, end, 10, 10, 10, 30)
		case "bad":
			every(func(at int64) {
				if single || r.P(50) {
					g.fault("badpriv", at)
				} else {
					g.fault(Pick(r, "badgrpc", "badgrpc", "forge", "empty"), at)
				}
			})
			g.traffic(from, end, 10, 10, 10, 30)
		case "disk":
			every(func(at int64) {
				g.fault(PickW(r, []int{4, 1}, "ioerr", "slowdisk"), at)
				p.Items[len(p.Items)-1].C = 0
			})
			ask(int64(r.R(500, 2000)))
		case "refused":
			// far below the state: asked again and again
			g.h += 50
			for _, l := range g.links() {
				g.req(from, l, Req{Kind: "precommit", H: g.h, V: 1})
				for i := 0; i < many; i++ {
					g.req(from+1500+r.R64(0, end-from), l, Req{Kind: Pick(r, "prevote", "precommit"), H: g.h - int64(r.N(9)), V: r.R(1, 3)})
				}
			}
		case "starve":
			// too few cosigners answer
			if len(p.Items) > 0 {
				continue
			}
			p.N = Pick(r, 3, 3, 4, 5, 5)
			p.T = p.N
			if p.N == 5 && r.P(50) {
				p.T = 4
			}
			out := p.N - p.T + 1
			if r.P(20) { // no leader either
				p.T = p.N/2 + 1
				out = r.R(p.N/2+1, p.N-1)
			}
			p.Sentry = nil
			for s := r.R(2, 3); s > 0; s-- {
				on := g.perm(p.N)[:r.R(2, p.N)]
				for i := range on {
					on[i]++
				}
				p.Sentry = append(p.Sentry, on)
			}
			for i := 0; i < out; i++ {
				k, d := i+1, end-from
				switch r.N(3) {
				case 0:
					g.add(Item{At: from, K: "crash", N: k, D: d})
				case 1:
					g.add(Item{At: from, K: "stall", N: k, D: d})
				case 2:
					for at := from; at < end; at += 1000 {
						g.add(Item{At: at, K: "crash", N: k, D: int64(r.R(300, 900))})
					}
				}
			}
			ask(int64(r.R(1000, 4000)))
		case "refuse":
			// the cosigners deal parts and then refuse to sign
			at := from
			for i := 1; i <= p.N; i++ {
				if i < p.N || r.P(70) {
					g.add(Item{At: at, K: "mark", N: i, P: 1, A: 50000, B: 0, C: 3, D: 200})
				}
			}
			from += 6000
			end += 6000
			ask(int64(r.R(700, 2500)))
		case "elect":
			every(func(at int64) { g.fault("elect", at) })
			g.traffic(from, end, 10, 10, 10, 30)
		case "peer":
			k := r.R(1, p.N)
			for at := from; at < end; at += int64(r.R(1500, 4000)) {
				g.add(Item{At: at, K: Pick(r, "crash", "stop"), N: k, D: int64(r.R(100, 2000))})
			}
			ask(int64(r.R(500, 2000)))
		case "hang":
			k := r.R(1, p.N)
			for at := from; at < end; at += int64(r.R(2500, 9000)) {
				g.add(Item{At: at, K: Pick(r, "stall", "part"), N: k, D: int64(r.R(500, 6000))})
			}
			ask(int64(r.R(500, 2000)))
		case "rst":
			every(func(at int64) { g.fault("rst", at) })
			ask(int64(r.R(500, 2000)))
		}
		from = end + 1000
	}
	p.Horizon = end + 1500
}

// kv: the replicated store.
func (g *gen) kv() {
	r, p := g.r, g.p
	p.Mode = "kv"
	p.N = Pick(r, 3, 3, 3, 5, 2, 4)
	p.T = p.N/2 + 1
	p.Sentry = nil
	end := int64(warm + r.R(6000, 20000))
	p.Horizon = end + 1000
	keys := r.R(1, 4)
	n := r.R(10, 60)
	for i := 0; i < n; i++ {
		it := Item{At: r.R64(warm-500, end), K: PickW(r, []int{6, 2, 3}, "kvset", "kvdel", "kvget"), N: PickW(r, []int{6, 2, 1}, -1, r.R(1, p.N), -2),
			S: fmt.Sprintf("k%d", r.N(keys))}
		if it.K == "kvset" && r.P(15) {
			it.B = int64(r.R(2, 6))
		}
		if it.N == -2 {
			it.N = r.R(1, p.N)
		}
		g.add(it)
	}
	for i := 0; i < 8; i++ {
		g.add(Item{At: r.R64(warm, end), K: "kvget", N: r.R(1, p.N)})
	}
	g.faults(r.R(0, 4), warm, end, "snapshot")
	if r.P(60) {
		g.compact()
		// a node that falls behind while the others go on and compact their logs
		for k := r.R(0, 2); k > 0; k-- {
			at, d := r.R64(warm, end), int64(r.R(3500, 9000))
			n := PickW(r, []int{2, 3}, -1, r.R(1, p.N))
			if r.P(50) {
				g.add(Item{At: at, K: "stall", N: n, D: d})
			} else {
				g.add(Item{At: at, K: "part", N: n, D: d})
			}
			for j := r.R(10, 30); j > 0; j-- {
				it := Item{At: at + r.R64(0, d), K: PickW(r, []int{5, 3}, "kvset", "kvdel"), N: -1, S: fmt.Sprintf("k%d", r.N(keys))}
				if it.K == "kvset" && r.P(80) {
					it.B = int64(r.R(4, 12))
				}
				g.add(it)
			}
			for j := r.R(1, 4); j > 0; j-- {
				g.add(Item{At: at + r.R64(d/2, d), K: "snapshot", N: PickW(r, []int{1, 1}, -1, r.R(1, p.N))})
			}
		}
	}
	all := cat(wire, []string{"crash", "crashat", "power", "powerat", "powerfs", "blackout", "stop", "stall", "stallat", "crashfs", "skew", "elect", "slowdisk"})
	g.faults(r.R(1, 9), 500, end, g.swarm(all)...)
	if r.P(20) {
		g.faults(r.R(1, 2), warm, end, "ioerr")
	}
	for i := range p.Items {
		it := &p.Items[i]
		if it.K == "ioerr" {
			it.S = Pick(r, "writeat:raft", "write:raft", "sync:raft", "open:raft", "rename:raft")
		}
		if it.Ev != "" && len(it.Ev) > 4 && it.Ev[:4] == "rpc:" {
			it.Ev = "rpc:" + Pick(r, "App", "App", "RequestVote") + ":" + Pick(r, rpcPh...)
			it.Ct = r.R(1, 60)
		} else if it.Ev != "" {
			it.Ev = "fs:" + Pick(r, "writeat:raft", "write:raft", "sync:raft", "rename:raft") + ":" + Pick(r, "pre", "post")
			it.Ct = r.R(1, 60)
		}
	}
}

// compact brings raft's snapshots and log truncation within reach of a run.
func (g *gen) compact() {
	r, p := g.r, g.p
	// never shorter than what an isolated leader can append without a commit:
	// hashicorp/raft v1.3.3 cannot bring such a node up to date again
	p.Opt["trail"] = int64(PickW(r, []int{3, 3}, r.R(16, 30), r.R(30, 60)))
	p.Opt["snapthr"] = int64(PickW(r, []int{3, 3, 2}, r.R(1, 6), r.R(7, 30), 8192))
	p.Opt["snapint"] = int64(PickW(r, []int{3, 3, 2}, r.R(100, 800), r.R(800, 5000), 120000))
}

// cli: command histories on one home directory.
func (g *gen) cli() {
	r, p := g.r, g.p
	p.Mode = "cli"
	p.N, p.T = 3, 2
	p.Sentry = nil
	p.Horizon = 1000
	if r.P(35) {
		p.Opt["home"] = int64(r.R(1, 2))
	}
	switch p.Prop {
	case "C16":
		g.cliState()
	case "C18":
		g.cliConfig()
	case "C22":
		g.cliRefuse()
	case "C20":
		g.cliInit(true, false)
		if r.P(80) {
			g.cliMark()
		}
		k := r.R(1, 3)
		for i := 0; i < k; i++ {
			switch r.N(6) {
			case 0, 1:
				g.add(Item{K: "start", D: int64(r.R(1, 4)), A: 3, Ev: "ropen:share", B: int64(Pick(r, 5, 13, 24, 23)), C: 2 * int64(r.N(2))})
			case 2, 3:
				g.add(Item{K: "damage", A: int64(r.N(8))})
			case 4:
				g.cmd(fmt.Sprintf("state set %d", g.height()), 20)
			case 5:
				g.add(Item{K: "start", D: int64(r.R(1, 3))})
			}
		}
		if r.P(85) {
			g.add(Item{K: "damage", A: int64(r.N(8))})
		}
		k = r.R(1, 5)
		for i := 0; i < k; i++ {
			switch r.N(8) {
			case 0, 1, 2, 3:
				g.add(Item{K: "start", D: int64(r.R(0, 4))})
			case 4:
				g.cmd(fmt.Sprintf("state set %d", g.height()), 25)
			case 5:
				g.cmd("config chain-id set "+Pick(r, chains...), 25)
			case 6:
				g.cmd("config nodes add "+g.someNodes(), 10)
			case 7:
				g.cmd("state show", 0)
			}
		}
		g.add(Item{K: "start", D: int64(r.R(0, 4))})
	}
}

var chains = []string{"sim-1", "sim-2", "alpha"}

// cmd adds a command, sometimes with a fault during it.
func (g *gen) cmd(s string, pct int) {
	r := g.r
	it := Item{K: "cmd", S: s}
	if r.P(pct) {
		switch r.N(9) {
		case 0, 1, 2:
			it.A, it.Ev, it.Ct = 1, "any", r.R(1, 20)
		case 3, 4, 5:
			it.A, it.Ev, it.Ct = 2, "any", r.R(1, 20)
		case 6:
			it.A = int64(r.R(1, 2))
			it.Ev = "fs:" + Pick(r, "write", "rename", "sync", "open", "remove") + ":" + Pick(r, "share", "priv", "tmp", "config", "other") + ":" + Pick(r, "pre", "post")
			it.Ct = r.R(1, 3)
		case 7, 8:
			it.A = 3
			it.Ev = Pick(r, "write:", "write:", "open:", "sync:", "rename:", "rename:config", "rename:share", "rename:priv", "remove:", "remove:share", "ropen:share", "ropen:priv", "ropen:config", "write:tmp", "sync:tmp")
			it.B = int64(Pick(r, 28, 5, 30, 27, 13))
			it.C = int64(r.N(3))
			it.Ct = PickW(r, []int{4, 2, 1}, 1, 2, 3)
		}
	}
	g.add(it)
}

// height near what was set or planted before.
func (g *gen) height() int64 {
	r := g.r
	switch r.N(8) {
	case 0:
		return g.h
	case 1:
		return r.R64(0, g.h+1)
	case 2:
		return Pick[int64](r, 0, 1, -1, 9007199254740993, 9223372036854775807)
	case 3:
		return max(0, g.h-r.R64(1, 3))
	}
	g.h += r.R64(1, 40)
	return g.h
}

func (g *gen) cliMark() {
	r := g.r
	if r.P(70) {
		g.h += r.R64(1, 30)
	}
	g.add(Item{K: "wm", A: g.h + 1, B: int64(r.N(3)), C: int64(r.N(3))})
}

const initCosigner = " -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3 -l tcp://10.0.0.1:2222 -t 2 --timeout 1500ms"

func (g *gen) cliInit(cos, odd bool) {
	r := g.r
	s := "config init " + PickW(r, []int{6, 1, 1}, chains...)
	ns := "tcp://10.0.1.1:1234"
	if r.P(50) {
		ns = g.someNodes()
	}
	if cos {
		if r.P(85) {
			s += " " + ns
		}
		x := initCosigner
		if odd && r.P(25) {
			x = Pick(r, " -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|2 -l tcp://10.0.0.1:2222 -t 2 --timeout 1500ms",
				" -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|4 -l tcp://10.0.0.1:2222 -t 2 --timeout 1500ms",
				" -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3 -l tcp://10.0.0.1:2222 -t 4 --timeout 1500ms",
				" -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3 -l tcp://0.0.0.0:2222 -t 2 --timeout 1500ms",
				" -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3 -l tcp://10.0.0.1:2222 -t 2 --timeout soon",
				" -c -p tcp://10.0.0.2:2222,tcp://10.0.0.3:2222|3 -l tcp://10.0.0.1:2222 -t 2 --timeout 1500ms",
				" -c -p tcp://10.0.0.2:2222|0 -l tcp://10.0.0.1:2222 -t 1 --timeout 1500ms",
				" -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3,tcp://10.0.0.4:2222|4 -l tcp://10.0.0.1:2222 -t 3",
				" -c -p tcp://10.0.0.2:2222|2,tcp://10.0.0.3:2222|3 -t 2")
		}
		s += x
	} else if !odd || r.P(90) {
		s += " " + ns
	}
	if odd && r.P(10) {
		s += " -k /k/priv_validator_key.json"
	}
	if odd && len(g.p.Items) > 0 && r.P(70) {
		s += " -o"
	}
	pct := 12
	if odd {
		pct = 40
	}
	g.cmd(s, pct)
}

func (g *gen) someNodes() string {
	r := g.r
	s, k := "", r.R(1, 3)
	from := r.N(5)
	for i := 0; i < k; i++ {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf("tcp://10.0.1.%d:1234", (from+i)%5+1)
		if r.P(12) {
			s = s[:len(s)-1] // another port, and a prefix of the usual address
		} else if r.P(8) {
			s += "5"
		}
	}
	return s
}

func (g *gen) somePeers() string {
	r := g.r
	s, k := "", r.R(1, 3)
	from := r.N(6)
	for i := 0; i < k; i++ {
		if i > 0 {
			s += ","
		}
		id := (from+i)%6 + 1
		if r.P(20) {
			id = r.R(7, 23)
		}
		s += fmt.Sprintf("tcp://10.0.0.%d:2222|%d", id, id)
	}
	return s
}

func (g *gen) cliState() {
	r := g.r
	cos := r.P(85)
	g.cliInit(cos, false)
	k := r.R(2, 8)
	for i := 0; i < k; i++ {
		switch r.N(13) {
		case 12: // while another signer process runs on this machine
			g.cmd(fmt.Sprintf("state set %d", g.height()), 0)
			g.p.Items[len(g.p.Items)-1].P = 1
		case 0, 1, 2:
			g.cliMark()
		case 3:
			g.add(Item{K: "start", D: int64(r.R(0, 3))})
		case 4:
			g.cmd("state set "+Pick(r, "abc", "12x", "99999999999999999999", "", "0x10", "1e3", "5 6"), 10)
		case 5:
			g.cmd("state show", 0)
		default:
			g.cmd(fmt.Sprintf("state set %d", g.height()), 60)
		}
	}
	g.cmd(fmt.Sprintf("state set %d", g.height()), 60)
	g.add(Item{K: "start", D: int64(r.R(1, 5))})
}

func (g *gen) cliConfig() {
	r := g.r
	cos := r.P(60)
	if r.P(15) {
		g.cmd(Pick(r, "config nodes add tcp://10.0.1.1:1234", "config chain-id set alpha", "config peers set-shares 3"), 0)
	}
	g.cliInit(cos, r.P(30))
	if r.P(70) {
		g.cliMark()
	}
	k := r.R(3, 10)
	for i := 0; i < k; i++ {
		pct := 45
		switch r.N(16) {
		case 0, 1:
			g.cmd("config nodes add "+g.someNodes(), pct)
		case 2, 3:
			g.cmd("config nodes remove "+g.someNodes(), pct)
		case 4, 5:
			g.cmd("config peers add "+g.somePeers(), pct)
		case 6:
			ids, k := "", r.R(1, 2)
			for j := 0; j < k; j++ {
				if j > 0 {
					ids += ","
				}
				if r.P(15) {
					ids += fmt.Sprint(r.R(7, 23))
				} else {
					ids += fmt.Sprint(r.R(1, 6))
				}
			}
			if r.P(25) {
				// share IDs of two digits
				g.cmd("config peers set-shares 24", 0)
				a, b := r.R(10, 23), r.R(10, 23)
				g.cmd(fmt.Sprintf("config peers add tcp://10.0.0.9:2222|%d,tcp://10.0.0.8:2222|%d", a, b), 0)
				ids = fmt.Sprint(Pick(r, a/10, a%10, b/10, a, b))
			}
			g.cmd("config peers remove "+ids, pct)
		case 7:
			g.cmd("config peers set-shares "+Pick(r, "1", "2", "3", "4", "5", "6", "7", "12", "24", "x", "-1"), pct)
		case 8, 9, 10:
			g.cmd("config chain-id set "+Pick(r, chains...), 60)
		case 11:
			g.cliInit(cos, true)
		case 12, 13:
			g.cliMark()
		case 14:
			g.add(Item{K: "start", D: int64(r.R(1, 3))})
		case 15:
			g.cmd("config peers "+Pick(r, "add tcp://10.0.0.7:2222", "remove x", "add tcp://10.0.0.9:2222|2", "add tcp://10.0.0.2:2222|2"), 10)
		}
	}
	g.add(Item{K: "start", D: int64(r.R(1, 3))})
}

// BadAddrs do not parse as URLs.
var BadAddrs = []string{"://10.0.1.1:1234", "tcp://10.0.1.2:port", "tcp://[10.0.1.3:1234", "%zz", "tcp://10.0.1.1:1234%", "tcp://10.0.1.4:12:34x", "1tcp://x:1:"}

// cliRefuse: configurations that cannot work, made by commands or by hand.
func (g *gen) cliRefuse() {
	r, p := g.r, g.p
	n := Pick(r, 2, 3, 3, 4, 5)
	t := r.R(1, n)
	own := r.R(1, n)
	p.Opt["kN"], p.Opt["kT"], p.Opt["own"] = int64(n), int64(t), int64(own)
	solo := r.P(20)
	if solo {
		p.Opt["solo"] = 1
	}
	peers := func() []string {
		var out []string
		for i := 1; i <= n; i++ {
			if i != own {
				out = append(out, fmt.Sprintf("tcp://10.0.3.%d:2222|%d", i, i))
			}
		}
		return out
	}
	insert := func(l []string, x string) []string {
		i := r.N(len(l) + 1)
		return append(l[:i:i], append([]string{x}, l[i:]...)...)
	}
	nodes := func(bad bool) string {
		var l []string
		for k, i := r.R(1, 3), r.N(5); k > 0; k-- {
			l = append(l, fmt.Sprintf("tcp://10.0.1.%d:1234", (i+k)%5+1))
		}
		if bad {
			l = insert(l, Pick(r, BadAddrs...))
		}
		return join(l)
	}
	init := func(bad int) string {
		ns := nodes(bad == 1)
		id := "sim-1"
		if bad == 2 {
			id = "''"
		}
		if solo {
			if bad == 3 {
				return "config init " + id
			}
			return "config init " + id + " " + ns
		}
		ps, l, th, to := peers(), "tcp://10.0.0.1:2222", t, Pick(r, "1500ms", "1500ms", "1s", "2500ms")
		switch bad {
		case 3:
			th = n + r.R(1, 3)
		case 4:
			to = Pick(r, "soon", "''", "1500", "1y")
		case 5:
			l = Pick(r, append([]string{"tcp://10.0.0.1", "''", "tcp://0.0.0.0:2222", "10.0.0.1:2222"}, BadAddrs...)...)
		case 6:
			ps = insert(ps, fmt.Sprintf("tcp://10.0.3.9:2222|%d", Pick(r, 0, -1, n+2, n+5, 99)))
		case 7:
			x := ps[r.N(len(ps))]
			if r.P(60) {
				x = "tcp://10.0.3.9:2222|" + x[len(x)-1:]
			}
			ps = insert(ps, x)
		case 8:
			ps = insert(ps, Pick(r, "tcp://10.0.3.9:2222", "tcp://10.0.3.9:2222|x", "tcp://10.0.3.9:2222|", "|2|3"))
		case 9:
			th = Pick(r, 0, -1)
		}
		s := "config init " + id + " " + ns
		if bad != 1 && r.P(15) {
			s = "config init " + id
		}
		return s + fmt.Sprintf(" -c -p %s -l %s -t %d --timeout %s", join(ps), l, th, to)
	}
	pct := 8
	if r.P(35) {
		g.cmd(init(r.R(1, 9)), pct)
		if r.P(50) {
			g.add(Item{K: "start", B: int64(r.N(2))})
		}
	}
	if r.P(80) {
		g.cmd(init(0), pct)
	} else {
		g.add(Item{K: "edit", C: 1})
	}
	edit := func() {
		it := Item{K: "edit", A: int64(PickW(r, []int{1, 2, 4, 1, 1, 5, 3, 3, 5, 3, 3, 3, 3, 1}, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)), D: int64(r.N(2))}
		if r.P(60) {
			it.C = 1
		}
		switch it.A {
		case 5:
			it.B = int64(Pick(r, 0, -1, -100, n, n+1, n+2, 1, 2, t, 300))
		case 6:
			it.B = int64(Pick(r, 0, -1, n-1, n, n+1, 9))
		case 8:
			it.B = int64(Pick(r, 0, -1, n, n+1, n+2, 6, 255, 256, 300, 1, 2))
		default:
			it.B = int64(r.N(40))
		}
		g.add(it)
	}
	for k := r.R(2, 7); k > 0; k-- {
		switch r.N(12) {
		case 0:
			g.cmd("config nodes add "+nodes(r.P(60)), pct)
		case 1:
			g.cmd("config nodes remove "+nodes(r.P(20)), pct)
		case 2:
			ps := peers()
			x := Pick(r, fmt.Sprintf("tcp://10.0.3.7:2222|%d", Pick(r, 0, -1, n+1, n+2, 99, own)), "tcp://10.0.3.8:2222|"+fmt.Sprint(r.R(1, n)), "tcp://10.0.3.8:2222", "tcp://10.0.3.8:2222|x", ps[r.N(len(ps))])
			g.cmd("config peers add "+x, pct)
		case 3:
			g.cmd("config peers remove "+Pick(r, "x", "1", "2", "3", "9", "1,2"), pct)
		case 4:
			if n > 2 && r.P(50) {
				// fewer peers: not every lower number of shares fits their IDs
				g.cmd(fmt.Sprintf("config peers remove %d", r.R(1, n)), 0)
				if n > 3 && r.P(40) {
					g.cmd(fmt.Sprintf("config peers remove %d", r.R(1, n)), 0)
				}
				g.cmd(fmt.Sprintf("config peers set-shares %d", r.R(2, n-1)), pct)
				break
			}
			g.cmd("config peers set-shares "+Pick(r, "0", "-1", "x", "''", fmt.Sprint(n-1), fmt.Sprint(n), fmt.Sprint(n+1), fmt.Sprint(n+3)), pct)
		case 5:
			g.cmd("config chain-id set ''", pct)
		case 6:
			g.cmd(init(r.R(0, 9))+" -o", pct)
		default:
			edit()
		}
		if r.P(60) {
			it := Item{K: "start"}
			if r.P(10) {
				it.B = 1
			}
			g.add(it)
		}
	}
	g.add(Item{K: "start"})
}

func join(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}

// Perm is a random permutation of 0..n-1.
func (r *Rng) Perm(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
		j := r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}
