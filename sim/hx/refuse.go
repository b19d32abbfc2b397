//go:build go1.22

package main

// Configurations that cannot work (C22): commands refuse to make them, and
// signers refuse to start with them; with all others the signer works.

import (
	"fmt"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	"gopkg.in/yaml.v2"
)

func parses(addr string) bool {
	_, err := url.Parse(addr)
	return err == nil
}

func nodesParse(ns []yChainNode) bool {
	for _, n := range ns {
		if !parses(n.PrivValAddr) {
			return false
		}
	}
	return true
}

// cfgProp is the property that decides what a configuration command did.
func (c *cliRun) cfgProp() string {
	if c.w.p.Prop == "C22" {
		return "C22"
	}
	return "C18"
}

func (c *cliRun) cfgProp16() string {
	if c.w.p.Prop == "C16" || c.w.p.Prop == "C20" {
		return c.w.p.Prop
	}
	return c.cfgProp()
}

func (c *cliRun) own() int {
	if k := c.w.p.O("own"); k > 0 {
		return int(k)
	}
	return 1
}

func (c *cliRun) kNT() (n, t int) {
	n, t = 3, 2
	if k := c.w.p.O("kN"); k > 0 {
		n, t = int(k), int(c.w.p.O("kT"))
	}
	return
}

// base is a configuration that works.
func (c *cliRun) base() *yConfig {
	n, t := c.kNT()
	y := &yConfig{HomeDir: path.Join(c.nd.env, ".horcrux"), ChainID: chainID, ChainNodes: []yChainNode{{"tcp://10.0.1.1:1234"}, {"tcp://10.0.1.2:1234"}}}
	if c.w.p.O("solo") == 1 {
		return y
	}
	y.CosignerConfig = &yCosigner{Threshold: t, Shares: n, P2PListen: "tcp://10.0.0.1:2222", Timeout: "1500ms"}
	for i := 1; i <= n; i++ {
		if i != c.own() {
			y.CosignerConfig.Peers = append(y.CosignerConfig.Peers, yPeer{i, fmt.Sprintf("tcp://10.0.3.%d:2222", i)})
		}
	}
	return y
}

// edit changes the configuration file by hand.
func (c *cliRun) edit() {
	w := c.w
	s := c.snap()
	y := s.cfg
	if y == nil || c.it.C == 1 {
		y = c.base()
		must(os.MkdirAll(filepath.Join(c.nd.dir, "state"), 0755))
		for _, suf := range classSuffix {
			f := filepath.Join(c.nd.dir, "state", chainID+suf)
			if _, err := os.Stat(f); err != nil {
				emptyState(f)
			}
		}
	}
	v := int(c.it.B)
	bad := plan.BadAddrs[(v%len(plan.BadAddrs)+len(plan.BadAddrs))%len(plan.BadAddrs)]
	what := ""
	ins := func(x yChainNode) {
		i := w.rng.n(len(y.ChainNodes) + 1)
		y.ChainNodes = append(y.ChainNodes[:i:i], append([]yChainNode{x}, y.ChainNodes[i:]...)...)
	}
	cc := y.CosignerConfig
	switch {
	case c.it.A == 0:
		what = "nothing"
	case c.it.A == 1:
		y.ChainID, what = "", "chain-id"
	case c.it.A == 2:
		ins(yChainNode{bad})
		what = "bad node"
	case c.it.A == 3:
		y.ChainNodes, what = nil, "no nodes"
	case c.it.A == 4:
		y.PrivValKeyFile, what = "/nowhere/key.json", "no key file"
	case cc == nil:
		what = "nothing"
	case c.it.A == 5:
		cc.Threshold, what = v, "threshold"
	case c.it.A == 6:
		cc.Shares, what = v, "shares"
	case c.it.A == 7 && len(cc.Peers) > 0:
		p := cc.Peers[w.rng.n(len(cc.Peers))]
		if v&4 == 0 {
			p.P2PAddr = "tcp://10.0.3.9:2222"
		}
		i := w.rng.n(len(cc.Peers) + 1)
		cc.Peers = append(cc.Peers[:i:i], append([]yPeer{p}, cc.Peers[i:]...)...)
		cc.Shares += v & 3
		what = "duplicate peer"
	case c.it.A == 8 && len(cc.Peers) > 0:
		cc.Peers[w.rng.n(len(cc.Peers))].ShareID, what = v, "peer id"
		if v > 0 && c.it.D == 1 {
			cc.Shares = max(cc.Shares, v)
		}
	case c.it.A == 9 && len(cc.Peers) > 0:
		i := w.rng.n(len(cc.Peers))
		cc.Peers, what = append(cc.Peers[:i:i], cc.Peers[i+1:]...), "one peer less"
		if v&1 == 1 {
			cc.Threshold = min(cc.Threshold, len(cc.Peers)+1)
		}
	case c.it.A == 10:
		cc.Timeout, what = []string{"soon", "", "1500", "10 s", "1m", "2s500ms", "0", "-1s"}[(v%8+8)%8], "timeout"
	case c.it.A == 11:
		cc.P2PListen, what = []string{bad, "://10.0.0.1:2222", "tcp://10.0.0.1", "", "tcp://0.0.0.0:2222"}[(v%5+5)%5], "listen"
	case c.it.A == 12:
		i := w.rng.n(len(cc.Peers) + 1)
		cc.Peers = append(cc.Peers[:i:i], append([]yPeer{{c.own(), "tcp://10.0.3.9:2222"}}, cc.Peers[i:]...)...)
		if v&1 == 1 {
			cc.Shares = max(cc.Shares, len(cc.Peers)+1)
		}
		what = "own id among peers"
	case c.it.A == 13:
		y.CosignerConfig, what = nil, "no cosigner section"
	default:
		what = "nothing"
	}
	b, err := yaml.Marshal(y)
	must(err)
	must(os.WriteFile(filepath.Join(c.nd.dir, "config.yaml"), b, 0644))
	w.tr("configuration edited: %s", what)
	w.faults["config_edit"]++
	w.states["edit:"+strings.ReplaceAll(what, " ", "-")] = true
	c.readMarks(c.snap())
}

// startVerdict says whether a signer may start with this configuration.
func (c *cliRun) startVerdict(b *snap, cos bool) (int, string) {
	y := b.cfg
	switch {
	case y.ChainID == "":
		return mustFail, "empty chain id"
	case !nodesParse(y.ChainNodes):
		return mustFail, "a chain node's address does not parse"
	case y.PrivValKeyFile != "":
		return mustFail, "the key file does not exist"
	}
	if !cos {
		if len(y.ChainNodes) == 0 {
			return mustFail, "no chain node"
		}
		return mustOK, ""
	}
	cc := y.CosignerConfig
	if cc == nil {
		return mustFail, "no cosigner section"
	}
	n, _ := c.kNT()
	seen := map[int]bool{}
	for _, p := range cc.Peers {
		switch {
		case seen[p.ShareID]:
			return mustFail, "duplicate share id"
		case p.ShareID < 1 || p.ShareID > cc.Shares:
			return mustFail, "share id out of range"
		case p.ShareID > n:
			return mustFail, "no such share"
		case p.ShareID == c.own():
			return mustFail, "own share id among the peers"
		}
		seen[p.ShareID] = true
	}
	if len(cc.Peers) >= cc.Shares && len(cc.Peers) > 0 {
		return mustFail, "too many peers"
	}
	if cc.Threshold < 1 || cc.Threshold > len(cc.Peers)+1 {
		return mustFail, "impossible threshold"
	}
	if _, err := time.ParseDuration(cc.Timeout); err != nil {
		return mustFail, "bad timeout"
	}
	if !parses(cc.P2PListen) {
		return mustFail, "the listen address does not parse"
	}
	for _, class := range []string{"share", "priv"} {
		if _, err := b.strict(y.ChainID, class); err != nil {
			return mayBoth, "no " + class + " state"
		}
	}
	if cc.P2PListen != "tcp://10.0.0.1:2222" {
		return mayBoth, "listen address"
	}
	if len(cc.Peers) == 0 {
		return mayBoth, "no peers" // no command makes this; it serves, but does not sign
	}
	return mustOK, ""
}

func (c *cliRun) serve22() {
	w, nd := c.w, c.nd
	b := c.snap()
	if b.cfg == nil {
		return
	}
	cos := b.cfg.CosignerConfig != nil
	if c.it.B == 1 {
		cos = true
	}
	nd.chain = b.cfg.ChainID
	nd.args = []string{"signer", "start"}
	if cos {
		nd.args = []string{"cosigner", "start"}
	}
	nd.args = c.atHome(nd.args)
	verdict, why := c.startVerdict(b, cos)
	var ls []*link
	have := map[int]bool{}
	for k := 1; k <= 5; k++ {
		for _, x := range b.cfg.ChainNodes {
			if x.PrivValAddr == fmt.Sprintf("tcp://10.0.1.%d:1234", k) && !have[k] {
				have[k] = true
				s := w.addSentry(k)
				s.listen()
				ls = append(ls, w.addLink(s, nd))
			}
		}
	}
	what := fmt.Sprintf("%q with the configuration %.400s", strings.Join(nd.args, " "), show(b.cfg))
	go w.start(nd)
	time.Sleep(time.Duration(3000+w.rng.n(1500)) * time.Millisecond)
	w.stats["cli_starts"]++
	w.stats["start_"+[]string{"mustup", "mustrefuse", "either"}[verdict]]++
	w.states[fmt.Sprintf("start:%v:%d:%s:%v", cos, verdict, strings.ReplaceAll(why, " ", "-"), nd.alive)] = true
	switch verdict {
	case mustFail:
		if nd.alive {
			w.violate("C22", "started", "%s started (%s)", what, why)
		} else if nd.exitCode == 0 {
			w.violate("C22", "silent", "%s ended without an error (%s)", what, why)
		}
		for _, l := range ls {
			if l.nConn > 0 {
				w.violate("C22", "connected", "%s connected to a sentry although it cannot work (%s)", what, why)
			}
		}
	case mustOK:
		if !nd.alive {
			w.violate("C22", "not-started", "%s ended (code %d): %.200q %.300q", what, nd.exitCode, nd.exitWhy, lastLines(nd.out.String(), 2))
		}
	}
	if nd.alive {
		c.requests(b, ls, cos, verdict, what)
	}
	if !nd.alive && nd.exitCode != 0 && verdict == mustOK {
		w.violate("C22", "crashed:"+classify(nd.exitWhy), "%s crashed when it was used: %.300q", what, nd.exitWhy)
	}
	switch {
	case !nd.alive:
	case w.rng.n(2) == 0:
		w.interrupt(nd)
		for i := 0; i < 100 && nd.alive; i++ {
			time.Sleep(100 * time.Millisecond)
		}
		w.kill(nd, false, false)
	default:
		w.kill(nd, w.rng.n(2) == 0, false)
	}
	a := c.snap()
	if string(a.cfgRaw) != string(b.cfgRaw) {
		w.violate("C22", "start-config", "starting the signer changed the configuration")
	}
	c.readMarks(a)
}

// requests uses a running signer.
func (c *cliRun) requests(b *snap, ls []*link, cos bool, verdict int, what string) {
	w, nd := c.w, c.nd
	h := max(c.mark(b.cfg.ChainID, "priv").H, c.mark(b.cfg.ChainID, "share").H) + 1
	for _, l := range ls {
		if !l.waitConn(12*time.Second) && nd.alive && verdict == mustOK {
			w.violate("C22", "unconnected", "%s does not connect to the sentry %d", what, l.s.k)
			return
		}
	}
	ok := false
	for i := 0; i < 6 && nd.alive && !ok && len(ls) > 0; i++ {
		h++
		l := ls[w.rng.n(len(ls))]
		pk := w.ask(l, plan.Req{Kind: "pubkey", TO: 8000})
		if pk.err != "" && nd.alive && verdict == mustOK {
			w.violate("C22", "not-serving", "%s does not answer a request for the public key: %s", what, pk.err)
			return
		}
		a := w.ask(l, plan.Req{Kind: kinds3[w.rng.n(3)], H: h, V: 1, Pol: -1, TO: 15000})
		ok = a.ok
		if cos && i > 0 {
			break // its peers are not there
		}
	}
	if nd.alive && verdict == mustOK && len(ls) > 0 && !ok && !cos {
		w.violate("C22", "not-signing", "%s does not sign", what)
	}
	if !cos {
		return
	}
	var ids []int
	for _, p := range b.cfg.CosignerConfig.Peers {
		if n, _ := c.kNT(); p.ShareID != c.own() && p.ShareID <= n && p.ShareID >= 1 {
			ids = append(ids, p.ShareID)
		}
	}
	ok = false
	for i := 0; i < 3 && nd.alive && !ok && len(ids) > 0; i++ {
		h++
		ok = c.shareProbeFrom(ids[w.rng.n(len(ids))], &plan.Req{Kind: kinds3[w.rng.n(3)], H: h, V: 1, Pol: -1})
	}
	if nd.alive && verdict == mustOK && len(ids) > 0 && !ok {
		w.violate("C22", "no-share", "%s gives its peers no share signature", what)
	}
	if ok {
		w.stats["share_probes_ok"]++
	}
}

// present: whether the cluster has this cosigner (C22: share IDs with gaps).
func (w *world) present(id int) bool {
	m := w.p.O("sub")
	return m == 0 || m>>uint(id)&1 == 1
}
