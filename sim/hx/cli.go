//go:build go1.22

package main

// Command-line histories (C16, C18, C20): every plan item is one process on
// the same home directory, and only what is on disk survives between them.

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	"google.golang.org/grpc"
	"gopkg.in/yaml.v2"
)

// cliModel is what the checks remember between two processes.
type cliModel struct {
	Wm      map[string][3]int64 `json:"wm"` // watermark per chain and class
	Damaged bool                `json:"damaged"`
}

type cliRun struct {
	w     *world
	nd    *node
	it    plan.Item
	m     cliModel
	seen  int
	fault string // fault that hit this process
}

// snap is the home directory as a power loss right now would leave it.
type snap struct {
	cfg    *yConfig
	cfgRaw []byte
	cfgErr error
	states map[string][]byte // file name -> content
	keys   map[string][]byte
}

var classSuffix = map[string]string{"share": "_share_sign_state.json", "priv": "_priv_validator_state.json"}

func (c *cliRun) snap() *snap {
	s := &snap{states: map[string][]byte{}, keys: map[string][]byte{}}
	d := c.nd.dir
	if b, ok := c.w.fs.durableContent(filepath.Join(d, "config.yaml")); ok {
		s.cfgRaw = b
		s.cfg, s.cfgErr = parseCfg(b)
	} else {
		s.cfgErr = os.ErrNotExist
	}
	es, _ := os.ReadDir(filepath.Join(d, "state"))
	for _, e := range es {
		if b, ok := c.w.fs.durableContent(filepath.Join(d, "state", e.Name())); ok {
			s.states[e.Name()] = b
		}
	}
	for _, f := range []string{"share.json", "priv_validator_key.json"} {
		b, _ := os.ReadFile(filepath.Join(d, f))
		s.keys[f] = b
	}
	return s
}

func parseCfg(b []byte) (*yConfig, error) {
	y := &yConfig{}
	if len(strings.TrimSpace(string(b))) == 0 {
		return nil, fmt.Errorf("empty")
	}
	if err := yaml.UnmarshalStrict(b, y); err != nil {
		return nil, err
	}
	if len(y.ChainNodes) == 0 {
		y.ChainNodes = nil
	}
	if y.CosignerConfig != nil && len(y.CosignerConfig.Peers) == 0 {
		y.CosignerConfig.Peers = nil
	}
	return y, nil
}

func cloneCfg(y *yConfig) *yConfig {
	b, _ := yaml.Marshal(y)
	o, _ := parseCfg(b)
	return o
}

func (s *snap) state(chain, class string) (*diskState, error) {
	b, ok := s.states[chain+classSuffix[class]]
	if !ok {
		return nil, os.ErrNotExist
	}
	return parseState(b)
}

// strict reads a state as horcrux itself writes it (not as tendermint does).
func (s *snap) strict(chain, class string) (*diskState, error) {
	st, err := s.state(chain, class)
	if err == nil && !strings.Contains(string(s.states[chain+classSuffix[class]]), "\"round\": \"") {
		return nil, fmt.Errorf("written by tendermint")
	}
	return st, err
}

func hrs3(a [3]int64) hrs { return hrs{a[0], a[1], int8(a[2])} }

func (w *world) runCLI() {
	step, _ := strconv.Atoi(os.Getenv("HX_STEP"))
	p := w.p
	kn, kt := 3, 2
	if p.O("kN") > 0 {
		kn, kt = int(p.O("kN")), int(p.O("kT"))
	}
	makeKeys(p.Seed, kt, kn)
	nd := w.newNode(1, "n1", "10.0.0.1", 1)
	w.nodes = append(w.nodes, nd)
	c := &cliRun{w: w, nd: nd}
	w.cli = c
	if step == 0 {
		c.m.Wm = map[string][3]int64{}
		c.keys()
	} else {
		b, err := os.ReadFile("model.json")
		must(err)
		must(json.Unmarshal(b, &c.m))
	}
	if step >= len(p.Items) {
		return
	}
	c.it = p.Items[step]
	w.fired(c.it.ID)
	switch c.it.K {
	case "cmd":
		c.command()
	case "start":
		if p.Prop == "C22" {
			c.serve22()
		} else {
			c.serve()
		}
	case "edit":
		c.edit()
	case "damage":
		c.damage()
	case "wm":
		c.watermark()
	}
	b, _ := json.Marshal(&c.m)
	must(os.WriteFile("model.json", b, 0644))
	w.more = step+1 < len(p.Items)
}

func (c *cliRun) keys() {
	d := c.nd.dir
	must(os.MkdirAll(d, 0755))
	w := c.w
	tmp := &node{id: c.own(), dir: "tmpkeys", last: map[string]hrs{}}
	n, t := c.kNT()
	w.writeHome(tmp, n, t, nil)
	b, err := os.ReadFile("tmpkeys/share.json")
	must(err)
	must(os.WriteFile(filepath.Join(d, "share.json"), b, 0600))
	os.RemoveAll("tmpkeys")
	kb, err := tmjson.MarshalIndent(privval.FilePVKey{Address: valPub.Address(), PubKey: valPub, PrivKey: valPriv}, "", "  ")
	must(err)
	must(os.WriteFile(filepath.Join(d, "priv_validator_key.json"), kb, 0600))
}

// event counts the process's file-system operations; the plan's fault fires at one.
func (c *cliRun) event(ev string, nd *node) {
	if nd != c.nd || c.it.Ev == "" || c.fault != "" || !strings.HasPrefix(ev, "fs:") {
		return
	}
	if c.it.A != 1 && c.it.A != 2 {
		return
	}
	if c.it.Ev != "any" && c.it.Ev != ev {
		return
	}
	if c.it.Ev == "any" && (strings.HasPrefix(ev, "fs:open:other") || strings.HasPrefix(ev, "fs:close")) {
		return
	}
	c.seen++
	if c.seen < c.it.Ct {
		return
	}
	c.fault = []string{"", "crash", "power_loss"}[c.it.A]
	c.w.faults[c.fault]++
	c.w.states["cli:"+c.it.K+":"+firstWord(c.it.S)+":"+c.fault+":"+ev] = true
	c.w.tr("%s at %s (operation %d)", c.fault, ev, c.seen)
	c.w.kill(nd, c.it.A == 2, c.it.A == 2)
}

func firstWord(s string) string {
	f := strings.Fields(s)
	if len(f) > 2 {
		f = f[:2]
	}
	return strings.Join(f, "-")
}

func (c *cliRun) ioerr() {
	if c.it.Ev != "" && c.it.A == 3 {
		op, class, _ := strings.Cut(c.it.Ev, ":")
		c.nd.ioerrs = append(c.nd.ioerrs, ioFault{op: op, class: class, ct: c.it.Ct2(), errno: int(c.it.B), short: c.it.C == 1, sticky: c.it.C == 2, item: c.it.ID})
	}
}

// atHome names the home directory with --home, in plans that say so.
func (c *cliRun) atHome(args []string) []string {
	w := c.w
	c.nd.envHome = ""
	switch m := w.p.O("home"); {
	case m == 0 || m == 2 && w.rng.n(2) == 0:
		return args
	case w.rng.n(2) == 0:
		c.nd.envHome = "./elsewhere"
	}
	w.stats["cli_home_flag"]++
	h := path.Join(c.nd.env, ".horcrux")
	l := append([]string(nil), args...)
	i := w.rng.n(len(l) + 1)
	if w.rng.n(2) == 0 || i > 0 && strings.HasPrefix(l[i-1], "-") {
		return append([]string{"--home", h}, l...)
	}
	return append(l[:i:i], append([]string{"--home=" + h}, l[i:]...)...)
}

// proc runs one command to its end.
func (c *cliRun) proc(args []string) {
	nd := c.nd
	nd.args, nd.cli = c.atHome(args), true
	c.ioerr()
	done := make(chan struct{})
	go func() {
		c.w.start(nd)
		close(done)
	}()
	<-done
	for i := 0; nd.alive; i++ {
		if i > 600 {
			c.w.violate(c.w.p.Prop, "hang", "the command %q did not end within 60 s", strings.Join(args, " "))
			c.w.kill(nd, false, false)
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	if nd.ioHit {
		c.fault = "io_error"
	}
}

func (c *cliRun) command() {
	w := c.w
	before := c.snap()
	args := strings.Fields(c.it.S)
	for i := range args {
		if args[i] == "''" {
			args[i] = ""
		}
	}
	w.otherRuns = c.it.P == 1
	c.proc(args)
	w.otherRuns = false
	if _, err := os.Stat("elsewhere"); err == nil {
		w.violate(c.cfgProp16(), "other-home", "%q with --home wrote into the default home", c.it.S)
	}
	after := c.snap()
	code := c.nd.exitCode
	if code > 0 && strings.Contains(c.nd.exitWhy, "os.Exit") {
		lines := strings.Split(strings.TrimSpace(c.nd.out.String()), "\n")
		c.nd.exitWhy = lines[len(lines)-1]
	}
	w.stats["cli_commands"]++
	if c.fault == "" {
		w.stats[fmt.Sprintf("cli_exit_%d", code)]++
	}
	w.tr("%q: exit %d %.100q fault=%q", c.it.S, code, c.nd.exitWhy, c.fault)
	w.states[fmt.Sprintf("cli:%s:%d", firstWord(c.it.S), code)] = true
	for f, b := range before.keys {
		if string(after.keys[f]) != string(b) {
			w.violate(c.cfgProp(), "key-file", "%q changed %s", c.it.S, f)
		}
	}
	if len(args) == 2 && args[0] == "state" && args[1] == "show" && (code == 0 || c.fault == "") {
		c.checkShow(before, code)
	}
	if len(args) == 3 && args[0] == "state" && args[1] == "set" {
		c.checkStateSet(before, after, args, code)
	} else {
		c.checkConfig(before, after, args, code)
	}
	c.checkMarks(before, after, args)
	if c.m.Damaged && after.cfg != nil {
		c.checkStillLost(after)
	}
}

// -------------------------------------------------------------- C16

// checkShow: "state show" prints what the files say.
func (c *cliRun) checkShow(b *snap, code int) {
	if b.cfg == nil {
		return
	}
	var got []string
	for _, l := range strings.Split(c.nd.out.String(), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && (f[0] == "Height:" || f[0] == "Round:" || f[0] == "Step:") {
			got = append(got, f[1])
		}
	}
	var want []string
	for _, class := range []string{"priv", "share"} {
		st, err := b.state(b.cfg.ChainID, class)
		if code != 0 && err == nil {
			_, err = b.strict(b.cfg.ChainID, class)
		}
		if err != nil {
			return
		}
		want = append(want, fmt.Sprint(st.hrs.H), fmt.Sprint(st.hrs.R), fmt.Sprint(st.hrs.S))
	}
	c.w.stats["state_show_checked"]++
	if code != 0 {
		c.w.violate("C16", "show-fails", "state show fails (%.200s) although both files hold a state", c.nd.exitWhy)
		return
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.w.violate("C16", "show", "state show prints %v, the files have %v (height, round, step of the validator and the share state)", got, want)
	}
}

func (c *cliRun) checkStateSet(b, a *snap, args []string, code int) {
	w := c.w
	if b.cfg == nil {
		if code == 0 {
			w.violate("C16", "no-config", "%q succeeded without a configuration", c.it.S)
		}
		return
	}
	chain := b.cfg.ChainID
	if c.it.P == 1 {
		w.stats["state_set_while_running"]++
		if code == 0 {
			w.violate("C16", "while-running", "%q reported success although a signer process runs", c.it.S)
		}
		for f, x := range b.states {
			if string(a.states[f]) != string(x) {
				w.violate("C16", "while-running", "%q changed %s although a signer process runs", c.it.S, f)
			}
		}
		return
	}
	height, err := strconv.ParseInt(args[2], 10, 64)
	for _, class := range []string{"share", "priv"} {
		old, oerr := b.strict(chain, class)
		cur, cerr := a.state(chain, class)
		if oerr != nil {
			if cerr == nil && string(a.states[chain+classSuffix[class]]) != string(b.states[chain+classSuffix[class]]) {
				w.violate("C16", "created", "%q created the %s state, which could not be read before (%v), at %v", c.it.S, class, oerr, cur.hrs)
			}
			if code == 0 {
				w.violate("C16", "unreadable", "%q reported success while the %s state could not be read: %v", c.it.S, class, oerr)
			}
			continue
		}
		if cerr != nil {
			w.violate("C16", "lost", "after %q (exit %d, %s) the %s state is gone: %v", c.it.S, code, c.fault, class, cerr)
			continue
		}
		if cur.hrs.less(old.hrs) {
			w.violate("C16", "lowered", "%q (exit %d, %s) lowered the %s state from %v to %v", c.it.S, code, c.fault, class, old.hrs, cur.hrs)
		}
		if cur.hrs != old.hrs && (err != nil || cur.hrs != hrs{height, 0, 0}) {
			w.violate("C16", "mixed", "%q (exit %d, %s) left the %s state at %v, neither the old %v nor the new one", c.it.S, code, c.fault, class, cur.hrs, old.hrs)
		}
		if code == 0 && c.fault == "" || code == 0 && c.fault == "io_error" {
			if err != nil {
				w.violate("C16", "accepted", "%q reported success", c.it.S)
			} else if cur.hrs.less(hrs{height, 0, 0}) {
				w.violate("C16", "not-durable", "%q reported success and the durable %s state stands at %v", c.it.S, class, cur.hrs)
			}
		}
	}
	if code == 0 {
		w.stats["state_set_ok"]++
	}
	if string(a.cfgRaw) != string(b.cfgRaw) {
		w.violate("C16", "config", "%q changed the configuration", c.it.S)
	}
	if c.fault == "" && err == nil && code != 0 {
		s, e1 := b.strict(chain, "share")
		p, e2 := b.strict(chain, "priv")
		if e1 == nil && e2 == nil && s.hrs.less(hrs{height, 0, 0}) && p.hrs.less(hrs{height, 0, 0}) && height > 0 {
			w.violate("C16", "refused", "%q failed (exit %d: %.150q) although both states are lower (%v, %v)", c.it.S, code, c.nd.exitWhy, s.hrs, p.hrs)
		}
	}
}

// -------------------------------------------------------------- C18

const (
	mustOK = iota
	mustFail
	mayBoth
)

// expect is the reference model of the configuration commands.
func (c *cliRun) expect(b *snap, args []string) (int, *yConfig) {
	var rest []string
	home := path.Join(c.nd.env, ".horcrux")
	flags := map[string]string{}
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "--home":
			home = args[i+1]
			i++
		case "-c", "-o":
			flags[args[i]] = "1"
		case "-p", "-l", "-t", "-k", "--timeout":
			flags[args[i]] = args[i+1]
			i++
		default:
			rest = append(rest, args[i])
		}
	}
	if len(rest) < 3 || rest[0] != "config" {
		return mayBoth, nil
	}
	if rest[1] == "init" {
		if b.cfgErr != os.ErrNotExist && flags["-o"] == "" {
			return mustFail, nil
		}
		n := &yConfig{HomeDir: home, ChainID: rest[2], PrivValKeyFile: flags["-k"]}
		if len(rest) > 3 {
			for _, x := range strings.Split(rest[3], ",") {
				n.ChainNodes = append(n.ChainNodes, yChainNode{x})
			}
		}
		if flags["-c"] != "" {
			t, _ := strconv.Atoi(flags["-t"])
			to, given := flags["--timeout"]
			if !given {
				to = "1500ms"
			}
			n.CosignerConfig = &yCosigner{Threshold: t, P2PListen: flags["-l"], Timeout: to}
			ps, ok := parsePeers(flags["-p"])
			if !ok {
				return mustFail, nil
			}
			n.CosignerConfig.Peers = ps
			n.CosignerConfig.Shares = len(ps) + 1
			if t > len(ps)+1 || !validPeers(ps, len(ps)+1) || n.ChainID == "" || !nodesParse(n.ChainNodes) {
				return mustFail, nil
			}
			if u, err := url.Parse(flags["-l"]); err != nil {
				return mustFail, nil
			} else if _, _, err := net.SplitHostPort(u.Host); err != nil {
				return mustFail, nil
			}
			if _, err := time.ParseDuration(to); err != nil || strings.Contains(flags["-l"], "0.0.0.0") || flags["-l"] == "" {
				return mustFail, nil
			}
			if t < 1 {
				return mayBoth, n // refused at the start
			}
		} else if len(n.ChainNodes) == 0 || n.ChainID == "" || !nodesParse(n.ChainNodes) {
			return mustFail, nil
		}
		// an unreadable state of that chain makes it fail
		for _, class := range []string{"priv", "share"} {
			if n.CosignerConfig == nil {
				break
			}
			if _, err := b.strict(n.ChainID, class); err != nil && err != os.ErrNotExist {
				return mayBoth, n
			}
		}
		return mustOK, n
	}
	if b.cfg == nil {
		return mustFail, nil
	}
	n := cloneCfg(b.cfg)
	if len(rest) != 4 {
		return mayBoth, nil
	}
	arg := rest[3]
	switch rest[1] + " " + rest[2] {
	case "nodes add":
		added := false
		for _, x := range strings.Split(arg, ",") {
			if !hasNode(b.cfg.ChainNodes, x) {
				n.ChainNodes = append(n.ChainNodes, yChainNode{x})
				added = true
			}
		}
		if !added || !nodesParse(n.ChainNodes) {
			return mustFail, nil
		}
	case "nodes remove":
		n.ChainNodes = nil
		rm := map[string]bool{}
		for _, x := range strings.Split(arg, ",") {
			rm[x] = true
		}
		for _, x := range b.cfg.ChainNodes {
			if !rm[x.PrivValAddr] {
				n.ChainNodes = append(n.ChainNodes, x)
			}
		}
		if len(n.ChainNodes) == 0 || !nodesParse(n.ChainNodes) {
			return mustFail, nil
		}
		for x := range rm {
			if !parses(x) {
				return mayBoth, n
			}
		}
	case "peers add":
		if n.CosignerConfig == nil {
			return mustFail, nil
		}
		ps, ok := parsePeers(arg)
		if !ok {
			return mustFail, nil
		}
		added := false
		for _, x := range ps {
			dup := false
			for _, y := range b.cfg.CosignerConfig.Peers {
				dup = dup || x == y
			}
			if !dup {
				n.CosignerConfig.Peers = append(n.CosignerConfig.Peers, x)
				added = true
			}
		}
		if !added || !validPeers(n.CosignerConfig.Peers, n.CosignerConfig.Shares) {
			return mustFail, nil
		}
	case "peers remove":
		if n.CosignerConfig == nil {
			return mustFail, nil
		}
		rm := map[int]bool{}
		for _, x := range strings.Split(arg, ",") {
			id, err := strconv.Atoi(x)
			if err != nil {
				return mustFail, nil
			}
			rm[id] = true
		}
		n.CosignerConfig.Peers = nil
		for _, x := range b.cfg.CosignerConfig.Peers {
			if !rm[x.ShareID] {
				n.CosignerConfig.Peers = append(n.CosignerConfig.Peers, x)
			}
		}
		if len(n.CosignerConfig.Peers) == 0 {
			return mustFail, nil
		}
		if !validPeers(n.CosignerConfig.Peers, n.CosignerConfig.Shares) {
			return mayBoth, n
		}
	case "peers set-shares":
		if n.CosignerConfig == nil {
			return mustFail, nil
		}
		k, err := strconv.Atoi(arg)
		if err != nil || !validPeers(n.CosignerConfig.Peers, k) {
			return mustFail, nil
		}
		n.CosignerConfig.Shares = k
	case "chain-id set":
		if arg == "" {
			return mustFail, nil
		}
		for class := range classSuffix {
			if class == "share" && n.CosignerConfig == nil {
				continue
			}
			if _, err := b.state(n.ChainID, class); err == os.ErrNotExist {
				return mustFail, nil
			} else if err != nil {
				n.ChainID = arg
				return mayBoth, n
			}
		}
		for class := range classSuffix {
			if class == "share" && n.CosignerConfig == nil {
				continue
			}
			there, e1 := b.state(arg, class)
			carried, _ := b.state(n.ChainID, class)
			if e1 == nil && carried.hrs.less(there.hrs) {
				return mustFail, nil // that chain has signed further
			}
			if e1 != nil && e1 != os.ErrNotExist {
				n.ChainID = arg
				return mayBoth, n
			}
		}
		n.ChainID = arg
	default:
		return mayBoth, nil
	}
	return mustOK, n
}

func hasNode(ns []yChainNode, x string) bool {
	for _, n := range ns {
		if n.PrivValAddr == x {
			return true
		}
	}
	return false
}

func parsePeers(s string) (out []yPeer, ok bool) {
	for _, x := range strings.Split(s, ",") {
		a, i, found := strings.Cut(x, "|")
		id, err := strconv.Atoi(i)
		if !found || err != nil {
			return nil, false
		}
		out = append(out, yPeer{id, a})
	}
	return out, true
}

func validPeers(ps []yPeer, shares int) bool {
	seen := map[int]bool{}
	for _, p := range ps {
		if seen[p.ShareID] || p.ShareID < 1 || p.ShareID > shares {
			return false
		}
		seen[p.ShareID] = true
	}
	return len(ps) < shares
}

func sameCfg(a, b *yConfig) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := cloneCfg(a), cloneCfg(b)
	x.HomeDir, y.HomeDir = path.Clean(x.HomeDir), path.Clean(y.HomeDir)
	return reflect.DeepEqual(x, y)
}

func show(y *yConfig) string {
	if y == nil {
		return "none"
	}
	b, _ := yaml.Marshal(y)
	return strings.Join(strings.Fields(string(b)), " ")
}

func (c *cliRun) checkConfig(b, a *snap, args []string, code int) {
	w := c.w
	verdict, want := c.expect(b, args)
	old := sameCfg(a.cfg, b.cfg) && (a.cfg != nil || string(a.cfgRaw) == string(b.cfgRaw))
	isNew := want != nil && sameCfg(a.cfg, want)
	what := fmt.Sprintf("%q (exit %d, fault %q)", c.it.S, code, c.fault)
	if a.cfgErr != nil && a.cfgErr != os.ErrNotExist {
		w.violate(c.cfgProp(), "unreadable", "after %s the configuration does not load: %v: %.80q", what, a.cfgErr, a.cfgRaw)
		return
	}
	if !old && !isNew {
		w.violate(c.cfgProp(), "mixed", "after %s the configuration is neither the old nor the new one: %.400s (old %.300s, new %.300s)", what, show(a.cfg), show(b.cfg), show(want))
	}
	ended := c.fault == "" || c.fault == "io_error"
	if ended && code == 0 {
		if verdict == mustFail {
			w.violate(c.cfgProp(), "accepted", "%s succeeded, but cannot be carried out; configuration now %.300s", what, show(a.cfg))
		} else if want != nil && !isNew {
			w.violate(c.cfgProp(), "not-done", "%s succeeded and the durable configuration is %.300s instead of %.300s", what, show(a.cfg), show(want))
		}
		w.stats["config_ok"]++
		if want != nil && args[1] == "init" {
			for class := range classSuffix {
				if class == "share" && want.CosignerConfig == nil {
					continue
				}
				if _, err := a.state(want.ChainID, class); err != nil {
					w.violate(c.cfgProp(), "init-state", "%s succeeded and the %s state is not there: %v", what, class, err)
				}
			}
		}
	}
	if c.fault == "" && code != 0 {
		if verdict == mustOK {
			w.violate(c.cfgProp(), "refused", "%s failed: %.200q", what, c.nd.exitWhy)
		}
		if !old && verdict != mayBoth {
			w.violate(c.cfgProp(), "changed", "%s failed and changed the configuration", what)
		}
	}
}

// checkMarks: the configured chain keeps a sign state at or above everything signed.
func (c *cliRun) checkMarks(b, a *snap, args []string) {
	w := c.w
	if a.cfg == nil || c.m.Damaged {
		return
	}
	prop := c.cfgProp()
	if len(args) > 0 && args[0] == "state" {
		prop = "C16"
	}
	for _, class := range []string{"share", "priv"} {
		if class == "share" && a.cfg.CosignerConfig == nil {
			continue
		}
		m, ok := c.m.Wm[a.cfg.ChainID+"|"+class]
		if b.cfg != nil && a.cfg.ChainID != b.cfg.ChainID && !strings.Contains(" "+strings.Join(args, " "), " config init") {
			// the chain was renamed: its state moves along
			o := b.cfg.ChainID + "|" + class
			m, ok = c.m.Wm[o]
			delete(c.m.Wm, o)
			if m2, ok2 := c.m.Wm[a.cfg.ChainID+"|"+class]; ok2 && hrs3(m).less(hrs3(m2)) {
				// and does not replace a higher one
				m, ok = m2, true
			}
		}
		if !ok {
			continue
		}
		st, err := a.state(a.cfg.ChainID, class)
		if err != nil {
			w.violate(prop, "state-lost:"+class, "after %q (exit %d, fault %q) the configured chain %s has no usable %s state (%v), the watermark was %v", c.it.S, c.nd.exitCode, c.fault, a.cfg.ChainID, class, err, hrs3(m))
		} else if st.hrs.less(hrs3(m)) {
			w.violate(prop, "state-lower:"+class, "after %q (exit %d, fault %q) the %s state of the configured chain %s stands at %v, the watermark was %v", c.it.S, c.nd.exitCode, c.fault, class, a.cfg.ChainID, st.hrs, hrs3(m))
		}
	}
	c.readMarks(a)
}

func (c *cliRun) mark(chain, class string) hrs { return hrs3(c.m.Wm[chain+"|"+class]) }

func (c *cliRun) readMarks(a *snap) {
	for _, class := range []string{"share", "priv"} {
		k := a.cfg.ChainID + "|" + class
		if st, err := a.state(a.cfg.ChainID, class); err == nil {
			if m, ok := c.m.Wm[k]; !ok || hrs3(m).less(st.hrs) {
				c.m.Wm[k] = [3]int64{st.H, st.R, int64(st.S)}
			}
		}
	}
}

// -------------------------------------------------------------- C20

func (c *cliRun) checkStillLost(a *snap) {
	if st, err := a.state(a.cfg.ChainID, "share"); err == nil {
		c.w.violate("C20", "replaced", "%q put a share sign state (%v) in the place of the lost one", c.it.S, st.hrs)
	}
}

// watermark plants the state of a signer that has signed up to some block.
func (c *cliRun) watermark() {
	s := c.snap()
	if s.cfg == nil || c.m.Damaged {
		return
	}
	q := plan.Req{Kind: []string{"proposal", "prevote", "precommit"}[c.it.B%3], H: c.it.A, R: c.it.C, V: 1, Pol: -1}
	for _, class := range []string{"share", "priv"} {
		st, err := s.state(s.cfg.ChainID, class)
		if err != nil || !st.hrs.less(hrs{q.H, q.R, stepOf(q.Kind)}) {
			continue
		}
		j := fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d,\n  \"ephemeral_public\": null,\n  \"signature\": \"AAAA\",\n  \"signbytes\": \"%X\"\n}",
			q.H, q.R, stepOf(q.Kind), signBytesOf(&q))
		must(os.WriteFile(filepath.Join(c.nd.dir, "state", s.cfg.ChainID+classSuffix[class]), []byte(j), 0600))
	}
	c.readMarks(c.snap())
}

func (c *cliRun) damage() {
	s := c.snap()
	if s.cfg == nil {
		return
	}
	f := filepath.Join(c.nd.dir, "state", s.cfg.ChainID+classSuffix["share"])
	if damageFile(c.w, f, int(c.it.A)) {
		c.m.Damaged = true
	}
}

// damageFile loses or damages a state file so that it cannot be parsed.
func damageFile(w *world, f string, kind int) bool {
	b, err := os.ReadFile(f)
	if err != nil || len(b) == 0 {
		return false
	}
	names := []string{"missing", "empty", "truncated", "garbage", "bitflip", "directory", "tail", "zeros"}
	kind %= len(names)
	switch kind {
	case 0:
		os.Remove(f)
	case 1:
		os.WriteFile(f, nil, 0600)
	case 2:
		os.WriteFile(f, b[:w.rng.n(len(b)-2)], 0600)
	case 3:
		os.WriteFile(f, randBytes(w.rng, 1+w.rng.n(300)), 0600)
	case 4:
		for i := 0; i < 200; i++ {
			x := append([]byte(nil), b...)
			x[w.rng.n(len(x))] ^= 1 << uint(w.rng.n(8))
			if !json.Valid(x) {
				os.WriteFile(f, x, 0600)
				break
			}
		}
	case 5:
		os.Remove(f)
		os.Mkdir(f, 0700)
	case 6:
		os.WriteFile(f, b[1+w.rng.n(len(b)-2):], 0600)
	case 7:
		os.WriteFile(f, make([]byte, len(b)), 0600)
	}
	delete(w.fs.files, filepath.Clean(f))
	if x, err := os.ReadFile(f); err == nil && json.Valid(x) && len(x) > 0 {
		os.WriteFile(f, b, 0600)
		return false
	}
	w.faults["state_file_"+names[kind]]++
	w.tr("state file %s: %s", f, names[kind])
	return true
}

// -------------------------------------------------------------- running the signer

func (c *cliRun) serve() {
	w, nd := c.w, c.nd
	b := c.snap()
	if b.cfg == nil {
		return
	}
	nd.chain = b.cfg.ChainID
	cos := b.cfg.CosignerConfig != nil
	nd.args = []string{"signer", "start"}
	if cos {
		nd.args = []string{"cosigner", "start"}
		if !usualPeers(b.cfg) {
			return
		}
	}
	var ls []*link
	if !cos {
		for k := 1; k <= 5; k++ {
			for _, x := range b.cfg.ChainNodes {
				if x.PrivValAddr == fmt.Sprintf("tcp://10.0.1.%d:1234", k) {
					s := w.addSentry(k)
					s.listen()
					ls = append(ls, w.addLink(s, nd))
				}
			}
		}
		if len(ls) == 0 {
			return
		}
	}
	unread := c.it.A == 3 && c.it.Ev == "ropen:share"
	c.ioerr()
	go w.start(nd)
	time.Sleep(time.Duration(800+w.rng.n(800)) * time.Millisecond)
	w.stats["cli_starts"]++
	lost := c.m.Damaged || unread && nd.ioHit
	if unread && nd.ioHit {
		c.fault = "io_error"
		w.faults["state_unreadable"]++
	}
	if nd.alive && !nd.up {
		time.Sleep(2 * time.Second)
	}
	if !nd.alive {
		w.stats["cli_start_refused"]++
		if cos && !lost && c.fault == "" {
			st, err := b.state(b.cfg.ChainID, "share")
			w.tr("cosigner did not start: %d %.200q (share state %v %v)", nd.exitCode, nd.exitWhy, st, err)
		}
	}
	m := c.mark(b.cfg.ChainID, "share")
	if !cos {
		m = c.mark(b.cfg.ChainID, "priv")
	}
	probe := func(q plan.Req) bool {
		if !nd.alive {
			return false
		}
		if cos {
			return c.shareProbe(&q)
		}
		return w.ask(ls[w.rng.n(len(ls))], q).ok
	}
	kinds := []string{"proposal", "prevote", "precommit"}
	if nd.alive {
		prop := w.p.Prop
		if prop == "C20" && !lost {
			prop = "C18"
		}
		for i := 0; i < int(c.it.D) && nd.alive && m.H > 0; i++ {
			q := plan.Req{Kind: kinds[w.rng.n(3)], H: m.H, R: m.R, V: 7, Pol: -1, TO: 3000}
			switch w.rng.n(4) {
			case 0:
				q.H -= 1 + w.rng.n64(min(m.H, 5))
				q.R = w.rng.n64(3)
			case 1:
				q.R = w.rng.n64(m.R + 1)
			case 2:
				q.H = w.rng.n64(m.H + 1)
				q.R += w.rng.n64(3)
			}
			if q.H < 1 {
				q.H = 1
			}
			if m.less(hrs{q.H, q.R, stepOf(q.Kind)}) {
				continue
			}
			w.stats["low_probes"]++
			if probe(q) {
				sig := "low-signed"
				if lost {
					w.violate("C20", "signed", "without its share sign state the cosigner signed %v", hrs{q.H, q.R, stepOf(q.Kind)})
				} else {
					w.violate(prop, sig, "a signer started after the commands signed %v although its watermark was %v", hrs{q.H, q.R, stepOf(q.Kind)}, m)
				}
			}
		}
		q := plan.Req{Kind: kinds[w.rng.n(3)], H: m.H + 1 + w.rng.n64(4), V: 1, Pol: -1, TO: 5000}
		if probe(q) {
			w.stats["high_signed"]++
			if lost {
				w.violate("C20", "signed", "without its share sign state the cosigner signed %v", hrs{q.H, q.R, stepOf(q.Kind)})
			}
		} else if nd.alive {
			w.stats["high_refused"]++
		}
	}
	if nd.alive {
		switch w.rng.n(3) {
		case 0:
			w.interrupt(nd)
			for i := 0; i < 100 && nd.alive; i++ {
				time.Sleep(100 * time.Millisecond)
			}
			w.kill(nd, false, false)
		case 1:
			w.kill(nd, false, false)
		case 2:
			w.kill(nd, true, true)
		}
	}
	a := c.snap()
	if string(a.cfgRaw) != string(b.cfgRaw) {
		w.violate("C18", "start-config", "starting the signer changed the configuration")
	}
	if c.m.Damaged {
		c.it.S = strings.Join(nd.args, " ")
		c.checkStillLost(a)
		return
	}
	if unread && c.fault == "io_error" {
		st, err := a.state(nd.chain, "share")
		if _, had := c.m.Wm[nd.chain+"|share"]; had && (err != nil || st.hrs.less(c.mark(nd.chain, "share"))) {
			w.violate("C20", "replaced", "a start during which the share sign state could not be read left it at %v (%v), it was %v", st, err, c.mark(nd.chain, "share"))
		}
	}
	c.readMarks(a)
}

// usualPeers: the cluster is complete, as the cosigner expects it.
func usualPeers(y *yConfig) bool {
	var ids []int
	for _, p := range y.CosignerConfig.Peers {
		ids = append(ids, p.ShareID)
	}
	sort.Ints(ids)
	return reflect.DeepEqual(ids, []int{2, 3}) && y.CosignerConfig.Threshold == 2 && y.CosignerConfig.P2PListen == "tcp://10.0.0.1:2222"
}

// shareProbe asks the cosigner for a share signature as a leading peer does.
func (c *cliRun) shareProbe(q *plan.Req) bool { return c.shareProbeFrom(2, q) }

func (c *cliRun) shareProbeFrom(src int, q *plan.Req) bool {
	w, nd := c.w, c.nd
	hr := &hproto.HRST{Height: q.H, Round: q.R, Step: int32(stepOf(q.Kind)), Timestamp: tsOf(q).UnixNano()}
	x := randScalar(w.rng)
	pub := tsed25519.ScalarMultiplyBase(x)
	enc := encryptTo(c.own(), x)
	part := &hproto.EphemeralSecretPart{SourceID: int32(src), DestinationID: int32(c.own()), SourceEphemeralSecretPublicKey: pub, EncryptedSharePart: enc,
		SourceSig: signPart(rsaKeys[src-1], src, pub, enc)}
	w.o.issued[partKey(part)] = true
	ok := false
	w.withConn(nd.h, func(ctx context.Context, cc *grpc.ClientConn) {
		cl := hproto.NewCosignerGRPCClient(cc)
		if _, err := cl.GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: hr}); err != nil {
			return
		}
		r, err := cl.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
			EncryptedSecrets: []*hproto.EphemeralSecretPart{part}, Hrst: hr, SignBytes: signBytesOf(q)})
		ok = err == nil && len(r.Signature) > 0
	})
	return ok
}
