//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"net"

	homedir "github.com/mitchellh/go-homedir"
	"github.com/spf13/viper"
	"github.com/strangelove-ventures/horcrux/cmd/horcrux/cmd"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
)

// rng is the harness's own seeded stream (independent of the scheduler's).
type rng struct{ s uint64 }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int       { return int(r.u64() % uint64(k)) }
func (r *rng) n64(k int64) int64 { return int64(r.u64() % uint64(k)) }

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// node is one machine running horcrux.
type node struct {
	id          int
	name        string
	dir         string // configuration directory
	cli         bool   // a command, not a daemon
	run         func() // instead of the command line
	h           *host
	nid         int32 // current incarnation
	alive       bool
	inc         int
	ready       chan struct{} // closed when started or dead
	up          bool          // signal handler installed: start-up completed
	sigs        []sigReg
	stalledTill int64
	args        []string
	env         string // HOME
	envHome     string // HOME of the next process, if it differs

	exitCode int
	exitWhy  string
	wantDead bool   // crash/stop asked by the plan
	ioHit    bool   // an I/O error was injected into this incarnation
	lost     bool   // its share sign state was lost or damaged
	repl     streak // accepted raft replication messages to or from it
	lostNid  int32  // the incarnation that ran before that
	chain    string // configured chain, if not the usual one
	held     bool   // do not restart automatically

	ioerrs        []ioFault
	diskDelay     int64
	diskSlowUntil int64
	skew          int64
	raftFiles     []*os.File

	last    map[string]hrs // last good on-disk state per class
	lastTs  map[string]int64
	damaged map[string]bool
	out     bytes.Buffer
	outAll  bytes.Buffer
	exited  chan struct{}
}

type trig struct {
	it    plan.Item
	seen  int
	fired bool
}

type world struct {
	p          *plan.Plan
	rng        *rng
	net        *netSim
	fs         *fsSim
	t0         int64
	nodes      []*node // index 1..n
	byNid      map[int32]*node
	nextNid    int32
	startMu    chan struct{}
	stats      map[string]int
	faults     map[string]int
	firedM     map[int]bool
	trigs      map[string][]*trig
	viol       []plan.Violation
	violSet    map[string]bool
	trace      []string
	states     map[string]bool
	nRPC       int
	leader     int // id of the cosigner that last sent entries
	leaderAt   int64
	harness    string
	otherRuns  bool // a signer process runs on the machine of the command
	quiet      bool // final phase: faults are over
	cur        *node
	o          *oracles
	links      map[[2]int]*link
	sentries   map[int]*sentry
	onReady    []func()
	verbose    bool
	curRPC     *rpc
	curBody    []byte
	faultUntil int64
	nStall     int
	done       bool
	cli        *cliRun
	shardRun   *shardRun
	more       bool
}

func newWorld(p *plan.Plan, seed uint64) *world {
	r := &rng{s: seed*0x9e3779b97f4a7c15 + 77}
	w := &world{p: p, rng: r, byNid: map[int32]*node{}, nextNid: 1, startMu: make(chan struct{}, 1),
		stats: map[string]int{}, faults: map[string]int{}, firedM: map[int]bool{}, trigs: map[string][]*trig{},
		violSet: map[string]bool{}, states: map[string]bool{}, links: map[[2]int]*link{}, sentries: map[int]*sentry{}}
	w.net = newNet(&rng{s: seed ^ 0x5555})
	w.net.latMin, w.net.latMax = p.LatMin*1000, p.LatMax*1000
	w.net.spikePm, w.net.spikeNs = p.SpikePm, p.SpikeMs*1e6
	w.net.split = p.Split
	w.net.onConn = func(c *simConn) {
		w.installTap(c)
	}
	// a command line tool has read its arguments and configuration when it dials
	w.net.onDial = func(nid int32) {
		if n := w.byNid[nid]; n != nil && n.cli {
			w.closeReady(n)
		}
	}
	w.fs = &fsSim{w: w, files: map[string]*fnode{}}
	w.t0 = now()
	w.nodes = make([]*node, 1)
	w.o = newOracles(w)
	return w
}

func (w *world) ms() int64 { return (now() - w.t0) / 1e6 }

func (w *world) tr(f string, a ...any) {
	s := fmt.Sprintf("%d.%03d ", w.ms(), (now()-w.t0)/1000%1000) + fmt.Sprintf(f, a...)
	h := sha256.Sum256([]byte(s))
	runtime.SimMixIn(uint64(h[0])<<32 | uint64(h[1])<<24 | uint64(h[2])<<16 | uint64(h[3])<<8 | uint64(h[4]))
	if len(w.trace) < 4000 {
		w.trace = append(w.trace, s)
	}
	if w.verbose {
		rawErr(s)
		rawErr("\n")
	}
}

// rawErr writes without allocating and without entering the scheduler.
func rawErr(s string) {
	if len(s) > 0 {
		syscall.RawSyscall(syscall.SYS_WRITE, 2, uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(len(s)))
	}
}

func (w *world) violate(prop, sig, f string, a ...any) {
	key := prop + "|" + sig
	msg := fmt.Sprintf(f, a...)
	for _, n := range w.nodes {
		if n != nil && n.alive && runtime.SimNoted(n.nid) {
			msg += " [after a lost reconnection of grpc at " + n.name + "]"
		}
		if n != nil && n.alive && runtime.SimXfers(n.nid) > 0 {
			msg += " [after a stuck transfer of raft at " + n.name + "]"
		}
	}
	w.tr("VIOLATION %s %s: %s", prop, sig, msg)
	if w.violSet[key] {
		return
	}
	w.violSet[key] = true
	if w.p.Verbose == 3 && len(w.viol) == 0 {
		b := make([]byte, 1<<24)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
	w.viol = append(w.viol, plan.Violation{Prop: prop, Sig: sig, Msg: msg, At: w.ms()})
}

func (w *world) fired(id int) {
	w.firedM[id] = true
}

func (w *world) installHooks() {
	os.SimHooks = w.fs
	net.SimDial = w.net.hookDial
	net.SimListen = w.net.hookListen
	w.net.onWrite = w.onConnWrite
	signal.SimNotify = func(c chan<- os.Signal, sig []os.Signal) {
		nd := enter()
		if n := w.byNid[nd]; n != nil {
			n.sigs = append(n.sigs, sigReg{c, append([]os.Signal(nil), sig...)})
			n.up = true
			w.closeReady(n)
		}
		leave(nd)
	}
	exec.SimOutput = func(c *exec.Cmd) ([]byte, error) {
		if !strings.Contains(strings.Join(c.Args, " "), "pgrep") {
			return nil, nil
		}
		// it finds the calling process as well
		l := []string{fmt.Sprint(os.Getpid())}
		if w.otherRuns {
			l = append(l, []string{"4711", "17"}[w.rng.n(2)])
			if w.rng.n(2) == 0 {
				l[0], l[1] = l[1], l[0]
			}
		}
		return []byte(strings.Join(l, "\n") + "\n"), nil
	}
	runtime.SimCrash = func(nid int32, reason any, code int) {
		n := w.byNid[nid]
		if n == nil {
			w.harness = fmt.Sprintf("harness goroutine of unknown node %d died: %v", nid, reason)
			return
		}
		w.died(n, nid, fmt.Sprint(reason), code)
	}
}

func (w *world) closeReady(n *node) {
	if n.ready != nil {
		close(n.ready)
		n.ready = nil
	}
}

// died: the process ended by itself (panic, fatal error, exit).
func (w *world) died(n *node, nid int32, why string, code int) {
	if n.nid != nid || !n.alive {
		return
	}
	runtime.SimKill(nid)
	if len(why) > 300 {
		why = why[:300]
	}
	w.tr("node %s (nid %d) ended: code=%d %s", n.name, nid, code, why)
	w.stats["proc_end_"+strconv.Itoa(code)]++
	n.exitCode, n.exitWhy = code, why
	w.cleanup(n, false)
	w.o.onDeath(n, why, code)
	if code != 0 && !n.held && !n.cli && w.p.Mode != "cli" && !n.wantDead {
		inc := n.inc
		time.AfterFunc(3*time.Second, func() {
			if !n.alive && n.inc == inc && !n.held && !n.wantDead && !n.h.down {
				w.stats["auto_restart"]++
				go w.start(n)
			}
		})
	}
}

func (w *world) cleanup(n *node, power bool) {
	n.alive = false
	n.up = false
	w.net.killNode(n.nid, w.rng.n(2) == 0)
	for _, f := range n.raftFiles {
		syscall.Flock(int(f.Fd()), syscall.LOCK_UN)
	}
	n.raftFiles = nil
	n.sigs = nil
	n.ioerrs = nil
	if power {
		w.fs.powerLoss(n.dir)
	}
	w.checkFiles(n, "after process end")
	w.closeReady(n)
	if n.exited != nil {
		close(n.exited)
		n.exited = nil
	}
}

// kill: crash asked for by the plan.
func (w *world) kill(n *node, power, hostdown bool) {
	if !n.alive {
		return
	}
	w.tr("kill %s nid=%d power=%v hostdown=%v", n.name, n.nid, power, hostdown)
	runtime.SimKill(n.nid)
	n.wantDead = true
	n.exitWhy = "killed"
	if hostdown {
		w.net.hostDown(n.h)
	}
	w.cleanup(n, power)
}

type sigReg struct {
	c   chan<- os.Signal
	sig []os.Signal
}

func (w *world) interrupt(n *node) { w.signal(n, os.Interrupt) }

// signal delivers a signal; one that nobody registered for ends the process.
func (w *world) signal(n *node, sig os.Signal) {
	if !n.alive {
		return
	}
	n.wantDead = true
	got := false
	for _, r := range n.sigs {
		if len(r.sig) > 0 && !slices.Contains(r.sig, sig) {
			continue
		}
		got = true
		select {
		case r.c <- sig:
		default:
		}
	}
	if !got {
		w.died(n, n.nid, "signal: "+sig.String(), 128)
	}
}

// stopBound is how long a signer may take to end after a termination signal.
const stopBound = 30e9

// stopping is the C23 oracle: the process ends by itself, in time, without an error.
func (w *world) stopping(n *node, inc int, exited chan struct{}) {
	end := now() + stopBound
	for {
		t := time.NewTimer(time.Second)
		select {
		case <-exited:
			t.Stop()
			if n.inc != inc {
				return
			}
			w.stats["stop_signals"]++
			if n.exitCode > 0 && !n.ioHit && w.p.Mode != "kv" {
				w.violate("C23", "unclean", "%s was told to stop and ended with code %d: %.200s; output: %s", n.name, n.exitCode, n.exitWhy, lastLines(n.out.String(), 3))
			}
			return
		case <-t.C:
		}
		// a frozen process cannot end
		if x := n.stalledTill + 10e9; x > end {
			end = x
		}
		if w.done {
			return
		}
		if now() > end && n.ioHit == false && n.diskDelay == 0 {
			w.violate("C23", "hang", "%s still runs %d s after it was told to stop; %s", n.name, int64(stopBound/1e9), w.describe())
			return
		}
	}
}

// start runs one process of the node and waits until it is up or dead.
func (w *world) start(n *node) bool {
	w.startMu <- struct{}{}
	defer func() { <-w.startMu }()
	if n.alive {
		return true
	}
	if n.held && n.id > 0 {
		return false // meant to stay down since this start was asked for
	}
	if w.p.Mode == "cluster" && n.id > 0 && !w.present(n.id) {
		return false
	}
	if n.h.down {
		w.net.hostUp(n.h)
	}
	nid := w.nextNid
	w.nextNid++
	if nid >= 1000 {
		w.harness = "too many processes"
		return false
	}
	n.nid = nid
	n.inc++
	n.alive, n.up, n.wantDead, n.ioHit = true, false, false, false
	n.exitCode, n.exitWhy = -1, ""
	n.out.Reset()
	w.byNid[nid] = n
	w.net.byNid[nid] = n.h
	if !n.cli {
		n.h.nid = nid
	}
	runtime.SimSetSkew(nid, n.skew)
	ready := make(chan struct{})
	n.ready = ready
	n.exited = make(chan struct{})
	os.Args = append([]string{"horcrux"}, n.args...)
	os.Setenv("HOME", n.env)
	if n.envHome != "" {
		os.Setenv("HOME", n.envHome)
	}
	homedir.DisableCache = true
	viper.Reset()
	w.tr("start %s nid=%d inc=%d %v", n.name, nid, n.inc, n.args)
	go func() {
		runtime.SimSetNode(nid)
		if n.run != nil {
			n.run()
		} else {
			cmd.Execute()
		}
		runtime.SimParkIfDead()
		runtime.SimSetNode(0)
		w.died(n, nid, "returned", 0)
	}()
	<-ready
	return n.alive
}

// tick runs background harness duties.
func (w *world) ticker() {
	for {
		time.Sleep(50 * time.Millisecond)
		if nid, msg := runtime.SimTakeFatal(); nid != 0 {
			if n := w.byNid[nid]; n != nil && n.nid == nid && n.alive {
				w.died(n, nid, "fatal error: "+msg, 2)
			}
		}
	}
}

func (w *world) output(n *node, b []byte) {
	n.out.Write(b)
	if n.out.Len() > 1<<20 {
		x := n.out.Bytes()
		k := append([]byte(nil), x[len(x)-1<<19:]...)
		n.out.Reset()
		n.out.Write(k)
	}
	w.o.scan(n, "console output", b)
	if w.p.Prop == "C19" && n.outAll.Len() < 8<<20 {
		n.outAll.Write(b)
	}
	if w.p.Verbose == 2 && len(b) > 0 {
		rawErr("    [")
		rawErr(n.name)
		rawErr("] ")
		rawErr(unsafe.String(&b[0], len(b)))
	}
}

func (w *world) onConnWrite(c *simConn, b []byte) {
	if c.nid != 0 && c.raddr.Port != 1234 && c.laddr.Port != 1234 {
		if n := w.byNid[c.nid]; n != nil {
			w.o.scan(n, "network", b)
		}
	}
}

// ------------------------------------------------------------ state files

type hrs struct {
	H, R int64
	S    int8
}

func (a hrs) less(b hrs) bool {
	if a.H != b.H {
		return a.H < b.H
	}
	if a.R != b.R {
		return a.R < b.R
	}
	return a.S < b.S
}

type diskState struct {
	hrs
	SignBytes []byte
	Signature []byte
	EphPub    []byte
}

func num(m map[string]json.RawMessage, k string) (int64, error) {
	v, ok := m[k]
	if !ok {
		return 0, fmt.Errorf("no %s", k)
	}
	return strconv.ParseInt(strings.Trim(string(v), `"`), 10, 64)
}

func parseState(b []byte) (*diskState, error) {
	m := map[string]json.RawMessage{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	h, err := num(m, "height")
	if err != nil {
		return nil, err
	}
	r, err := num(m, "round")
	if err != nil {
		return nil, err
	}
	s, err := num(m, "step")
	if err != nil {
		return nil, err
	}
	d := &diskState{hrs: hrs{h, r, int8(s)}}
	var str string
	if v, ok := m["signbytes"]; ok && json.Unmarshal(v, &str) == nil {
		if d.SignBytes, err = hex.DecodeString(str); err != nil {
			return nil, err
		}
	}
	str = ""
	if v, ok := m["signature"]; ok && json.Unmarshal(v, &str) == nil {
		d.Signature, _ = base64.StdEncoding.DecodeString(str)
	}
	str = ""
	if v, ok := m["ephemeral_public"]; ok && json.Unmarshal(v, &str) == nil {
		d.EphPub, _ = base64.StdEncoding.DecodeString(str)
	}
	return d, nil
}

const chainID = "sim-1"

func (n *node) statePath(class string) string {
	c := n.chain
	if c == "" {
		c = chainID
	}
	return filepath.Join(n.dir, "state", c+classSuffix[class])
}

// checkFiles is the C04 oracle: what is on disk now must parse and not regress.
func (w *world) checkFiles(n *node, when string) {
	for _, class := range []string{"share", "priv"} {
		last, ok := n.last[class]
		if !ok || n.damaged[class] {
			continue
		}
		w.stats["state_file_checks"]++
		b, exists := w.fs.durableContent(n.statePath(class))
		raw, rerr := os.ReadFile(n.statePath(class))
		if rerr != nil || !exists {
			w.violate("C04", "missing:"+class, "%s: %s state file is missing %s (exists=%v)", n.name, class, when, rerr == nil)
			n.damaged[class] = true
			continue
		}
		for i, x := range [][]byte{raw, b} {
			st, err := parseState(x)
			if err != nil {
				w.violate("C04", "corrupt:"+class, "%s: %s state file does not parse %s (%s): %v %.60q", n.name, class, when, []string{"current content", "durable content"}[i], err, x)
				n.damaged[class] = true
				break
			}
			if i == 0 && st.hrs.less(last) {
				w.violate("C04", "regress:"+class, "%s: %s state file went back from %v to %v %s", n.name, class, last, st.hrs, when)
			}
			if i == 1 && st.hrs.less(last) {
				w.violate("C04", "regress-durable:"+class, "%s: durable %s state would go back from %v to %v %s", n.name, class, last, st.hrs, when)
			}
			if i == 0 && last.less(st.hrs) {
				n.last[class] = st.hrs
				n.lastTs[class] = now()
			}
		}
	}
}

func (n *node) diskState(w *world, class string) (*diskState, error) {
	b, ok := w.fs.durableContent(n.statePath(class))
	if !ok {
		return nil, os.ErrNotExist
	}
	return parseState(b)
}
