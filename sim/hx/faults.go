//go:build go1.22

package main

// The fault and workload actions of a plan.

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	rapb "github.com/Jille/raftadmin/proto"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	gproto "google.golang.org/protobuf/proto"
)

func (w *world) loadItems() {
	for i := range w.p.Items {
		it := w.p.Items[i]
		if it.Ev != "" {
			w.trigs[it.Ev] = append(w.trigs[it.Ev], &trig{it: it})
			continue
		}
		time.AfterFunc(time.Duration(it.At)*time.Millisecond-time.Duration(now()-w.t0), func() {
			if !w.quiet {
				w.fire(it, nil)
			}
		})
	}
}

// event is a named point in the execution; triggers may fire at it.
func (w *world) event(ev string, nd *node) {
	w.stats["events"]++
	if w.cli != nil {
		w.cli.event(ev, nd)
		return
	}
	if w.shardRun != nil {
		w.shardRun.event(ev, nd)
		return
	}
	if w.quiet || len(w.trigs) == 0 {
		return
	}
	w.match(ev, nd)
	if strings.HasPrefix(ev, "fs:") && strings.HasSuffix(ev, ":pre") {
		w.match("fs:"+strings.Split(ev, ":")[2], nd)
	} else if strings.HasPrefix(ev, "rpc:") {
		if !strings.HasPrefix(ev, "rpc:App:") && !strings.HasPrefix(ev, "rpc:RequestVote:") {
			w.match("rpc", nd)
		}
	}
}

func (w *world) match(ev string, nd *node) {
	for _, t := range w.trigs[ev] {
		if t.fired || w.ms() < t.it.At {
			continue
		}
		if t.it.N > 0 && nd.id != t.it.N || t.it.N == -1 && nd.id != w.leader || t.it.N == -2 && nd.id == w.leader {
			continue
		}
		t.seen++
		if t.seen < t.it.Ct {
			continue
		}
		t.fired = true
		it := t.it
		it.N = nd.id
		w.tr("trigger %s at n%d", ev, nd.id)
		w.fire(it, nd)
	}
}

func (w *world) target(it plan.Item) *node {
	id := it.N
	if id == -1 {
		id = w.leader
	}
	if id < 1 || id >= len(w.nodes) {
		return nil
	}
	return w.nodes[id]
}

func (w *world) after(ms int64, f func()) {
	time.AfterFunc(time.Duration(ms)*time.Millisecond, f)
}

// fault notes that a fault took effect and until when it disturbs.
func (w *world) fault(it plan.Item, kind string, durMs int64) {
	w.faults[kind]++
	w.fired(it.ID)
	if u := now() + durMs*1e6; u > w.faultUntil {
		w.faultUntil = u
	}
}

func (w *world) restartLater(n *node, d int64) {
	inc := n.inc
	if d < 0 {
		n.held = true
		return
	}
	w.after(d, func() {
		if !n.alive && n.inc == inc && !w.done && !n.held {
			go w.start(n)
		}
	})
}

func (w *world) fire(it plan.Item, ev *node) {
	n := w.target(it)
	switch it.K {
	case "crash":
		if n == nil || !n.alive {
			return
		}
		w.fault(it, []string{"crash", "power_loss"}[it.A&1], it.D+15000)
		w.kill(n, it.A&1 == 1, it.B == 1)
		w.restartLater(n, it.D)
	case "stop":
		if n == nil || !n.alive || !n.up {
			return
		}
		w.fault(it, "stop", it.D+15000)
		ex, inc := n.exited, n.inc
		sig := os.Signal(os.Interrupt)
		if it.C == 1 {
			sig = syscall.SIGTERM
		}
		if ex != nil {
			go w.stopping(n, inc, ex)
		}
		for k := int64(1); k <= it.A; k++ {
			w.after(k*it.B, func() {
				if n.alive && n.inc == inc {
					w.signal(n, sig)
				}
			})
		}
		w.signal(n, sig)
		go func() {
			if ex != nil {
				<-ex
			}
			w.restartLater(n, it.D)
		}()
	case "part":
		if n == nil {
			return
		}
		w.partition(it, n)
	case "rst":
		if n == nil {
			return
		}
		k := 0
		if it.P == 0 {
			for _, o := range w.nodes[1:] {
				if o != n {
					k += w.net.resetBetween(n.h.idx, o.h.idx) + w.net.resetBetween(o.h.idx, n.h.idx)
				}
			}
		} else {
			k = w.net.resetBetween(n.h.idx, it.P) + w.net.resetBetween(it.P, n.h.idx)
		}
		if k > 0 {
			w.fault(it, "conn_reset", 5000)
		}
	case "slow":
		if n == nil {
			return
		}
		w.fault(it, "slow_link", it.D+5000)
		for _, h := range w.allHosts() {
			if h == n.h || it.P != 0 && h.idx != it.P {
				continue
			}
			a, b := [2]int{n.h.idx, h.idx}, [2]int{h.idx, n.h.idx}
			w.net.slow[a], w.net.slow[b] = it.A*1e6, it.A*1e6
			w.after(it.D, func() { delete(w.net.slow, a); delete(w.net.slow, b) })
		}
	case "stall":
		if n == nil || !n.alive {
			return
		}
		w.fault(it, "stall", it.D+5000)
		runtime.SimStall(n.nid, now()+it.D*1e6)
		n.stalledTill = max(n.stalledTill, now()+it.D*1e6)
		w.nStall++
		runtime.SimSetStalls(int32(w.nStall))
		w.after(it.D+1, func() { w.nStall--; runtime.SimSetStalls(int32(w.nStall)) })
		w.tr("stall n%d for %dms", n.id, it.D)
	case "skew":
		if n == nil {
			return
		}
		w.fault(it, "clock_jump", 0)
		n.skew += it.A * 1e6
		runtime.SimSetSkew(n.nid, n.skew)
		w.tr("clock of n%d jumps by %dms", n.id, it.A)
	case "slowdisk":
		if n == nil || !n.alive {
			return
		}
		w.fault(it, "slow_disk", it.D+5000)
		n.diskDelay, n.diskSlowUntil = it.A*1e6, now()+it.D*1e6
	case "mark":
		if n == nil || n.lost || n.damaged["share"] || n.damaged["priv"] {
			return
		}
		if n.alive {
			w.kill(n, false, false)
		}
		w.fault(it, "state_raised_by_hand", it.D+15000)
		w.mark(n, hrs{it.A, it.B, int8(it.C)}, it.P)
		w.restartLater(n, it.D)
	case "damage":
		if n == nil || n.lost {
			return
		}
		w.kill(n, it.B&1 == 1, false)
		if damageFile(w, n.statePath("share"), int(it.A)) {
			n.lost, n.damaged["share"] = true, true
			n.lostNid = n.nid
			w.fired(it.ID)
		}
		w.restartLater(n, it.D)
	case "ioerr":
		if n == nil || !n.alive {
			return
		}
		oc := strings.SplitN(it.S, ":", 2)
		n.ioerrs = append(n.ioerrs, ioFault{op: oc[0], class: oc[1], ct: it.Ct2(), errno: int(it.A), short: it.B == 1, sticky: it.C == 1, item: it.ID})
		if u := now() + 20e9; u > w.faultUntil {
			w.faultUntil = u
		}
	case "corrupt":
		if w.curRPC == nil || w.curBody == nil {
			return
		}
		if w.corrupt(it) {
			w.fault(it, "corrupt_message", 5000)
		}
	case "req":
		l := w.links[[2]int{it.P, it.N}]
		if it.N == -1 && n != nil {
			l = w.links[[2]int{it.P, n.id}]
		}
		if l == nil || it.Q == nil {
			return
		}
		if it.Q.H > w.o.maxAsked {
			w.o.maxAsked = it.Q.H
		}
		l.submit(it.ID, it.Q, nil)
	case "sentrydown":
		s := w.sentries[it.P]
		if s == nil || !s.up {
			return
		}
		w.faults["sentry_down"]++
		w.fired(it.ID)
		s.stop()
		w.after(it.D, func() { s.listen() })
	case "badhs":
		s := w.sentries[it.P]
		if s == nil || !s.up || now() < s.bad {
			return
		}
		w.faults["bad_handshake"]++
		w.fired(it.ID)
		s.bad, s.how = now()+it.D*1e6, it.A
		for _, l := range w.sortedLinks() {
			if l.s == s {
				l.drop()
			}
		}
		w.after(it.D, func() {
			if !w.quiet {
				s.goodAgain()
			}
		})
	case "sclose":
		if l := w.links[[2]int{it.P, it.N}]; l != nil && l.conn != nil {
			w.faults["sentry_close"]++
			w.fired(it.ID)
			l.drop()
		}
	case "rogue":
		w.fired(it.ID)
		if it.Q != nil && it.Q.H > w.o.maxAsked && (it.Q.H < 1e9 || it.Q.H-w.o.maxAsked < 1e9) {
			w.o.maxAsked = it.Q.H
		}
		go w.rogue(it)
	case "elect":
		w.faults["elect"]++
		w.fired(it.ID)
		w.faultUntil = max(w.faultUntil, now()+10e9)
		go w.elect(it.N, it.S, it.A == 1)
	case "kvset", "kvdel", "kvget", "kvbulk":
		w.kvFire(it)
	case "snapshot":
		if n == nil || !n.alive {
			return
		}
		w.fired(it.ID)
		w.stats["snapshots_asked"]++
		go w.withConn(n.h, func(ctx context.Context, c *grpc.ClientConn) {
			rapb.NewRaftAdminClient(c).Snapshot(ctx, &rapb.SnapshotRequest{})
		})
	}
}

func (w *world) allHosts() []*host {
	var out []*host
	for i := 0; i < 260; i++ {
		if h := w.net.hostIdx(i); h != nil {
			out = append(out, h)
		}
	}
	return out
}

// partition: A=0 isolate n, 1 its output only, 2 its input only, 3 n<->P, 4 groups by bit mask B.
// C=1 cuts sentries as well.
func (w *world) partition(it plan.Item, n *node) {
	var pairs [][2]int
	for _, o := range w.nodes[1:] {
		if o == n {
			continue
		}
		switch it.A {
		case 0:
			pairs = append(pairs, [2]int{n.h.idx, o.h.idx}, [2]int{o.h.idx, n.h.idx})
		case 1:
			pairs = append(pairs, [2]int{n.h.idx, o.h.idx})
		case 2:
			pairs = append(pairs, [2]int{o.h.idx, n.h.idx})
		case 3:
			if o.id == it.P {
				pairs = append(pairs, [2]int{n.h.idx, o.h.idx}, [2]int{o.h.idx, n.h.idx})
			}
		}
	}
	if it.A == 4 {
		for _, a := range w.nodes[1:] {
			for _, b := range w.nodes[1:] {
				if a != b && (it.B>>uint(a.id)&1) != (it.B>>uint(b.id)&1) {
					pairs = append(pairs, [2]int{a.h.idx, b.h.idx})
				}
			}
		}
	}
	if it.C == 1 {
		for k := range 20 {
			if s := w.sentries[k]; s != nil {
				pairs = append(pairs, [2]int{n.h.idx, s.h.idx}, [2]int{s.h.idx, n.h.idx})
			}
		}
	}
	w.fault(it, "partition", it.D+20000)
	w.tr("partition kind=%d n%d p=%d mask=%b for %dms", it.A, n.id, it.P, it.B, it.D)
	for _, p := range pairs {
		w.net.block(p[0], p[1], true)
	}
	w.after(it.D, func() {
		if w.quiet {
			return // healed by the end of the fault phase
		}
		w.tr("heal n%d", n.id)
		for _, p := range pairs {
			w.net.block(p[0], p[1], false)
		}
	})
}

// stopFaults ends every disturbance.
func (w *world) stopFaults() {
	w.quiet = true
	w.net.unblockAll()
	w.net.spikePm = 0
	if w.net.latMax > 20e6 {
		w.net.latMax = 20e6
		if w.net.latMin > w.net.latMax {
			w.net.latMin = w.net.latMax
		}
	}
	for _, n := range w.nodes[1:] {
		runtime.SimStall(n.nid, 0)
		n.diskDelay = 0
		n.ioerrs = nil
	}
	for k := range 20 {
		s := w.sentries[k]
		if s != nil {
			s.goodAgain()
		}
		if s != nil && !s.up {
			s.listen()
		}
	}
	w.tr("faults stopped")
}

// ------------------------------------------------- attacker / tool host

const toolHost = "10.0.9.9"

func (w *world) conn(h *host) (*grpc.ClientConn, error) {
	th := w.net.hosts[toolHost]
	if th == nil {
		th = w.net.addHost(toolHost, 200)
	}
	return grpc.Dial(h.name+":2222", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithContextDialer(func(ctx context.Context, a string) (net.Conn, error) {
			return w.net.dial(ctx, 0, th, "tcp", a, 0)
		}))
}

func (w *world) withConn(h *host, f func(ctx context.Context, c *grpc.ClientConn)) {
	c, err := w.conn(h)
	if err != nil {
		return
	}
	defer c.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	f(ctx, c)
}

func maskNodes(w *world, m int64, def int) []*node {
	var out []*node
	for _, n := range w.nodes[1:] {
		if m>>uint(n.id)&1 == 1 || m == 0 && (def == 0 || n.id == def) {
			out = append(out, n)
		}
	}
	return out
}

// rogue requests by somebody on the cosigner network.
//
//	steal   a full signing session for Q with the cosigners in mask B
//	replay  an earlier SetEphemeralSecretPartsAndSign request, to any node
//	remix   earlier parts with the sign bytes of Q
//	forge   a session for Q whose parts are altered (A selects how)
//	block   a SignBlock request for Q
//	bad     malformed requests (C17)
func (w *world) rogue(it plan.Item) {
	w.faults["rogue_"+it.S]++
	switch it.S {
	case "steal", "forge", "empty":
		w.steal(it)
	case "replay", "remix":
		var cand []*hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest
		for _, r := range w.o.setReqs {
			q := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
			if gproto.Unmarshal(r.req, q) == nil && (it.N == 0 || hid(r.toH) == it.N || it.A&1 == 1) {
				cand = append(cand, q)
			}
		}
		if len(cand) == 0 {
			return
		}
		back := int(it.B)
		if back >= len(cand) {
			back = len(cand) - 1
		}
		q := cand[len(cand)-1-back]
		if it.S == "remix" && it.Q != nil {
			qq := *it.Q
			if it.A&2 != 0 { // same block, other content
				qq.H, qq.R = q.Hrst.GetHeight(), q.Hrst.GetRound()
				qq.Kind = []string{"", "proposal", "prevote", "precommit"}[q.Hrst.GetStep()&3]
				if qq.Kind == "" {
					return
				}
			}
			q.SignBytes = signBytesOf(&qq)
		}
		for _, n := range maskNodes(w, 0, it.N) {
			w.withConn(n.h, func(ctx context.Context, c *grpc.ClientConn) {
				res, err := hproto.NewCosignerGRPCClient(c).SetEphemeralSecretPartsAndSign(ctx, q)
				if err == nil {
					w.stats["rogue_answers"]++
					_ = res
				} else {
					w.stats["rogue_refused"]++
				}
			})
		}
	case "block":
		if it.Q == nil {
			return
		}
		n := w.target(it)
		if n == nil {
			return
		}
		sb := signBytesOf(it.Q)
		w.withConn(n.h, func(ctx context.Context, c *grpc.ClientConn) {
			_, err := hproto.NewCosignerGRPCClient(c).SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{ChainID: chainID, Block: &hproto.Block{
				Height: it.Q.H, Round: it.Q.R, Step: int32(stepOf(it.Q.Kind)), SignBytes: sb, Timestamp: tsOf(it.Q).UnixNano()}})
			w.tr("rogue block at n%d: %v", n.id, err)
		})
	case "bad":
		n := w.target(it)
		if n == nil {
			return
		}
		w.badGRPC(n, it)
	}
}

// mark writes a higher watermark without sign bytes into a stopped node's
// state files (which: 0 both, 1 share, 2 priv).
func (w *world) mark(n *node, h hrs, which int) {
	for i, cl := range []string{"share", "priv"} {
		if which != 0 && which != i+1 {
			continue
		}
		st, err := n.diskState(w, cl)
		if err != nil || !st.hrs.less(h) {
			continue
		}
		b := fmt.Sprintf("{\n  \"height\": \"%d\",\n  \"round\": \"%d\",\n  \"step\": %d,\n  \"ephemeral_public\": null\n}", h.H, h.R, h.S)
		must(os.WriteFile(n.statePath(cl), []byte(b), 0600))
		delete(w.fs.files, filepath.Clean(n.statePath(cl)))
		n.last[cl] = h
		w.o.maxAsked = max(w.o.maxAsked, h.H)
		w.tr("n%d: %s state set to %v by hand", n.id, cl, h)
		if cl == "share" {
			w.o.shareRels[n.id] = append(w.o.shareRels[n.id], &shareRel{at: now() - 1, hrs: h, canon: "(watermark set by hand)", from: "the operator"})
		}
	}
}

// steal runs a signing session as a leader would. It returns the number of
// shares obtained.
func (w *world) steal(it plan.Item) int {
	q := it.Q
	if q == nil {
		return 0
	}
	hr := &hproto.HRST{Height: q.H, Round: q.R, Step: int32(stepOf(q.Kind)), Timestamp: tsOf(q).UnixNano()}
	msg := signBytesOf(q)
	targets := maskNodes(w, it.B, it.N)
	if len(targets) == 0 {
		return 0
	}
	conns := map[int]*grpc.ClientConn{}
	for _, n := range targets {
		if c, err := w.conn(n.h); err == nil {
			conns[n.id] = c
			defer c.Close()
		}
	}
	parts := map[int][]*hproto.EphemeralSecretPart{}
	for _, n := range targets {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		r, err := hproto.NewCosignerGRPCClient(conns[n.id]).GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: hr})
		cancel()
		if err == nil {
			parts[n.id] = r.EncryptedSecrets
		}
	}
	if it.S == "forge" && it.A == 20 { // whole session invented: hold messages back a little
		time.Sleep(time.Duration(w.rng.n(2000)) * time.Millisecond)
	}
	var ids []int
	var sigs [][]byte
	var R []byte
	for _, n := range targets {
		var ps []*hproto.EphemeralSecretPart
		var foreign []*hproto.EphemeralSecretPart
		for _, m := range targets {
			for _, p := range parts[m.id] {
				if int(p.DestinationID) == n.id {
					ps = append(ps, gproto.Clone(p).(*hproto.EphemeralSecretPart))
				} else if m != n {
					foreign = append(foreign, gproto.Clone(p).(*hproto.EphemeralSecretPart))
				}
			}
		}
		if it.S == "forge" {
			ps = w.forge(int(it.A), n, ps, foreign)
		}
		h2 := hr
		if it.S == "empty" {
			// a part addressed to somebody else creates an empty session, which is then used
			q2 := *q
			q2.Ts += 7
			h2 = &hproto.HRST{Height: hr.Height, Round: hr.Round, Step: hr.Step, Timestamp: tsOf(&q2).UnixNano()}
			msg = signBytesOf(&q2)
			if it.A == 1 {
				h2.Timestamp, h2.Height = hr.Timestamp, hr.Height
				msg = signBytesOf(q)
			}
			if len(foreign) > 0 {
				ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
				f := foreign[w.rng.n(len(foreign))]
				hproto.NewCosignerGRPCClient(conns[n.id]).SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
					EncryptedSecrets: []*hproto.EphemeralSecretPart{f}, Hrst: h2, SignBytes: msg})
				cancel()
			}
			ps = nil
		}
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
		r, err := hproto.NewCosignerGRPCClient(conns[n.id]).SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{
			EncryptedSecrets: ps, Hrst: h2, SignBytes: msg})
		cancel()
		if err == nil && len(r.Signature) > 0 {
			w.stats["rogue_shares"]++
			ids = append(ids, n.id)
			sigs = append(sigs, r.Signature)
			R = r.EphemeralPublic
		} else {
			w.stats["rogue_refused"]++
		}
	}
	w.tr("rogue %s %s h=%d r=%d v=%d: %d of %d shares", it.S, q.Kind, q.H, q.R, q.V, len(ids), len(targets))
	if len(ids) >= w.p.T {
		func() {
			defer func() { recover() }()
			s := append(append([]byte(nil), R...), tsed25519.CombineShares(uint8(w.p.N), ids, sigs)...)
			if w.checkFinal(w.nodes[ids[0]], msg, s, "shares combined by a rogue leader") {
				w.stats["rogue_final"]++
			}
		}()
	}
	return len(ids)
}

// forge alters the parts of a session in way k.
func (w *world) forge(k int, n *node, ps, foreign []*hproto.EphemeralSecretPart) []*hproto.EphemeralSecretPart {
	if len(ps) == 0 {
		return ps
	}
	p := ps[w.rng.n(len(ps))]
	flip := func(b []byte) {
		if len(b) > 0 {
			b[w.rng.n(len(b))] ^= byte(1 + w.rng.n(255))
		}
	}
	w.faults["forged_part"]++
	switch k {
	case 0:
		flip(p.SourceEphemeralSecretPublicKey)
	case 1:
		flip(p.EncryptedSharePart)
	case 2:
		flip(p.SourceSig)
	case 3:
		p.SourceSig = nil
	case 4:
		p.SourceSig = []byte{}
	case 5: // attributed to another known cosigner
		for {
			id := int32(1 + w.rng.n(w.p.N))
			if id != p.SourceID {
				p.SourceID = id
				break
			}
		}
	case 6:
		p.SourceID = []int32{0, -1, 99, int32(w.p.N + 1)}[w.rng.n(4)]
	case 7: // public key of another valid part
		if len(foreign) > 0 {
			f := foreign[w.rng.n(len(foreign))]
			if f.SourceID != p.SourceID {
				p.SourceEphemeralSecretPublicKey = f.SourceEphemeralSecretPublicKey
			} else {
				flip(p.SourceEphemeralSecretPublicKey)
			}
		}
	case 8: // own encryption to the target, signature kept
		p.EncryptedSharePart = encryptTo(n.id, randScalar(w.rng))
	case 9: // everything new, signed with a key of our own
		x := randScalar(w.rng)
		p.EncryptedSharePart = encryptTo(n.id, x)
		p.SourceEphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(x)
		p.SourceSig = signPart(rsaKeys[len(rsaKeys)-1], int(p.SourceID), p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart)
	case 10: // signature of the same source for another part
		for _, f := range foreign {
			if f.SourceID == p.SourceID {
				p.SourceSig = f.SourceSig
				break
			}
		}
	case 11: // one good part repeated, then a bad one
		b := gproto.Clone(p).(*hproto.EphemeralSecretPart)
		flip(b.SourceEphemeralSecretPublicKey)
		return append(ps, b)
	case 12:
		b := gproto.Clone(p).(*hproto.EphemeralSecretPart)
		flip(b.EncryptedSharePart)
		return append([]*hproto.EphemeralSecretPart{b}, ps...)
	case 13: // truncated or extended signature / key
		if w.rng.n(2) == 0 {
			p.SourceSig = p.SourceSig[:len(p.SourceSig)-1-w.rng.n(20)]
		} else {
			p.SourceEphemeralSecretPublicKey = append(p.SourceEphemeralSecretPublicKey, 0)
		}
	case 14: // self-attributed: "made by" the target itself
		p.SourceID = int32(n.id)
	case 15: // known peer's identity, our key, absent ciphertext
		p.EncryptedSharePart = nil
	case 16: // everything new, signed with the key of another known cosigner, or of the target itself
		k := 1 + w.rng.n(w.p.N)
		if k == int(p.SourceID) {
			k = n.id
		}
		if w.rng.n(4) == 0 && k != n.id { // by a peer in the name of the target
			p.SourceID = int32(n.id)
		}
		x := randScalar(w.rng)
		p.EncryptedSharePart = encryptTo(n.id, x)
		p.SourceEphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(x)
		p.SourceSig = signPart(rsaKeys[k-1], int(p.SourceID), p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart)
	}
	return ps
}

// ------------------------------------------------- corruption in transit

func (w *world) corrupt(it plan.Item) bool {
	r, body := w.curRPC, w.curBody
	flip := func(b []byte) bool {
		if len(b) == 0 {
			return false
		}
		b[w.rng.n(len(b))] ^= byte(1 + w.rng.n(255))
		return true
	}
	var out []byte
	ok := false
	mutPart := func(ps []*hproto.EphemeralSecretPart) bool {
		if len(ps) == 0 {
			return false
		}
		p := ps[w.rng.n(len(ps))]
		switch it.A % 5 {
		case 0:
			return flip(p.SourceEphemeralSecretPublicKey)
		case 1:
			return flip(p.EncryptedSharePart)
		case 2:
			return flip(p.SourceSig)
		case 3:
			for k := 0; k < 20; k++ {
				id := int32(1 + w.rng.n(w.p.N))
				if id != p.SourceID && int(id) != hid(r.fromH) {
					p.SourceID = id
					return true
				}
			}
			return false
		default: // exchange two encrypted parts
			o := ps[w.rng.n(len(ps))]
			if o == p {
				return flip(p.EncryptedSharePart)
			}
			p.EncryptedSharePart, o.EncryptedSharePart = o.EncryptedSharePart, p.EncryptedSharePart
			return true
		}
	}
	isReq := !r.respDone
	switch short(r.method) {
	case "GetEph":
		if isReq {
			return false
		}
		q := &hproto.CosignerGRPCGetEphemeralSecretPartsResponse{}
		if gproto.Unmarshal(r.resp, q) != nil {
			return false
		}
		ok = mutPart(q.EncryptedSecrets)
		out, _ = gproto.Marshal(q)
	case "SetEph":
		if isReq {
			q := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
			if gproto.Unmarshal(r.req, q) != nil {
				return false
			}
			if it.A >= 10 {
				ok = flip(q.SignBytes)
			} else {
				ok = mutPart(q.EncryptedSecrets)
			}
			out, _ = gproto.Marshal(q)
		} else {
			q := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{}
			if gproto.Unmarshal(r.resp, q) != nil {
				return false
			}
			if it.A%2 == 0 {
				ok = flip(q.Signature)
			} else {
				ok = flip(q.EphemeralPublic)
			}
			out, _ = gproto.Marshal(q)
		}
		// the proxied answer is not altered: a follower takes the leader's word
		// (for a proposal it has nothing to check it against)
	}
	if !ok || len(out) != len(body) {
		return false
	}
	copy(body, out)
	r.corrupted = true
	if isReq {
		r.delivered = out
	}
	w.tr("corrupted %s of rpc %d %s", map[bool]string{true: "request", false: "response"}[isReq], r.id, short(r.method))
	return true
}

// ------------------------------------------------- leadership

// elect asks for a leadership transfer; via the command line tool on n's
// machine or by a direct call to the leader.
func (w *world) elect(at int, target string, cli bool) bool {
	if cli {
		if at < 1 || at >= len(w.nodes) {
			at = 1
		}
		c := w.newNode(0, fmt.Sprintf("cli%d", w.nextNid), w.nodes[at].h.name, 0)
		c.cli = true
		c.env = w.nodes[at].env
		c.args = []string{"elect"}
		if target != "" {
			c.args = append(c.args, target)
		}
		w.start(c)
		ex := c.exited
		if ex != nil {
			<-ex
		}
		w.stats["elect_cli"]++
		w.tr("elect command: exit %d %.200q", c.exitCode, lastLines(c.out.String(), 2))
		return c.exitCode == 0
	}
	l := w.leader
	if at > 0 {
		l = at
	}
	if l < 1 || l >= len(w.nodes) {
		return false
	}
	ok := false
	w.withConn(w.nodes[l].h, func(ctx context.Context, c *grpc.ClientConn) {
		_, err := hproto.NewCosignerGRPCClient(c).TransferLeadership(ctx, &hproto.CosignerGRPCTransferLeadershipRequest{LeaderID: target})
		w.tr("transfer to %q asked at n%d: %v", target, l, err)
		ok = err == nil
	})
	w.stats["elect_rpc"]++
	return ok
}

// raftStates asks every live node for its raft state.
func (w *world) leaders() []int {
	var out []int
	for _, n := range w.nodes[1:] {
		if !n.alive || n.held {
			continue
		}
		w.withConn(n.h, func(ctx context.Context, c *grpc.ClientConn) {
			r, err := rapb.NewRaftAdminClient(c).State(ctx, &rapb.StateRequest{})
			if err == nil && r.State == rapb.StateResponse_LEADER {
				out = append(out, n.id)
			}
		})
	}
	return out
}

var _ = os.Args
