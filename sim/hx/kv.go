//go:build go1.22

package main

// The replicated key-value store (C13): real RaftStore instances on every
// node, a recorded history of operations and reads, and a small model of what
// a history may look like.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	tmlog "github.com/tendermint/tendermint/libs/log"
)

type kvOp struct {
	id       int
	key, val string // val "" = delete
	node     int
	nid      int32
	inv, end int64 // end 0: outcome unknown
	acked    bool
	err      string
}

type kvRead struct {
	node int
	nid  int32
	key  string
	val  string
	inv  int64
	at   int64
}

type kvModel struct {
	ops    []*kvOp
	byVal  map[string]*kvOp
	reads  []kvRead
	stores map[int32]*signer.RaftStore
}

func (w *world) kvNode(nd *node) {
	p := w.p
	nd.run = func() {
		key := signer.CosignerKey{PubKey: valPub, ShareKey: shares[nd.id-1], RSAKey: *rsaKeys[nd.id-1], ID: nd.id}
		ss, err := signer.LoadOrCreateSignState(nd.statePath("share"))
		must(err)
		ps, err := signer.LoadOrCreateSignState(nd.statePath("priv"))
		must(err)
		var cos []signer.Cosigner
		peers := []signer.CosignerPeer{{ID: nd.id, PublicKey: rsaKeys[nd.id-1].PublicKey}}
		for j := 1; j <= p.N; j++ {
			if j != nd.id {
				cos = append(cos, signer.NewRemoteCosigner(j, fmt.Sprintf("tcp://10.0.0.%d:2222", j)))
				peers = append(peers, signer.CosignerPeer{ID: j, PublicKey: rsaKeys[j-1].PublicKey})
			}
		}
		addr := fmt.Sprintf("tcp://10.0.0.%d:2222", nd.id)
		lc := signer.NewLocalCosigner(signer.LocalCosignerConfig{CosignerKey: key, SignState: &ss, RsaKey: key.RSAKey, Address: addr,
			Peers: peers, Total: uint8(p.N), Threshold: uint8(p.T)})
		logger := tmlog.NewTMLogger(tmlog.NewSyncWriter(os.Stdout))
		dir := filepath.Join(nd.dir, "raft")
		must(os.MkdirAll(dir, 0700))
		rs := signer.NewRaftStore(fmt.Sprint(nd.id), dir, addr, 1500*time.Millisecond, logger, lc, cos)
		rs.SetThresholdValidator(signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: valPub, Threshold: p.T, SignState: ps,
			Cosigner: lc, Peers: cos, RaftStore: rs, Logger: logger}))
		must(rs.Start())
		nid := enter()
		w.o.kv.stores[nid] = rs
		nd.up = true
		w.closeReady(nd)
		leave(nid)
		select {}
	}
}

// kvDo performs one operation on a node, as code running inside that node.
func (w *world) kvDo(nd *node, key, val string) *kvOp {
	m := w.o.kv
	op := &kvOp{id: len(m.ops), key: key, val: val, node: nd.id, nid: nd.nid, inv: now()}
	rs := m.stores[nd.nid]
	if !nd.alive || rs == nil {
		return nil
	}
	if t := int(w.p.O("trail")); t > 0 {
		// see compact() in the generator
		k := 0
		for _, o := range m.ops {
			if o.node != nd.id {
				continue
			}
			if o.acked {
				k = 0
			} else if o.err != "not leader" {
				k++
			}
		}
		if key[0] == 'k' && k > t/2 {
			w.stats["kv_held_back"]++
			return nil
		}
	}
	m.ops = append(m.ops, op)
	if val != "" {
		m.byVal[val] = op
	}
	nid := nd.nid
	go func() {
		runtime.SimSetNode(nid)
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r) // store not open yet
				}
			}()
			if val == "" {
				err = rs.Delete(key)
			} else {
				err = rs.Set(key, val)
			}
		}()
		runtime.SimParkIfDead()
		runtime.SimSetNode(0)
		op.end = now()
		op.acked = err == nil
		if err != nil {
			op.err = err.Error()
			w.stats["kv_errors"]++
		} else {
			w.stats["kv_acked"]++
			w.kvReadNow(nd, nid, key)
		}
		w.tr("kv n%d %s=%q -> acked=%v %s (%dms)", nd.id, key, val, op.acked, op.err, (op.end-op.inv)/1e6)
	}()
	return op
}

func (w *world) kvReadNow(nd *node, nid int32, key string) string {
	m := w.o.kv
	rs := m.stores[nid]
	if rs == nil || runtime.SimDead(nid) {
		return "?"
	}
	inv := now()
	runtime.SimSetNode(nid)
	v, err := rs.Get(key)
	runtime.SimParkIfDead()
	runtime.SimSetNode(0)
	if err != nil {
		return "?"
	}
	w.stats["kv_reads"]++
	if len(m.reads) < 200000 {
		m.reads = append(m.reads, kvRead{nd.id, nid, key, v, inv, now()})
	}
	return v
}

func (w *world) kvKeys() []string {
	set := map[string]bool{}
	for _, op := range w.o.kv.ops {
		set[op.key] = true
	}
	return sortedKeys(set)
}

func (w *world) runKV() {
	p := w.p
	makeKeys(p.Seed, p.T, p.N)
	w.o.kv = &kvModel{byVal: map[string]*kvOp{}, stores: map[int32]*signer.RaftStore{}}
	for i := 1; i <= p.N; i++ {
		nd := w.newNode(i, fmt.Sprintf("n%d", i), fmt.Sprintf("10.0.0.%d", i), i)
		w.writeHome(nd, p.N, p.T, nil)
		w.kvNode(nd)
		w.nodes = append(w.nodes, nd)
	}
	for _, n := range w.nodes[1:] {
		go w.start(n)
	}
	w.loadItems()
	w.sleepUntil(p.Horizon)
	w.stopFaults()
	for _, n := range w.nodes[1:] {
		n.held = false
		if !n.alive {
			go w.start(n)
		}
	}
	w.kvFinal()
}

func (w *world) kvFinal() {
	// a write must go through again
	start := now()
	seq := 0
	var last *kvOp
	for now()-start < 120e9 {
		ls := w.leaders()
		if len(ls) > 0 {
			seq++
			// a key of its own: an earlier attempt may take effect after this one
			op := w.kvDo(w.nodes[ls[0]], fmt.Sprintf("final%d", seq), fmt.Sprintf("fin%d", seq))
			for t := 0; op != nil && op.end == 0 && t < 300; t++ {
				time.Sleep(20 * time.Millisecond)
			}
			if op != nil && op.acked {
				last = op
				break
			}
		}
		time.Sleep(time.Second)
	}
	if last == nil {
		w.violate("C13", "unavailable", "no write was acknowledged within 120 s in a quiet cluster; %s", w.describe())
		return
	}
	// everybody gets it
	synced := func() bool {
		for _, n := range w.nodes[1:] {
			if w.kvReadNow(n, n.nid, last.key) != last.val {
				return false
			}
		}
		return true
	}
	end := now() + 60e9
	for !synced() && now() < end {
		time.Sleep(500 * time.Millisecond)
	}
	if !synced() {
		for _, n := range w.nodes[1:] {
			if v := w.kvReadNow(n, n.nid, last.key); v != last.val {
				w.violate("C13", "not-replicated", "n%d reads %q for the key %q 60 s after %q was acknowledged in a quiet cluster", n.id, v, last.key, last.val)
			}
		}
	}
	// agreement and the last acknowledged value
	for _, k := range w.kvKeys() {
		vals := map[string][]string{}
		var first string
		for i, n := range w.nodes[1:] {
			v := w.kvReadNow(n, n.nid, k)
			vals[v] = append(vals[v], fmt.Sprintf("n%d", n.id))
			if i == 0 {
				first = v
			}
		}
		if len(vals) > 1 {
			var d []string
			for _, v := range sortedKeys(vals) {
				d = append(d, fmt.Sprintf("%q at %s", v, strings.Join(vals[v], ",")))
			}
			w.violate("C13", "disagree", "after quiescence the nodes disagree on %q: %s", k, strings.Join(d, "; "))
		}
		w.kvCheckValue(k, first, now(), now(), "final value")
	}
	w.kvHistory()
}

// kvCheckValue: v read at [inv,at] by a node that is up to date.
func (w *world) kvCheckValue(k, v string, inv, at int64, what string) {
	m := w.o.kv
	if v != "" {
		wr := m.byVal[v]
		if wr == nil || wr.key != k {
			w.violate("C13", "invented", "%s of %q is %q, which was never written there", what, k, v)
			return
		}
		if !wr.acked {
			w.stats["kv_unacked_took_effect"]++
			return // may have taken effect at any time
		}
		for _, o := range m.ops {
			if o.key == k && o.acked && o.inv > wr.end && o.end < inv {
				w.violate("C13", "lost", "%s of %q is %q (acknowledged t=%dms) although %q was acknowledged later (t=%d..%dms)", what, k, v, (wr.end-w.t0)/1e6, o.val, (o.inv-w.t0)/1e6, (o.end-w.t0)/1e6)
				return
			}
		}
		return
	}
	// absent: no acknowledged set may be definitely last
	for _, s := range m.ops {
		if s.key != k || s.val == "" || !s.acked || s.end >= inv {
			continue
		}
		covered := false
		for _, d := range m.ops {
			if d.key == k && d.val == "" && (d.end == 0 || !d.acked || d.end > s.inv) && d.inv < at {
				covered = true
			}
		}
		if !covered {
			w.violate("C13", "lost", "%q has no value (%s) although the set of %q was acknowledged at t=%dms and nothing deleted it", k, what, s.val, (s.end-w.t0)/1e6)
			return
		}
	}
}

// kvHistory: all reads of all incarnations must fit one order of writes.
func (w *world) kvHistory() {
	m := w.o.kv
	type seqKey struct {
		nid int32
		key string
	}
	seqs := map[seqKey][]kvRead{}
	var order []seqKey
	for _, r := range m.reads {
		k := seqKey{r.nid, r.key}
		if _, ok := seqs[k]; !ok {
			order = append(order, k)
		}
		seqs[k] = append(seqs[k], r)
	}
	before := map[string]string{} // "key|a|b" -> who saw a before b
	for _, k := range order {
		var seen []string
		prev := "\x00"
		for _, r := range seqs[k] {
			if r.val != "" {
				if op := m.byVal[r.val]; op == nil || op.key != r.key || op.inv > r.at {
					w.violate("C13", "invented", "n%d read %q for %q, which nobody had written", r.node, r.val, r.key)
					return
				}
			}
			if r.val == prev {
				continue
			}
			prev = r.val
			if r.val == "" {
				continue
			}
			for _, s := range seen {
				if s == r.val {
					w.violate("C13", "went-back", "n%d read %q for %q again after other values", r.node, r.val, r.key)
					return
				}
				if x, ok := before[r.key+"|"+r.val+"|"+s]; ok {
					w.violate("C13", "order", "n%d read %q before %q for %q, %s saw them the other way round", r.node, s, r.val, r.key, x)
					return
				}
				before[r.key+"|"+s+"|"+r.val] = fmt.Sprintf("n%d", r.node)
			}
			seen = append(seen, r.val)
		}
		// order of acknowledged, non-overlapping writes
		for i := range seen {
			for j := i + 1; j < len(seen); j++ {
				a, b := m.byVal[seen[i]], m.byVal[seen[j]]
				if a.acked && b.acked && b.end < a.inv {
					w.violate("C13", "reordered", "a node applied %q before %q although %q was acknowledged before the other was started", seen[i], seen[j], seen[j])
					return
				}
			}
		}
	}
	// what the acknowledging node reads afterwards
	for _, o := range m.ops {
		if !o.acked {
			continue
		}
		for _, r := range m.reads {
			if r.nid != o.nid || r.key != o.key || r.inv < o.end || r.val == o.val {
				continue
			}
			if r.val == "" {
				del := false
				for _, d := range m.ops {
					if d.key == o.key && d.val == "" && d.inv < r.at && !(d.acked && d.end < o.inv) {
						del = true
					}
				}
				if !del {
					w.violate("C13", "ack-not-visible", "n%d acknowledged %s=%q but reads nothing afterwards", o.node, o.key, o.val)
					return
				}
				continue
			}
			x := m.byVal[r.val]
			if x != nil && x.acked && x.end < o.inv {
				w.violate("C13", "ack-not-visible", "n%d acknowledged %s=%q but reads the older %q afterwards", o.node, o.key, o.val, r.val)
				return
			}
		}
	}
}

func (w *world) kvFire(it plan.Item) {
	n := w.target(it)
	if n == nil {
		return
	}
	w.fired(it.ID)
	switch it.K {
	case "kvset", "kvdel":
		for i := int64(0); i < max(it.B, 1); i++ {
			v := ""
			if it.K == "kvset" {
				v = "v" + strconv.Itoa(it.ID) + "." + strconv.FormatInt(i, 10)
				if it.ID%9 == 4 { // a long one
					v += strings.Repeat(" <&\"\\\u00e9\u2028.", 1<<(4+uint(it.ID)/9%9))
				}
			}
			w.kvDo(n, it.S, v)
		}
	case "kvget":
		for _, k := range w.kvKeys() {
			w.kvReadNow(n, n.nid, k)
		}
	case "kvbulk": // enough entries that a lagging node needs a snapshot
		go func() {
			for i := int64(0); i < it.A; i += 64 {
				ls := w.leaders()
				if len(ls) == 0 {
					time.Sleep(200 * time.Millisecond)
					continue
				}
				var ops []*kvOp
				for j := int64(0); j < 64; j++ {
					if op := w.kvDo(w.nodes[ls[0]], fmt.Sprintf("bulk%d", (i+j)%7), fmt.Sprintf("b%d.%d", it.ID, i+j)); op != nil {
						ops = append(ops, op)
					}
				}
				for t := 0; t < 500; t++ {
					d := true
					for _, o := range ops {
						d = d && o.end != 0
					}
					if d {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
			}
			w.stats["kv_bulk_done"]++
		}()
	}
}
