//go:build go1.22

package main

// Oracles: what was observed at the wires, the disks and the sentries, checked
// against the properties.

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"strings"

	gogo "github.com/gogo/protobuf/proto"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/tendermint/tendermint/libs/protoio"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	gproto "google.golang.org/protobuf/proto"
)

var (
	orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	_         = gogo.Marshal
)

type shareRel struct {
	at     int64
	begin  int64 // arrival of the request
	hrs    hrs
	canon  string
	msg    []byte
	sig    []byte
	ephPub []byte
	from   string
	inc    int
}

type finalSig struct {
	hrs   hrs
	canon string
	msg   []byte
	sig   []byte
	where string
	at    int64
}

type oracles struct {
	w              *world
	shareRels      map[int][]*shareRel // by cosigner
	finals         map[hrs][]*finalSig
	finalByR       map[string]string // R -> msg
	nonce          map[string]string // node|k -> R|M
	issued         map[string]bool   // parts as their true dealer sent them
	partPlain      map[string]bool
	sent32         map[string]string // 32-byte values sent in protocol messages or texts: where
	setReqs        []*rpc            // SetEph requests seen (for replay)
	getResps       []*rpc
	signReqs       []*rpc
	led            map[string]map[int]bool // msg -> leaders that asked peers for shares
	answers        []*answer
	proxied        map[string]bool // nid|msg of SignBlock requests sent
	signedBy       map[string]*repeat
	secrets        []secretPat
	maxAsked       int64
	okCount        int
	parts          int
	tokens         map[string]string
	rels           []rel
	kv             *kvModel
	lastLeaderSign map[string]int64
}

type repeat struct {
	sig []byte
	nid int32
	at  int64
}

func newOracles(w *world) *oracles {
	return &oracles{w: w, shareRels: map[int][]*shareRel{}, finals: map[hrs][]*finalSig{}, finalByR: map[string]string{},
		nonce: map[string]string{}, issued: map[string]bool{}, partPlain: map[string]bool{}, sent32: map[string]string{}, led: map[string]map[int]bool{},
		proxied: map[string]bool{}, signedBy: map[string]*repeat{}, tokens: map[string]string{}, lastLeaderSign: map[string]int64{}}
}

// decode returns the HRS of sign bytes and the message without its timestamp.
func decode(b []byte) (h hrs, canon string, ok bool) {
	// the type is field 1 of every canonical message
	var v tmproto.CanonicalVote
	if err := protoio.UnmarshalDelimited(b, &v); err == nil && (v.Type == tmproto.PrevoteType || v.Type == tmproto.PrecommitType) {
		s := int8(2)
		if v.Type == tmproto.PrecommitType {
			s = 3
		}
		return hrs{v.Height, v.Round, s}, fmt.Sprintf("%v|%d|%d|%s|%s", v.Type, v.Height, v.Round, bid(v.BlockID), v.ChainID), true
	}
	var p tmproto.CanonicalProposal
	if err := protoio.UnmarshalDelimited(b, &p); err == nil {
		// (an altered type leaves a message nobody accepts; it is judged by its place all the same)
		return hrs{p.Height, p.Round, 1}, fmt.Sprintf("%v|%d|%d|%d|%s|%s", p.Type, p.Height, p.Round, p.POLRound, bid(p.BlockID), p.ChainID), true
	}
	return hrs{}, "", false
}

func bid(b *tmproto.CanonicalBlockID) string {
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%x/%d/%x", b.Hash, b.PartSetHeader.Total, b.PartSetHeader.Hash)
}

func canonNoTs(b []byte) string {
	_, c, ok := decode(b)
	if !ok {
		return ""
	}
	return c
}

func (w *world) nodeByHost(h *host) *node {
	if h == nil || h.idx < 1 || h.idx >= len(w.nodes) {
		return nil
	}
	return w.nodes[h.idx]
}

func short(m string) string {
	switch m {
	case "GetEphemeralSecretParts":
		return "GetEph"
	case "SetEphemeralSecretPartsAndSign":
		return "SetEph"
	case "TransferLeadership":
		return "Transfer"
	case "AppendEntries", "AppendEntriesPipeline":
		return "App"
	}
	return m
}

// onRPC sees every RPC message; it returns false when the connection must not
// carry on.
func (w *world) onRPC(ph string, r *rpc, body []byte) bool {
	m := short(r.method)
	o := w.o
	src, dst := w.nodeByHost(r.fromH), w.nodeByHost(r.toH)
	var actor *node // whose event it is
	switch ph {
	case "req:out-pre":
		actor = src
		if o.w.p.Prop == "C19" && src != nil && (m != "App" || len(r.req) > 200) {
			o.sentMsg(src, m+" request", r.req, 0)
		}
		if m == "App" && src != nil {
			if w.leader != src.id {
				w.leader = src.id
				w.leaderAt = now()
				w.stats["leader_changes"]++
				w.tr("leader is now n%d", src.id)
			}
		} else if m != "RequestVote" {
			w.tr("rpc %d %s n%d->n%d req", r.id, m, hid(r.fromH), hid(r.toH))
		}
		w.stats["rpc_"+m]++
		switch m {
		case "SetEph":
			o.setReqs = append(o.setReqs, r)
			o.onSetReq(r, src)
		case "SignBlock":
			if q := (&hproto.CosignerGRPCSignBlockRequest{}); gproto.Unmarshal(r.req, q) == nil && q.Block != nil {
				o.proxied[fmt.Sprint(r.from, "|", string(q.Block.SignBytes))] = true
				if src != nil {
					o.signReqs = append(o.signReqs, r)
				}
			}
		}
	case "req:in":
		actor = dst
	case "resp:out-pre":
		actor = dst
		if m != "App" && m != "RequestVote" {
			w.tr("rpc %d %s n%d->n%d resp status=%s", r.id, m, hid(r.fromH), hid(r.toH), r.status)
		}
		if r.respDone {
			if o.w.p.Prop == "C19" && dst != nil && m != "App" {
				o.sentMsg(dst, m+" response", r.resp, 0)
			}
			switch m {
			case "GetEph":
				o.getResps = append(o.getResps, r)
				o.onGetResp(r, dst)
			case "SetEph":
				o.onSetResp(r, src, dst)
			case "SignBlock":
				o.onSignResp(r, dst)
			}
		}
	case "req:out-post":
		actor = src
	case "resp:out-post":
		actor = dst
	case "resp:in":
		actor = src
		if m == "App" && src != nil && dst != nil && wireUint(r.req, 4) > 0 && wireUint(r.resp, 4) == 1 {
			// an accepted replication message (heartbeats name no entry)
			src.repl.beat()
			dst.repl.beat()
		}
	}
	if actor != nil {
		w.curRPC, w.curBody = r, body
		w.event("rpc:"+m+":"+ph, actor)
		w.curRPC, w.curBody = nil, nil
	}
	return true
}

// streak tells how long something has been going on without a pause.
type streak struct{ first, last int64 }

func (k *streak) beat() {
	if t := now(); k.last == 0 || t-k.last > 2e9 {
		k.first, k.last = t, t
	} else {
		k.last = t
	}
}

func (k *streak) since(t int64) bool { return k.last > now()-2e9 && k.first <= t }

// wireUint reads a varint field of a protobuf message.
func wireUint(b []byte, field uint64) uint64 {
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return 0
		}
		b = b[n:]
		v, n := binary.Uvarint(b)
		if n <= 0 && k&7 != 1 && k&7 != 5 {
			return 0
		}
		switch k & 7 {
		case 0:
			if k>>3 == field {
				return v
			}
			b = b[n:]
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			n += int(v)
		default:
			return 0
		}
		if k&7 != 0 {
			if n < 0 || n > len(b) {
				return 0
			}
			b = b[n:]
		}
	}
	return 0
}

func hid(h *host) int {
	if h == nil {
		return 0
	}
	return h.idx
}

func partKey(p *hproto.EphemeralSecretPart) string {
	return fmt.Sprintf("%d|%x|%x|%x", p.SourceID, p.SourceEphemeralSecretPublicKey, p.EncryptedSharePart, p.SourceSig)
}

func (o *oracles) onSetReq(r *rpc, src *node) {
	q := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
	if gproto.Unmarshal(r.req, q) != nil || src == nil {
		return
	}
	for _, p := range q.EncryptedSecrets {
		if int(p.SourceID) == src.id {
			o.issued[partKey(p)] = true
			o.checkPart(src, p)
		}
	}
	k := string(q.SignBytes)
	if o.led[k] == nil {
		o.led[k] = map[int]bool{}
	}
	o.led[k][src.id] = true
}

func (o *oracles) onGetResp(r *rpc, dst *node) {
	q := &hproto.CosignerGRPCGetEphemeralSecretPartsResponse{}
	if gproto.Unmarshal(r.resp, q) != nil || dst == nil {
		return
	}
	for _, p := range q.EncryptedSecrets {
		if int(p.SourceID) == dst.id {
			o.issued[partKey(p)] = true
		}
		o.checkPart(dst, p)
	}
	if o.w.p.Prop == "C19" {
		o.checkDealing(r, dst, q.EncryptedSecrets)
	}
}

// onSetResp: a cosigner releases a share signature.
func (o *oracles) onSetResp(r *rpc, src, dst *node) {
	w := o.w
	if dst == nil {
		return
	}
	delivered := r.req
	if r.delivered != nil {
		delivered = r.delivered
	}
	q := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{}
	x := &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignResponse{}
	if gproto.Unmarshal(delivered, q) != nil || gproto.Unmarshal(r.resp, x) != nil {
		return
	}
	if len(x.Signature) == 0 {
		w.violate("C05", "empty-share", "n%d returned success without a share signature", dst.id)
		return
	}
	w.stats["share_sigs"]++
	h, canon, ok := decode(q.SignBytes)
	if dst.lost && dst.nid != dst.lostNid {
		w.violate("C20", "signed", "n%d returned a share signature for %v after its share sign state was lost", dst.id, h)
	}
	if !ok {
		w.violate("C02", "undecodable", "n%d signed bytes that are no canonical vote or proposal: %x", dst.id, q.SignBytes)
		return
	}
	honest := src != nil && r.delivered == nil
	// C10: only parts as issued
	for _, p := range q.EncryptedSecrets {
		if !o.issued[partKey(p)] {
			w.violate("C10", "forged", "n%d signed %v with a part from source %d (pub %x) that no cosigner issued in this form (request by n%d, altered=%v)", dst.id, h, p.SourceID, p.SourceEphemeralSecretPublicKey, hid(r.fromH), r.delivered != nil)
		}
		w.stats["parts_accepted"]++
	}
	o.release(dst, &shareRel{at: now(), begin: r.tReqIn, hrs: h, canon: canon, msg: q.SignBytes, sig: x.Signature, ephPub: x.EphemeralPublic,
		from: fmt.Sprintf("h%d", hid(r.fromH)), inc: dst.inc}, len(x.Signature) == 32)
	o.checkDurable(dst, "share", h, canon, q.SignBytes, "returned a share signature")
	if k := nonceOf(dst, q.SignBytes, x.Signature, x.EphemeralPublic); k != nil && k.Sign() == 0 {
		w.violate("C10", "zero", "n%d signed %v with a nonce made of no part at all (request by n%d with %d parts)", dst.id, h, hid(r.fromH), len(q.EncryptedSecrets))
	}
	if honest && len(x.Signature) == 32 {
		o.checkNonce(dst, q.SignBytes, x.Signature, x.EphemeralPublic)
	}
}

// release is the C02 oracle.
func (o *oracles) release(n *node, s *shareRel, fresh bool) {
	w := o.w
	for _, p := range o.shareRels[n.id] {
		if p.hrs == s.hrs && p.canon != s.canon {
			w.violate("C02", "conflict", "n%d released share signatures for two different messages at %v: %s (t=%dms, for %s) and %s (t=%dms, for %s)", n.id, s.hrs, p.canon, (p.at-w.t0)/1e6, p.from, s.canon, (s.at-w.t0)/1e6, s.from)
		}
		if s.hrs.less(p.hrs) && p.at < s.begin {
			w.violate("C02", "regress", "n%d released a share signature for %v requested (t=%dms by %s) after it had released one for %v (t=%dms)", n.id, s.hrs, (s.begin-w.t0)/1e6, s.from, p.hrs, (p.at-w.t0)/1e6)
		}
	}
	if len(o.shareRels[n.id]) < 3000 {
		o.shareRels[n.id] = append(o.shareRels[n.id], s)
	}
	w.states[fmt.Sprintf("share%d@%v", n.id, s.hrs)] = true
}

// checkDurable is the C03 oracle.
func (o *oracles) checkDurable(n *node, class string, h hrs, canon string, msg []byte, what string) {
	w := o.w
	w.stats["durability_checks"]++
	st, err := n.diskState(w, class)
	if err != nil {
		w.violate("C03", "unreadable", "n%d %s for %v while its %s state file cannot be read: %v", n.id, what, h, class, err)
		return
	}
	if st.hrs.less(h) {
		w.violate("C03", "behind:"+class, "n%d %s for %v while its durable %s watermark is %v", n.id, what, h, class, st.hrs)
		return
	}
	if st.hrs == h {
		if len(st.SignBytes) == 0 {
			w.violate("C03", "nobytes:"+class, "n%d %s for %v while its durable %s watermark holds no message", n.id, what, h, class)
		} else if c := canonNoTs(st.SignBytes); c != canon {
			w.violate("C03", "othermsg:"+class, "n%d %s for %s while its durable %s watermark records %s", n.id, what, canon, class, c)
		}
	}
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// checkNonce is the C09 oracle: k = s - c*x is the nonce share used.
func (o *oracles) checkNonce(n *node, msg, sig, R []byte) {
	w := o.w
	k := nonceOf(n, msg, sig, R)
	if k == nil {
		return
	}
	w.stats["nonce_checks"]++
	key := fmt.Sprintf("%d|%s", n.id, k.Text(16))
	val := string(R) + "|" + string(msg)
	if old, ok := o.nonce[key]; ok && old != val {
		w.violate("C09", "reuse", "n%d used the same nonce share for two signatures: R %x and %x, message hashes %x and %x", n.id, old[:32], R, sha256.Sum256([]byte(old[33:])), sha256.Sum256(msg))
	}
	o.nonce[key] = val
	if k.Sign() == 0 {
		w.violate("C09", "zero", "n%d signed with a zero nonce", n.id)
	}
}

// nonceOf recovers the nonce share from a share signature.
func nonceOf(n *node, msg, sig, R []byte) *big.Int {
	if len(R) != 32 || len(sig) != 32 {
		return nil
	}
	hh := sha512.New()
	hh.Write(R)
	hh.Write(valPub.Bytes())
	hh.Write(msg)
	c := new(big.Int).SetBytes(rev(hh.Sum(nil)))
	c.Mod(c, orderL)
	x := new(big.Int).SetBytes(rev(shares[n.id-1]))
	s := new(big.Int).SetBytes(rev(sig))
	k := new(big.Int).Sub(s, new(big.Int).Mul(c, x))
	return k.Mod(k, orderL)
}

func (o *oracles) onSignResp(r *rpc, dst *node) {
	w := o.w
	q := &hproto.CosignerGRPCSignBlockRequest{}
	x := &hproto.CosignerGRPCSignBlockResponse{}
	if gproto.Unmarshal(r.req, q) != nil || gproto.Unmarshal(r.resp, x) != nil || q.Block == nil || dst == nil {
		return
	}
	if len(x.Signature) > 0 {
		w.checkFinal(dst, q.Block.SignBytes, x.Signature, "SignBlock response")
		o.leaderDurable(dst, dst.nid, q.Block.SignBytes, x.Signature)
	}
}

// leaderDurable: the node that ran the signing used its own share.
func (o *oracles) leaderDurable(n *node, nid int32, msg, sig []byte) {
	if !valPub.VerifySignature(msg, sig) || !o.led[string(msg)][n.id] || shares == nil {
		return
	}
	h, canon, ok := decode(msg)
	if !ok {
		return
	}
	if n.lost {
		if nid == n.lostNid {
			return // released before the loss, still on the wire
		}
		w := o.w
		w.violate("C20", "signed", "n%d used its share to sign %v after its share sign state was lost", n.id, h)
		return
	}
	o.checkDurable(n, "share", h, canon, msg, "released a validator signature made with its share")
}

// checkFinal is the C01 oracle: every valid validator signature seen anywhere.
func (w *world) checkFinal(n *node, msg, sig []byte, where string) bool {
	if len(sig) != 64 || !valPub.VerifySignature(msg, sig) {
		return false
	}
	o := w.o
	h, canon, ok := decode(msg)
	if !ok {
		return true
	}
	prop := "C01"
	if w.p.Mode != "cluster" {
		prop = "C15"
	}
	known := false
	for _, f := range o.finals[h] {
		if f.canon != canon {
			w.violate(prop, "double-sign", "two validator signatures for %v: %s (t=%dms, %s) and %s (t=%dms, %s of %s)", h, f.canon, (f.at-w.t0)/1e6, f.where, canon, w.ms(), where, n.name)
		}
		if bytes.Equal(f.msg, msg) && bytes.Equal(f.sig, sig) {
			known = true
		}
	}
	if !known {
		o.finals[h] = append(o.finals[h], &finalSig{h, canon, msg, sig, where + " of " + n.name, now()})
		w.states[fmt.Sprintf("final@%v", h)] = true
	}
	R := string(sig[:32])
	if m, ok := o.finalByR[R]; ok && m != string(msg) {
		w.violate("C09", "R-reuse", "two validator signatures for different messages share the ephemeral public key %x", R)
	}
	o.finalByR[R] = string(msg)
	return true
}

// onAnswer looks at a sentry's answer.
func (o *oracles) onAnswer(a *answer) {
	w := o.w
	q := a.q
	o.timing(a)
	w.tr("sentry %d / %s: %s h=%d r=%d v=%d ts=%d -> ok=%v err=%q rerr=%.80q (%dms)", a.l.s.k, a.l.n.name, q.Kind, q.H, q.R, q.V, q.Ts, a.ok, a.err, a.rerr, (a.at-a.sentAt)/1e6)
	o.answers = append(o.answers, a)
	if a.ok {
		w.stats["answers_ok"]++
	} else if a.rerr != "" {
		w.stats["answers_error"]++
	} else {
		w.stats["answers_none"]++
	}
	if !a.ok || stepOf(q.Kind) == 0 {
		return
	}
	o.okCount++
	if a.l.n.chain != "" && a.l.n.chain != chainID {
		return // signed for a chain of another name
	}
	h, canon, _ := decode(a.msg)
	valid := false
	if len(a.sig) == 0 {
		w.violate("C05", "empty", "%s answered %s %v to sentry %d with success and no signature", a.l.n.name, q.Kind, h, a.l.s.k)
	} else if a.retMsg != nil && valPub.VerifySignature(a.retMsg, a.sig) {
		valid = true
		w.checkFinal(a.l.n, a.retMsg, a.sig, "privval response")
		if q.Kind != "proposal" && canonNoTs(a.retMsg) != canon {
			w.violate("C05", "other", "%s answered a request for %s with a signature for %s", a.l.n.name, canon, canonNoTs(a.retMsg))
		}
		if q.Kind != "proposal" && w.p.Mode == "cluster" && !bytes.Equal(a.retMsg, a.msg) {
			w.violate("C05", "changed", "%s changed the vote of sentry %d (%v)", a.l.n.name, a.l.s.k, h)
		}
	} else if q.Kind == "proposal" {
		for _, f := range o.finals[h] {
			if valPub.VerifySignature(f.msg, a.sig) {
				valid = true
			}
		}
		if !valid && valPub.VerifySignature(a.msg, a.sig) {
			valid = true
			w.checkFinal(a.l.n, a.msg, a.sig, "privval response")
		}
		if !valid {
			// an earlier proposal of this height and round whose answer got lost
			for _, b := range o.answers {
				if b.q.Kind == "proposal" && b.q.H == q.H && b.q.R == q.R && valPub.VerifySignature(b.msg, a.sig) {
					valid = true
					w.checkFinal(a.l.n, b.msg, a.sig, "privval response")
				}
			}
			for _, r := range o.signReqs {
				sq := &hproto.CosignerGRPCSignBlockRequest{}
				if gproto.Unmarshal(r.req, sq) == nil && sq.Block != nil && valPub.VerifySignature(sq.Block.SignBytes, a.sig) {
					if hh, _, ok := decode(sq.Block.SignBytes); ok && hh == h {
						valid = true
						w.checkFinal(a.l.n, sq.Block.SignBytes, a.sig, "privval response")
					}
				}
			}
		}
		if !valid {
			for _, it := range w.p.Items {
				if it.Q != nil && it.Q.Kind == "proposal" && it.Q.H == q.H && it.Q.R == q.R && valPub.VerifySignature(signBytesOf(it.Q), a.sig) {
					valid = true
					w.checkFinal(a.l.n, signBytesOf(it.Q), a.sig, "privval response")
				}
			}
		}
	} else if w.p.Mode != "cluster" && valPub.VerifySignature(a.msg, a.sig) {
		valid = true
	}
	if !valid && len(a.sig) != 0 {
		w.violate("C05", "invalid", "%s answered %s %v to sentry %d with success and a signature that does not verify for it", a.l.n.name, q.Kind, h, a.l.s.k)
	}
	if !valid {
		return
	}
	w.states[fmt.Sprintf("ok:%s:%d:%d", q.Kind, q.V, a.l.n.id)] = true
	if w.p.Prop == "C08" {
		w.midC08(h)
	}
	if w.p.Mode != "cluster" {
		o.singleRelease(a, h, canon)
		return
	}
	// who led?
	ledBy := a.nid
	if o.proxied[fmt.Sprint(a.nid, "|", string(a.msg))] {
		ledBy = 0
	} else {
		o.leaderDurable(a.l.n, a.nid, a.msg, a.sig)
	}
	if ledBy != 0 && q.Kind != "proposal" {
		o.repeatCheck(a, ledBy)
	}
}

// timing is the oracle for answers that must come (C06, C12).
func (o *oracles) timing(a *answer) {
	w := o.w
	q := a.q
	p := w.p
	if p.O("c06to") > 0 && stepOf(q.Kind) != 0 && a.sent && p.O(fmt.Sprintf("up%d", a.l.n.id)) == 1 {
		sent, at := (a.sentAt-w.t0)/1e6, (a.at-w.t0)/1e6
		if sent >= p.O("c06from") && sent <= p.O("c06to") && q.H >= p.O("c06h") {
			w.stats["c06_requests"]++
			if a.ok && at <= p.O("c06to") {
				w.violate("C06", "signed", "n%d answered %s h=%d with success at t=%dms while fewer than %d cosigners could take part", a.l.n.id, q.Kind, q.H, at, p.T)
			}
			if !a.ok && a.rerr == "" && strings.Contains(a.err, "timeout") && a.nid == a.l.n.nid && a.l.n.alive {
				w.violate("C06", "hang", "n%d did not answer %s h=%d within %d s while fewer than %d cosigners could take part", a.l.n.id, q.Kind, q.H, q.TO/1000, p.T)
			}
			d := int((a.at - a.sentAt) / 1e6)
			if d > 22000 && sent+22000 < p.O("c06to") && a.nid == a.l.n.nid && a.l.n.alive {
				w.violate("C06", "hang", "n%d did not answer %s h=%d within 22 s while fewer than %d cosigners could take part", a.l.n.id, q.Kind, q.H, p.T)
			}
			if a.rerr != "" {
				w.stats["c06_errors"]++
				if d > w.stats["c06_max_ms"] {
					w.stats["c06_max_ms"] = d
				}
			}
		}
	}
	if p.Prop == "C12" && a.sent && q.Kind != "bad" && a.nid == a.l.n.nid && a.l.n.alive && strings.Contains(a.err, "timeout") && w.faultUntil < a.sentAt {
		// cosigner and sentry were up and nothing disturbed them
		w.violate("C12", "unanswered", "n%d did not answer a %s request of sentry %d within %d ms", a.l.n.id, q.Kind, a.l.s.k, (a.at-a.sentAt)/1e6)
	}
}

// repeatCheck is the C11 oracle for the safety part.
func (o *oracles) repeatCheck(a *answer, nid int32) {
	h, _, _ := decode(a.msg)
	key := fmt.Sprintf("%d|%v", nid, h)
	r := o.signedBy[key]
	if r == nil {
		// the message signed first is the one the leader's state records: its
		// signature is kept, later timestamp variants are signed anew
		if st, err := a.l.n.diskState(o.w, "priv"); err == nil && st.hrs == h && bytes.Equal(st.SignBytes, a.msg) {
			o.signedBy[key] = &repeat{sig: a.sig, nid: nid, at: a.at}
			o.tokens["first:"+key] = string(a.msg)
		}
		return
	}
	o.w.stats["repeats_compared"]++
	if o.tokens["first:"+key] == string(a.msg) && !bytes.Equal(r.sig, a.sig) {
		o.w.violate("C11", "different", "%s answered the same request (%v) with two different signatures", a.l.n.name, h)
	}
}

func (o *oracles) badSigned(a *answer, typ int32, v *tmproto.Vote, p *tmproto.Proposal) {
	w := o.w
	var msg []byte
	func() {
		defer func() { recover() }()
		if v != nil {
			msg = tm.VoteSignBytes(chainID, v)
		} else {
			msg = tm.ProposalSignBytes(chainID, p)
		}
	}()
	if len(a.sig) == 0 {
		w.violate("C05", "empty", "%s answered a malformed request with success and no signature", a.l.n.name)
		return
	}
	if msg != nil {
		w.checkFinal(a.l.n, msg, a.sig, "privval response")
	}
}

// ------------------------------------------------------------- deaths

func (o *oracles) onDeath(n *node, why string, code int) {
	w := o.w
	if code == 0 || n.ioHit || n.cli || w.p.Mode == "cli" || n.wantDead || n.damaged["share"] || n.damaged["priv"] {
		return
	}
	tail := lastLines(n.out.String(), 3)
	prop := "C17"
	if w.p.Prop == "C22" {
		prop = "C22"
	}
	w.violate(prop, "crash:"+classify(why), "%s ended by itself (code %d): %s; output: %s", n.name, code, why, tail)
}

func classify(why string) string {
	if i := strings.IndexByte(why, '\n'); i > 0 {
		why = why[:i]
	}
	f := strings.FieldsFunc(why, func(r rune) bool { return r >= '0' && r <= '9' })
	s := strings.Join(f, "#")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func lastLines(s string, k int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > k {
		l = l[len(l)-k:]
	}
	s = strings.Join(l, " / ")
	if len(s) > 400 {
		s = s[len(s)-400:]
	}
	return s
}

// ------------------------------------------------------------- C19

type secretPat struct {
	what string
	node int
	pat  []byte
}

func (o *oracles) addSecret(what string, node int, b []byte) {
	if len(b) < 16 {
		return
	}
	add := func(p []byte) { o.secrets = append(o.secrets, secretPat{what, node, p}) }
	add(b)
	add([]byte(hex.EncodeToString(b)))
	add([]byte(strings.ToUpper(hex.EncodeToString(b))))
	e := base64.StdEncoding.EncodeToString(b)
	add([]byte(strings.TrimRight(e, "=")[:len(b)*4/3-1]))
	e = base64.RawURLEncoding.EncodeToString(b)
	add([]byte(e[:len(b)*4/3-1]))
	var d []string
	for _, x := range b[:16] {
		d = append(d, fmt.Sprint(x))
	}
	add([]byte(strings.Join(d, " ")))
	add([]byte(strings.Join(d, ",")))
	add([]byte(strings.Join(d, ", ")))
	add([]byte(new(big.Int).SetBytes(b).String()))
	j, _ := json.Marshal(string(b))
	add(j[1 : len(j)-1])
}

func (o *oracles) initSecrets() {
	for i := 0; i < o.w.p.N; i++ {
		o.addSecret("key share", i+1, shares[i])
		o.addSecret("RSA private exponent", i+1, rsaKeys[i].D.Bytes())
		o.addSecret("RSA prime", i+1, rsaKeys[i].Primes[0].Bytes())
		o.addSecret("RSA prime", i+1, rsaKeys[i].Primes[1].Bytes())
	}
	o.addSecret("validator key", 0, valPriv[:32])
	// a gap-free scan over write boundaries is not needed: each is searched in
	// single writes, which are whole messages or lines here
}

func (o *oracles) scan(n *node, where string, b []byte) {
	if len(o.secrets) == 0 {
		return
	}
	o.w.stats["secret_scans"]++
	for i := range o.secrets {
		if bytes.Contains(b, o.secrets[i].pat) {
			o.w.violate("C19", "leak:"+o.secrets[i].what, "%s of cosigner %d appears in %s of %s", o.secrets[i].what, o.secrets[i].node, where, n.name)
		}
	}
}

// checkPart: a part must open at its destination only.
func (o *oracles) checkPart(src *node, p *hproto.EphemeralSecretPart) {
	w := o.w
	if w.p.Prop != "C19" || o.parts > 1500 {
		return
	}
	d := int(p.DestinationID)
	if d < 1 || d > w.p.N || int(p.SourceID) != src.id {
		w.violate("C19", "bad-part", "n%d dealt a part with source %d and destination %d", src.id, p.SourceID, d)
		return
	}
	o.parts++
	pt, err := rsa.DecryptOAEP(sha256.New(), nil, rsaKeys[d-1], p.EncryptedSharePart, nil)
	if err != nil || len(pt) != 32 {
		w.violate("C19", "undecryptable", "the part n%d dealt to n%d cannot be opened by n%d (err=%v len=%d)", src.id, d, d, err, len(pt))
		return
	}
	w.stats["parts_opened"]++
	if len(o.partPlain) < 4000 {
		o.partPlain[string(pt)] = true
	}
	for i := 1; i <= w.p.N && i <= len(rsaKeys); i++ {
		if i != d {
			if _, err := rsa.DecryptOAEP(sha256.New(), nil, rsaKeys[i-1], p.EncryptedSharePart, nil); err == nil {
				w.violate("C19", "open-elsewhere", "the part n%d dealt to n%d can be opened by n%d", src.id, d, i)
			}
		}
	}
	raw, _ := gproto.Marshal(p)
	if bytes.Contains(raw, pt) {
		w.violate("C19", "leak:part", "a part of n%d contains its plain share", src.id)
	}
}

// checkDealing: the parts of one response are shares of the announced secret.
func (o *oracles) checkDealing(r *rpc, dst *node, parts []*hproto.EphemeralSecretPart) {
	w := o.w
	t := w.p.T
	ids := []int{}
	var sh [][]byte
	seen := map[int32]bool{}
	for _, p := range parts {
		if seen[p.DestinationID] {
			w.violate("C19", "dup-dest", "n%d dealt two parts to n%d in one session", dst.id, p.DestinationID)
		}
		seen[p.DestinationID] = true
		if p.DestinationID < 1 || int(p.DestinationID) > w.p.N {
			return
		}
		pt, err := rsa.DecryptOAEP(sha256.New(), nil, rsaKeys[p.DestinationID-1], p.EncryptedSharePart, nil)
		if err != nil {
			return
		}
		ids = append(ids, int(p.DestinationID))
		sh = append(sh, pt)
		if bytes.Contains(r.resp, pt) {
			w.violate("C19", "leak:part", "a response of n%d contains a plain share", dst.id)
		}
	}
	// ascending order is what the library expects
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			if ids[j] < ids[i] {
				ids[i], ids[j] = ids[j], ids[i]
				sh[i], sh[j] = sh[j], sh[i]
			}
		}
	}
	// fewer than the threshold of the parts must not determine the secret
	for i := 0; t > 1 && i+t-1 <= len(ids); i++ {
		few := tsed25519.ScalarMultiplyBase(tsed25519.CombineShares(uint8(w.p.N), ids[i:i+t-1], sh[i:i+t-1]))
		w.stats["dealings_below_threshold"]++
		for _, p := range parts {
			if bytes.Equal(p.SourceEphemeralSecretPublicKey, few) {
				w.violate("C19", "below-threshold", "%d of the parts n%d dealt are enough for its ephemeral secret, with threshold %d", t-1, dst.id, t)
			}
		}
	}
	if len(ids) < t {
		return
	}
	sec := tsed25519.CombineShares(uint8(w.p.N), ids[:t], sh[:t])
	pub := tsed25519.ScalarMultiplyBase(sec)
	w.stats["dealings_checked"]++
	for _, p := range parts {
		if !bytes.Equal(p.SourceEphemeralSecretPublicKey, pub) {
			w.violate("C19", "inconsistent", "the parts n%d dealt do not interpolate to the ephemeral public key it announced", dst.id)
		}
	}
	if bytes.Contains(r.resp, sec) {
		w.violate("C19", "leak:secret", "a response of n%d contains its ephemeral secret", dst.id)
	}
	if len(o.partPlain) < 4000 {
		o.partPlain[string(sec)] = true
	}
}

// finalScan searches console text for opened parts.
func (o *oracles) finalScan() {
	if o.w.p.Prop != "C19" {
		return
	}
	for pt := range o.partPlain {
		if wh, ok := o.sent32[pt]; ok {
			o.w.violate("C19", "leak:part-network", "an unencrypted ephemeral share is in %s", wh)
		}
	}
	for _, n := range o.w.nodes[1:] {
		b := n.outAll.Bytes()
		for _, tok := range tokens(b) {
			if o.partPlain[tok] {
				o.w.violate("C19", "leak:part-console", "%s wrote an ephemeral share to its console", n.name)
			}
		}
		for pt := range o.partPlain {
			if bytes.Contains(b, []byte(pt)) {
				o.w.violate("C19", "leak:part-console", "%s wrote a raw ephemeral share to its console", n.name)
			}
		}
		for _, cl := range []string{"share", "priv"} {
			if raw, ok := o.w.fs.durableContent(n.statePath(cl)); ok {
				o.scan(n, cl+" state file", raw)
				for _, tok := range tokens(raw) {
					if o.partPlain[tok] {
						o.w.violate("C19", "leak:part-file", "%s wrote an ephemeral share to its state file", n.name)
					}
				}
			}
		}
	}
}

// sentText notes what a text that leaves a node holds.
func (o *oracles) sentText(h *host, what string, b []byte) {
	if n := o.w.nodeByHost(h); n != nil {
		if s, err := url.PathUnescape(string(b)); err == nil {
			b = []byte(s)
		}
		o.scan(n, what, b)
		for _, t := range tokens(b) {
			o.note32(t, what+" of "+n.name)
		}
	}
}

func (o *oracles) note32(t, where string) {
	if _, ok := o.sent32[t]; !ok && len(o.sent32) < 200000 {
		o.sent32[t] = where
	}
}

// sentMsg notes the 32-byte fields of a protocol message.
func (o *oracles) sentMsg(n *node, what string, b []byte, depth int) {
	for len(b) > 0 {
		k, l := binary.Uvarint(b)
		if l <= 0 {
			return
		}
		b = b[l:]
		switch k & 7 {
		case 0:
			_, l = binary.Uvarint(b)
			if l <= 0 {
				return
			}
		case 1:
			l = 8
		case 5:
			l = 4
		case 2:
			v, m := binary.Uvarint(b)
			if m <= 0 || v > uint64(len(b)-m) {
				return
			}
			f := b[m : m+int(v)]
			if len(f) == 32 {
				o.note32(string(f), what+" of "+n.name)
			}
			if depth < 5 && len(f) > 32 {
				o.sentMsg(n, what, f, depth+1)
				if bytes.IndexByte(f, '"') >= 0 || bytes.IndexByte(f, '[') >= 0 {
					for _, t := range tokens(f) {
						o.note32(t, what+" of "+n.name)
					}
				}
			}
			l = m + int(v)
		default:
			return
		}
		if l > len(b) {
			return
		}
		b = b[l:]
	}
}

// tokens decodes every hex, base64 or number-list run of 32 bytes.
func tokens(b []byte) []string {
	var out []string
	isHex := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
	isB64 := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '+' || c == '/' || c == '-' || c == '_'
	}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && isHex(b[j]) {
			j++
		}
		if j-i == 64 {
			if x, err := hex.DecodeString(string(b[i:j])); err == nil {
				out = append(out, string(x))
			}
		}
		k := i
		for k < len(b) && isB64(b[k]) {
			k++
		}
		if k-i == 43 {
			s := strings.NewReplacer("-", "+", "_", "/").Replace(string(b[i:k]))
			if x, err := base64.RawStdEncoding.DecodeString(s); err == nil {
				out = append(out, string(x))
			}
		}
		if k > i {
			i = k
		} else {
			i++
		}
	}
	for _, seg := range bytes.Split(b, []byte("[")) {
		e := bytes.IndexByte(seg, ']')
		if e < 0 || e > 200 {
			continue
		}
		f := strings.FieldsFunc(string(seg[:e]), func(r rune) bool { return r == ' ' || r == ',' })
		if len(f) != 32 {
			continue
		}
		x := make([]byte, 32)
		ok := true
		for i, s := range f {
			v := 0
			for _, c := range s {
				if c < '0' || c > '9' {
					ok = false
				}
				v = v*10 + int(c-'0')
			}
			if v > 255 {
				ok = false
			}
			x[i] = byte(v)
		}
		if ok {
			out = append(out, string(x))
		}
	}
	return out
}
