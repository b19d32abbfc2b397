//go:build go1.22

package main

// Sentries: tendermint nodes that ask for signatures over the privval protocol
// (real SecretConnection, real message framing; the node logic is the harness's).

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	p2pconn "github.com/tendermint/tendermint/p2p/conn"
	cryptoproto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	privproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

type sentry struct {
	w    *world
	k    int
	h    *host
	key  tmed.PrivKey
	lis  net.Listener
	up   bool
	down bool
	bad  int64 // handshakes fail until then
	how  int64
	hung []*simConn
}

type pend struct {
	it   int
	q    *plan.Req
	done func(*answer)
}

// link is the connection between one sentry and one signer.
type link struct {
	w      *world
	s      *sentry
	n      *node
	conn   *p2pconn.SecretConnection
	raw    *simConn
	wait   chan struct{}
	q      []pend
	gen    int
	busy   bool
	nConn  int
	lastUp int64
}

type answer struct {
	l      *link
	q      *plan.Req
	sentAt int64
	at     int64
	inc    int // incarnation of the signer when the request was sent
	nid    int32
	gen    int
	err    string // transport-level
	rerr   string // remote signer error
	ok     bool
	sig    []byte
	msg    []byte // sign bytes requested
	retMsg []byte // sign bytes of what came back
	sent   bool
	retTs  time.Time
}

func (w *world) addSentry(k int) *sentry {
	s := &sentry{w: w, k: k, h: w.net.addHost(fmt.Sprintf("10.0.1.%d", k), 100+k)}
	s.key = tmed.GenPrivKeyFromSecret([]byte("sentry" + strconv.Itoa(k)))
	w.sentries[k] = s
	return s
}

func (s *sentry) listen() {
	l, err := s.w.net.listen(s.h, 0, ":1234")
	if err != nil {
		return
	}
	s.lis = l
	s.up = true
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.accept(c.(*simConn))
		}
	}()
}

// badHandshake lets the secret connection fail in one of several ways.
func (s *sentry) badHandshake(c *simConn) {
	s.w.stats["sentry_bad_handshakes"]++
	s.hung = append(s.hung, c)
	switch s.how {
	case 0: // closed at once
	case 1: // garbage of some length, then closed
		b := make([]byte, 1+s.w.rng.n(120))
		for i := range b {
			b[i] = byte(s.w.rng.n(256))
		}
		c.Write(b)
		time.Sleep(time.Duration(s.w.rng.n(1500)) * time.Millisecond)
	case 2: // closed after some bytes of the signer's
		c.SetDeadline(time.Now().Add(2 * time.Second))
		io.ReadFull(c, make([]byte, 1+s.w.rng.n(30)))
	case 3: // hangs
		return
	case 4: // closed after a good handshake
		c.SetDeadline(time.Now().Add(5 * time.Second))
		p2pconn.MakeSecretConnection(c, s.key)
	case 5: // reset at some point
		time.Sleep(time.Duration(s.w.rng.n(30)) * time.Millisecond)
		if !c.closed {
			c.abort(true)
		}
	case 6: // some other key exchange message: the low order point
		c.Write(append([]byte{34, 10, 32}, make([]byte, 32)...))
		time.Sleep(time.Second)
	}
	c.Close()
}

func (s *sentry) accept(c *simConn) {
	if now() < s.bad && !s.w.quiet {
		s.badHandshake(c)
		return
	}
	c.SetDeadline(time.Now().Add(10 * time.Second))
	sc, err := p2pconn.MakeSecretConnection(c, s.key)
	if err != nil {
		s.w.stats["sentry_handshake_failed"]++
		c.Close()
		return
	}
	c.SetDeadline(time.Time{})
	l := s.w.links[[2]int{s.k, c.ph.idx}]
	if l == nil || !s.up {
		c.Close()
		return
	}
	if l.raw != nil && !l.raw.closed {
		l.raw.Close()
	}
	l.conn, l.raw = sc, c
	l.gen++
	l.nConn++
	l.lastUp = now()
	s.w.tr("sentry %d: signer %s connected", s.k, l.n.name)
	s.w.stats["privval_conns"]++
	l.wake()
}

func (s *sentry) stop() {
	s.up = false
	if s.lis != nil {
		s.lis.Close()
	}
	for _, l := range s.w.sortedLinks() {
		if l.s == s {
			l.drop()
		}
	}
}

// goodAgain ends a phase of failing handshakes.
func (s *sentry) goodAgain() {
	s.bad = 0
	for _, c := range s.hung {
		if !c.closed {
			c.Close()
		}
	}
	s.hung = nil
}

func (l *link) wake() {
	close(l.wait)
	l.wait = make(chan struct{})
}

func (l *link) drop() {
	if l.raw != nil && !l.raw.closed {
		l.raw.Close()
	}
	l.conn, l.raw = nil, nil
}

func (w *world) sortedLinks() []*link {
	var out []*link
	for k := 0; k < 20; k++ {
		for i := 0; i < 20; i++ {
			if l := w.links[[2]int{k, i}]; l != nil {
				out = append(out, l)
			}
		}
	}
	return out
}

func (w *world) addLink(s *sentry, n *node) *link {
	l := &link{w: w, s: s, n: n, wait: make(chan struct{})}
	w.links[[2]int{s.k, n.h.idx}] = l
	go l.run()
	return l
}

// submit queues a request; it is sent when the link is free and connected.
func (l *link) submit(it int, q *plan.Req, done func(*answer)) {
	l.q = append(l.q, pend{it, q, done})
	l.wake()
}

func (l *link) run() {
	for {
		for len(l.q) == 0 {
			ch := l.wait
			<-ch
		}
		p := l.q[0]
		l.q = l.q[1:]
		l.busy = true
		a := l.do(p.q)
		l.busy = false
		l.w.o.onAnswer(a)
		if a.sent {
			l.w.fired(p.it)
		}
		if p.done != nil {
			p.done(a)
		}
	}
}

func (l *link) waitConn(d time.Duration) bool {
	dl := now() + int64(d)
	t := time.AfterFunc(d, func() { l.wake() })
	defer t.Stop()
	for l.conn == nil || l.raw.closed || l.raw.in.eof || l.raw.in.rst {
		if now() >= dl {
			return false
		}
		ch := l.wait
		<-ch
	}
	return true
}

var blkBase = time.Unix(1700000000, 0).UTC()

// tsOf: timestamps have nanoseconds, and an odd offset differs in them only from the even one below
func tsOf(q *plan.Req) time.Time {
	d := time.Duration(q.H%(1<<24))*6*time.Second + time.Duration(q.R)*700*time.Millisecond + time.Duration(q.Ts&^1)*time.Millisecond
	x := uint64(q.H*1000003+int64(q.R)*7919+q.Ts*104729) * 0x9e3779b97f4a7c15
	switch sub := time.Duration(x >> 44 % 1000000); x >> 40 % 8 {
	case 0: // whole milliseconds
	case 1:
		d += sub / 1000 * 1000
	default:
		d += sub
	}
	return blkBase.Add(d)
}

func blockID(h int64, v int) tmproto.BlockID {
	if v == 0 {
		return tmproto.BlockID{}
	}
	a := sha256.Sum256([]byte(fmt.Sprintf("blk-%d-%d", h, v%10)))
	b := sha256.Sum256([]byte(fmt.Sprintf("psh-%d-%d-%d", h, v%10, v/10%10)))
	return tmproto.BlockID{Hash: a[:], PartSetHeader: tmproto.PartSetHeader{Total: uint32(1 + v/100), Hash: b[:]}}
}

func mkVote(q *plan.Req) *tmproto.Vote {
	t := tmproto.PrevoteType
	if q.Kind == "precommit" {
		t = tmproto.PrecommitType
	}
	return &tmproto.Vote{Type: t, Height: q.H, Round: int32(q.R), BlockID: blockID(q.H, q.V), Timestamp: tsOf(q),
		ValidatorAddress: valPub.Address(), ValidatorIndex: 3}
}

func mkProposal(q *plan.Req) *tmproto.Proposal {
	v := q.V
	if v == 0 {
		v = 1
	}
	return &tmproto.Proposal{Type: tmproto.ProposalType, Height: q.H, Round: int32(q.R), PolRound: int32(q.Pol), BlockID: blockID(q.H, v), Timestamp: tsOf(q)}
}

func signBytesOf(q *plan.Req) []byte {
	switch q.Kind {
	case "prevote", "precommit":
		return tm.VoteSignBytes(chainID, mkVote(q))
	case "proposal":
		return tm.ProposalSignBytes(chainID, mkProposal(q))
	}
	return nil
}

func stepOf(kind string) int8 {
	switch kind {
	case "proposal":
		return 1
	case "prevote":
		return 2
	case "precommit":
		return 3
	}
	return 0
}

func (l *link) do(q *plan.Req) *answer {
	w := l.w
	a := &answer{l: l, q: q, msg: signBytesOf(q)}
	wait := 4 * time.Second
	if !l.waitConn(wait) {
		a.err = "no connection"
		a.at = now()
		return a
	}
	conn, raw := l.conn, l.raw
	if len(raw.in.buf) > 0 {
		w.violate("C12", "unsolicited", "n%d sent %d bytes to sentry %d that answer no request", l.n.id, len(raw.in.buf), l.s.k)
	}
	a.gen = l.gen
	a.inc, a.nid = l.n.inc, l.n.nid
	a.sentAt = now()
	a.sent = true
	to := q.TO
	if to == 0 {
		to = 10000
	}
	raw.SetDeadline(time.Now().Add(time.Duration(to) * time.Millisecond))
	var req privproto.Message
	switch q.Kind {
	case "prevote", "precommit":
		req.Sum = &privproto.Message_SignVoteRequest{SignVoteRequest: &privproto.SignVoteRequest{Vote: mkVote(q), ChainId: chainID}}
	case "proposal":
		req.Sum = &privproto.Message_SignProposalRequest{SignProposalRequest: &privproto.SignProposalRequest{Proposal: mkProposal(q), ChainId: chainID}}
	case "pubkey":
		req.Sum = &privproto.Message_PubKeyRequest{PubKeyRequest: &privproto.PubKeyRequest{ChainId: chainID}}
	case "ping":
		req.Sum = &privproto.Message_PingRequest{PingRequest: &privproto.PingRequest{}}
	case "bad":
		return l.doBad(a, conn, raw)
	default:
		a.err = "unknown request kind"
		return a
	}
	w.stats["privval_requests"]++
	var err error
	if q.Raw == "cut" { // the sentry dies in the middle of sending
		var buf bytes.Buffer
		signer.WriteMsg(&buf, req)
		k := 1 + w.rng.n(buf.Len()-1)
		conn.Write(buf.Bytes()[:k])
		l.drop()
		a.err = "cut"
		a.at = now()
		w.faults["sentry_cut"]++
		return a
	}
	if q.Raw == "slow" { // trickles in
		var buf bytes.Buffer
		signer.WriteMsg(&buf, req)
		b := buf.Bytes()
		for len(b) > 0 && err == nil {
			k := 1 + w.rng.n(len(b))
			_, err = conn.Write(b[:k])
			b = b[k:]
			time.Sleep(time.Duration(w.rng.n(200)) * time.Millisecond)
		}
		w.faults["sentry_slow_send"]++
	} else {
		err = signer.WriteMsg(conn, req)
	}
	if err != nil {
		a.err = "write: " + err.Error()
		a.at = now()
		l.drop()
		return a
	}
	if q.Raw == "gone" { // the sentry dies before the answer
		time.Sleep(time.Duration(w.rng.n(60)) * time.Millisecond)
		l.drop()
		a.err = "gone"
		a.at = now()
		w.faults["sentry_gone"]++
		return a
	}
	res, err := signer.ReadMsg(conn)
	a.at = now()
	if err != nil {
		a.err = "read: " + err.Error()
		if l.conn == conn {
			l.drop()
		} else {
			raw.Close()
		}
		return a
	}
	raw.SetDeadline(time.Time{})
	w.checkProto(a, req, res)
	return a
}

// checkProto is the C12 / C05 part that looks at one response.
func (w *world) checkProto(a *answer, req, res privproto.Message) {
	who := fmt.Sprintf("sentry %d / %s", a.l.s.k, a.l.n.name)
	switch r := req.Sum.(type) {
	case *privproto.Message_SignVoteRequest:
		v, ok := res.Sum.(*privproto.Message_SignedVoteResponse)
		if !ok || v.SignedVoteResponse == nil {
			w.violate("C12", "type:vote", "%s: vote request answered with %T", who, res.Sum)
			a.err = "wrong type"
			return
		}
		x := v.SignedVoteResponse
		if x.Error != nil {
			a.rerr = x.Error.Description
			if a.rerr == "" {
				a.rerr = "(empty)"
			}
			if len(x.Vote.Signature) != 0 {
				w.violate("C12", "sig-with-error", "%s: error response for a vote carries a signature", who)
				w.checkFinal(a.l.n, tm.VoteSignBytes(chainID, r.SignVoteRequest.Vote), x.Vote.Signature, "error response")
			}
			return
		}
		a.ok = true
		a.sig = x.Vote.Signature
		a.retTs = x.Vote.Timestamp
		if err := func() (e error) {
			defer func() {
				if p := recover(); p != nil {
					e = fmt.Errorf("%v", p)
				}
			}()
			a.retMsg = tm.VoteSignBytes(chainID, &x.Vote)
			return nil
		}(); err != nil {
			w.violate("C05", "bad-return", "%s: vote response is malformed: %v", who, err)
			return
		}
		rv := r.SignVoteRequest.Vote
		if x.Vote.Type != rv.Type || x.Vote.Height != rv.Height || x.Vote.Round != rv.Round ||
			!bytes.Equal(x.Vote.ValidatorAddress, rv.ValidatorAddress) || x.Vote.ValidatorIndex != rv.ValidatorIndex ||
			!bytes.Equal(a.retMsg, a.msg) && !sameButTime(a.retMsg, a.msg) {
			w.violate("C12", "mismatch:vote", "%s: response is for another vote than requested (%d/%d/%v instead of %d/%d/%v)", who,
				x.Vote.Height, x.Vote.Round, x.Vote.Type, rv.Height, rv.Round, rv.Type)
		}
	case *privproto.Message_SignProposalRequest:
		v, ok := res.Sum.(*privproto.Message_SignedProposalResponse)
		if !ok || v.SignedProposalResponse == nil {
			w.violate("C12", "type:proposal", "%s: proposal request answered with %T", who, res.Sum)
			a.err = "wrong type"
			return
		}
		x := v.SignedProposalResponse
		if x.Error != nil {
			a.rerr = x.Error.Description
			if a.rerr == "" {
				a.rerr = "(empty)"
			}
			if len(x.Proposal.Signature) != 0 {
				w.violate("C12", "sig-with-error", "%s: error response for a proposal carries a signature", who)
			}
			return
		}
		a.ok = true
		a.sig = x.Proposal.Signature
		a.retTs = x.Proposal.Timestamp
		if err := func() (e error) {
			defer func() {
				if p := recover(); p != nil {
					e = fmt.Errorf("%v", p)
				}
			}()
			a.retMsg = tm.ProposalSignBytes(chainID, &x.Proposal)
			return nil
		}(); err != nil {
			w.violate("C05", "bad-return", "%s: proposal response is malformed: %v", who, err)
			return
		}
		rp := r.SignProposalRequest.Proposal
		if x.Proposal.Height != rp.Height || x.Proposal.Round != rp.Round {
			w.violate("C12", "mismatch:proposal", "%s: response is for another proposal than requested", who)
		}
	case *privproto.Message_PubKeyRequest:
		v, ok := res.Sum.(*privproto.Message_PubKeyResponse)
		if !ok || v.PubKeyResponse == nil {
			w.violate("C12", "type:pubkey", "%s: public key request answered with %T", who, res.Sum)
			a.err = "wrong type"
			return
		}
		if v.PubKeyResponse.Error != nil {
			a.rerr = v.PubKeyResponse.Error.Description
			w.violate("C12", "pubkey-error", "%s: public key request failed: %s", who, a.rerr)
			return
		}
		k, ok2 := v.PubKeyResponse.PubKey.Sum.(*cryptoproto.PublicKey_Ed25519)
		if !ok2 || !bytes.Equal(k.Ed25519, valPub.Bytes()) {
			w.violate("C12", "pubkey", "%s: wrong public key %v", who, v.PubKeyResponse.PubKey.Sum)
			return
		}
		a.ok = true
	case *privproto.Message_PingRequest:
		if _, ok := res.Sum.(*privproto.Message_PingResponse); !ok {
			w.violate("C12", "type:ping", "%s: ping answered with %T", who, res.Sum)
			a.err = "wrong type"
			return
		}
		a.ok = true
	}
}

func sameButTime(a, b []byte) bool {
	return canonNoTs(a) == canonNoTs(b) && canonNoTs(a) != ""
}

// doBad sends a malformed or unusual message (C17).
func (l *link) doBad(a *answer, conn *p2pconn.SecretConnection, raw *simConn) *answer {
	w := l.w
	w.faults["malformed_privval"]++
	b := badPrivval(a.q.Raw, int(a.q.V), a.q.H, w.rng)
	w.tr("sentry %d -> %s: bad message %s/%d %s", l.s.k, l.n.name, a.q.Raw, a.q.V, hex.EncodeToString(b[:min(len(b), 40)]))
	if a.q.Raw == "rawbytes" {
		raw.Write(b) // not even encrypted
		time.Sleep(300 * time.Millisecond)
		l.drop()
		a.err = "bad"
		a.at = now()
		return a
	}
	if _, err := conn.Write(b); err != nil {
		a.err = "write: " + err.Error()
		l.drop()
		a.at = now()
		return a
	}
	if a.q.Raw == "trunc" || a.q.Raw == "huge" {
		time.Sleep(300 * time.Millisecond)
		l.drop()
		a.err = "bad"
		a.at = now()
		return a
	}
	res, err := signer.ReadMsg(conn)
	a.at = now()
	if err == nil && (a.q.Raw == "embed" || a.q.Raw == "seq") {
		w.violate("C12", "unreadable", "n%d answered sentry %d with a %T after a message that cannot be read (%s/%d), from the middle of it or beyond", l.n.id, l.s.k, res.Sum, a.q.Raw, a.q.V)
		l.drop()
		a.err = "bad"
		return a
	}
	if err != nil {
		a.err = "read: " + err.Error()
		if err != io.EOF {
			a.err = "read: " + err.Error()
		}
		l.drop()
		return a
	}
	raw.SetDeadline(time.Time{})
	switch v := res.Sum.(type) {
	case *privproto.Message_SignedVoteResponse:
		if v.SignedVoteResponse.Error == nil {
			a.ok = true
			a.sig = v.SignedVoteResponse.Vote.Signature
			w.o.badSigned(a, int32(v.SignedVoteResponse.Vote.Type), &v.SignedVoteResponse.Vote, nil)
		}
	case *privproto.Message_SignedProposalResponse:
		if v.SignedProposalResponse.Error == nil {
			a.ok = true
			a.sig = v.SignedProposalResponse.Proposal.Signature
			w.o.badSigned(a, 32, nil, &v.SignedProposalResponse.Proposal)
		}
	}
	return a
}
