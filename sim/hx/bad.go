//go:build go1.22

package main

// Malformed and hostile messages (C17).

import (
	"context"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/binary"
	"math"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	hproto "github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/libs/protoio"
	privproto "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	"google.golang.org/grpc"
	gproto "google.golang.org/protobuf/proto"
)

func randBytes(r *rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

func randScalar(r *rng) []byte {
	b := randBytes(r, 32)
	b[31] &= 0x0f
	return b
}

func encryptTo(id int, pt []byte) []byte {
	c, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, &rsaKeys[id-1].PublicKey, pt, nil)
	must(err)
	return c
}

func signPart(k *rsa.PrivateKey, src int, pub, enc []byte) []byte {
	b, err := tmjson.Marshal(signer.CosignerEphemeralSecretPart{SourceID: src, SourceEphemeralSecretPublicKey: pub, EncryptedSharePart: enc})
	must(err)
	d := sha256.Sum256(b)
	s, err := rsa.SignPSS(rand.Reader, k, crypto.SHA256, d[:], nil)
	must(err)
	return s
}

var badPrivvalKinds = []string{"embed", "seq", "votetype", "proptype", "nilvote", "nilprop", "nilreq", "badhash", "badpsh", "neg", "empty", "wrongway",
	"garbage", "huge", "trunc", "rawbytes", "bigstr", "notime", "farfuture", "baddate", "flip", "neghuge"}

var badTypes = []tmproto.SignedMsgType{0, 3, 4, 5, 31, 32, 33, 64, 127, 255, 1000, -1}

func lenPrefixed(b []byte) []byte {
	return append(binary.AppendUvarint(nil, uint64(len(b))), b...)
}

func badPrivval(kind string, v int, h int64, r *rng) []byte {
	q := &plan.Req{Kind: "prevote", H: h, R: int64(r.n(3)), V: 1}
	if v%2 == 1 {
		q.Kind = "precommit"
	}
	vote := mkVote(q)
	prop := mkProposal(q)
	wrapV := func(x *tmproto.Vote) []byte {
		b, err := (&privproto.Message{Sum: &privproto.Message_SignVoteRequest{SignVoteRequest: &privproto.SignVoteRequest{Vote: x, ChainId: chainID}}}).Marshal()
		must(err)
		return lenPrefixed(b)
	}
	wrapP := func(x *tmproto.Proposal) []byte {
		b, err := (&privproto.Message{Sum: &privproto.Message_SignProposalRequest{SignProposalRequest: &privproto.SignProposalRequest{Proposal: x, ChainId: chainID}}}).Marshal()
		must(err)
		return lenPrefixed(b)
	}
	good := func() []byte {
		switch v % 3 {
		case 0:
			return wrapV(vote)
		case 1:
			b, _ := (&privproto.Message{Sum: &privproto.Message_PubKeyRequest{PubKeyRequest: &privproto.PubKeyRequest{ChainId: chainID}}}).Marshal()
			return lenPrefixed(b)
		}
		b, _ := (&privproto.Message{Sum: &privproto.Message_PingRequest{PingRequest: &privproto.PingRequest{}}}).Marshal()
		return lenPrefixed(b)
	}
	switch kind {
	case "embed":
		// the body of a message that is too long looks like requests itself
		var b []byte
		switch v % 4 {
		case 0:
			b = binary.AppendUvarint(nil, uint64(10241+r.n(100000)))
		case 1:
			b = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
		case 2:
			b = binary.AppendUvarint(nil, uint64(1)<<uint(20+r.n(43)))
		case 3:
			b = lenPrefixed([]byte{0x0a, 0xff})
		}
		for k := 0; k < 1+v%5; k++ {
			b = append(b, good()...)
		}
		return b
	case "seq":
		// one that does not parse, then a good one
		b := lenPrefixed([][]byte{{0x0a, 0xff}, {0x1a, 0x05, 1}, {0xff, 0xff, 0xff}, {0x0b}, {0x1a, 0x02, 0x0a, 0x7f}}[v%5])
		return append(b, good()...)
	case "votetype":
		vote.Type = badTypes[v%len(badTypes)]
		return wrapV(vote)
	case "proptype":
		prop.Type = badTypes[v%len(badTypes)]
		return wrapP(prop)
	case "nilvote":
		return wrapV(nil)
	case "nilprop":
		return wrapP(nil)
	case "nilreq":
		// the one-of tag with an empty or minimal body
		tag := []byte{0x1a, 0x2a, 0x0a, 0x3a, 0x12, 0x22, 0x32, 0x42}[v%8]
		return lenPrefixed([]byte{tag, 0})
	case "badhash":
		n := []int{1, 5, 31, 33, 64, 0}[v%6]
		vote.BlockID.Hash = randBytes(r, n)
		prop.BlockID.Hash = vote.BlockID.Hash
		if v%4 >= 2 {
			return wrapP(prop)
		}
		return wrapV(vote)
	case "badpsh":
		n := []int{1, 5, 31, 33, 64}[v%5]
		vote.BlockID.PartSetHeader.Hash = randBytes(r, n)
		prop.BlockID = vote.BlockID
		if v%4 >= 2 {
			return wrapP(prop)
		}
		return wrapV(vote)
	case "neg":
		switch v % 5 {
		case 0:
			vote.Height = -1 - int64(r.n(1000))
		case 1:
			vote.Round = -1 - int32(r.n(1000))
		case 2:
			prop.PolRound = math.MinInt32
			return wrapP(prop)
		case 3:
			prop.Round = -5
			return wrapP(prop)
		case 4:
			vote.ValidatorIndex = -7
			vote.Height = 0
		}
		return wrapV(vote)
	case "neghuge":
		vote.Height = math.MinInt64
		vote.Round = math.MinInt32
		return wrapV(vote)
	case "empty":
		return []byte{0}
	case "wrongway":
		var m privproto.Message
		switch v % 3 {
		case 0:
			m.Sum = &privproto.Message_SignedVoteResponse{SignedVoteResponse: &privproto.SignedVoteResponse{Vote: *vote}}
		case 1:
			m.Sum = &privproto.Message_PingResponse{PingResponse: &privproto.PingResponse{}}
		case 2:
			m.Sum = &privproto.Message_PubKeyResponse{PubKeyResponse: &privproto.PubKeyResponse{}}
		}
		b, _ := m.Marshal()
		return lenPrefixed(b)
	case "garbage":
		return lenPrefixed(randBytes(r, 1+r.n(300)))
	case "huge":
		return append(binary.AppendUvarint(nil, uint64(1)<<uint(20+v%43)), randBytes(r, 200)...)
	case "trunc":
		b := wrapV(vote)
		return b[:1+r.n(len(b)-1)]
	case "rawbytes":
		return randBytes(r, 1+r.n(2000))
	case "bigstr":
		vote.ValidatorAddress = randBytes(r, 20+r.n(9000))
		return wrapV(vote)
	case "notime":
		vote.Timestamp = time.Time{}
		prop.Timestamp = time.Time{}
		if v%2 == 1 {
			return wrapP(prop)
		}
		return wrapV(vote)
	case "farfuture":
		vote.Timestamp = time.Date([]int{1, 1500, 1969, 2262, 2300, 9999}[v%6], 1, 1, 0, 0, 0, r.n(1e9), time.UTC)
		prop.Timestamp = vote.Timestamp
		if v%4 >= 2 {
			return wrapP(prop)
		}
		return wrapV(vote)
	case "baddate":
		// a timestamp the protobuf library cannot represent
		b, err := vote.Marshal()
		must(err)
		ts := []byte{0x08}
		ts = binary.AppendUvarint(ts, uint64([]int64{math.MaxInt64, math.MinInt64, 253402300800, -62135596801}[v%4]))
		if v%3 == 1 {
			ts = append(ts, 0x10)
			ts = binary.AppendUvarint(ts, uint64(1999999999))
		}
		b = append(b, 0x2a)
		b = append(b, lenPrefixed(ts)...)
		inner := append([]byte{0x0a}, lenPrefixed(b)...)
		return lenPrefixed(append([]byte{0x1a}, lenPrefixed(inner)...))
	case "flip":
		b := wrapV(vote)
		if v%3 == 2 {
			b = wrapP(prop)
		}
		for k := 0; k < 1+v%4; k++ {
			i := r.n(len(b))
			if v%5 < 4 && i == 0 {
				continue
			}
			b[i] ^= byte(1 << uint(r.n(8)))
		}
		return b
	}
	return []byte{0}
}

var badGRPCKinds = 22

// badGRPC sends a hostile request to the cosigner port.
func (w *world) badGRPC(n *node, it plan.Item) {
	r := w.rng
	q := it.Q
	if q == nil {
		q = &plan.Req{Kind: "precommit", H: 5, V: 1}
	}
	msg := signBytesOf(q)
	hr := &hproto.HRST{Height: q.H, Round: q.R, Step: int32(stepOf(q.Kind)), Timestamp: tsOf(q).UnixNano()}
	w.tr("bad grpc kind %d at n%d", it.A, n.id)
	if it.A == 0 || it.A == 1 {
		th := w.net.hosts[toolHost]
		if th == nil {
			th = w.net.addHost(toolHost, 200)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		defer cancel()
		c, err := w.net.dial(ctx, 0, th, "tcp", n.h.name+":2222", 0)
		if err != nil {
			return
		}
		if it.A == 1 {
			c.Write([]byte(preface))
		}
		c.Write(randBytes(r, 1+r.n(400)))
		time.Sleep(500 * time.Millisecond)
		c.Close()
		return
	}
	badVote := func(t int32) []byte {
		v := &tmproto.CanonicalVote{Type: tmproto.SignedMsgType(t), Height: q.H, Round: q.R, ChainID: chainID, Timestamp: tsOf(q)}
		b, err := protoio.MarshalDelimited(v)
		must(err)
		return b
	}
	garbage := func() []byte {
		switch r.n(7) {
		case 0:
			return nil
		case 1:
			return []byte{0}
		case 2:
			return randBytes(r, 1+r.n(60))
		case 3:
			return lenPrefixed(randBytes(r, 1+r.n(60)))
		case 4:
			return badVote(int32(badTypes[r.n(len(badTypes))]))
		case 5:
			b := append([]byte(nil), msg...)
			b[r.n(len(b))] ^= byte(1 << uint(r.n(8)))
			return b
		default:
			return msg[:r.n(len(msg))]
		}
	}
	w.withConn(n.h, func(ctx context.Context, cc *grpc.ClientConn) {
		c := hproto.NewCosignerGRPCClient(cc)
		session := func(h *hproto.HRST) []*hproto.EphemeralSecretPart {
			var ps []*hproto.EphemeralSecretPart
			for _, m := range w.nodes[1:] {
				if m == n || !m.alive {
					continue
				}
				w.withConn(m.h, func(ctx context.Context, c2 *grpc.ClientConn) {
					x, err := hproto.NewCosignerGRPCClient(c2).GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: h})
					if err == nil {
						for _, p := range x.EncryptedSecrets {
							if int(p.DestinationID) == n.id {
								ps = append(ps, p)
							}
						}
					}
				})
			}
			c.GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: h})
			return ps
		}
		// parts validly signed by a (misbehaving) peer
		byz := func(pub, plain []byte) *hproto.EphemeralSecretPart {
			src := n.id%w.p.N + 1
			enc := encryptTo(n.id, plain)
			p := &hproto.EphemeralSecretPart{SourceID: int32(src), DestinationID: int32(n.id), SourceEphemeralSecretPublicKey: pub, EncryptedSharePart: enc,
				SourceSig: signPart(rsaKeys[src-1], src, pub, enc)}
			w.o.issued[partKey(p)] = true
			return p
		}
		x := randScalar(r)
		switch it.A {
		case 2:
			c.SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{})
		case 3:
			c.SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{ChainID: chainID, Block: &hproto.Block{Height: q.H, Round: q.R, Step: int32(r.n(5)), SignBytes: garbage(), Timestamp: hr.Timestamp}})
		case 4:
			c.SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{ChainID: "other", Block: &hproto.Block{Height: q.H, Round: q.R, Step: []int32{0, -1, 4, 127, 128, 200, 256, 259, math.MaxInt32}[r.n(9)], SignBytes: msg, Timestamp: hr.Timestamp}})
		case 5:
			c.SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{ChainID: chainID, Block: &hproto.Block{Height: -q.H, Round: -q.R, Step: 2, SignBytes: msg, Timestamp: []int64{0, math.MinInt64, math.MaxInt64, -1}[r.n(4)]}})
		case 6:
			c.SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{ChainID: chainID, Block: &hproto.Block{Height: q.H, Round: q.R, Step: int32(stepOf(q.Kind)), SignBytes: badVote(int32(badTypes[r.n(len(badTypes))])), Timestamp: hr.Timestamp}})
		case 7:
			c.GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{})
		case 8:
			c.GetEphemeralSecretParts(ctx, &hproto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: &hproto.HRST{Height: []int64{math.MinInt64, -1, 0}[r.n(3)], Round: math.MinInt64, Step: []int32{-1, 200, math.MaxInt32}[r.n(3)], Timestamp: math.MinInt64}})
		case 9:
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{})
		case 10:
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: garbage()})
		case 11:
			ps := session(hr)
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: badVote(int32(badTypes[r.n(len(badTypes))])), EncryptedSecrets: ps})
		case 12:
			ps := session(hr)
			for _, p := range ps {
				p.SourceID = []int32{0, -1, 99, math.MaxInt32, int32(w.p.N + 1)}[r.n(5)]
			}
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: msg, EncryptedSecrets: ps})
		case 13:
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: msg, EncryptedSecrets: []*hproto.EphemeralSecretPart{{}, {SourceID: 1}, {SourceID: 1, SourceSig: []byte{1}}}})
		case 14: // share of a wrong length
			session(hr)
			p := byz(tsed25519.ScalarMultiplyBase(x), randBytes(r, []int{0, 1, 5, 31, 33, 40, 60}[r.n(7)]))
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: msg, EncryptedSecrets: []*hproto.EphemeralSecretPart{p}})
		case 15: // public key that is no point
			session(hr)
			p := byz(randBytes(r, []int{0, 1, 5, 31, 32, 32, 33, 64}[r.n(8)]), x)
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: msg, EncryptedSecrets: []*hproto.EphemeralSecretPart{p}})
		case 16: // share above the group order
			session(hr)
			b := randBytes(r, 32)
			b[31] = 0xff
			p := byz(tsed25519.ScalarMultiplyBase(x), b)
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: msg, EncryptedSecrets: []*hproto.EphemeralSecretPart{p}})
		case 17:
			c.TransferLeadership(ctx, &hproto.CosignerGRPCTransferLeadershipRequest{LeaderID: string(randBytes(r, 3000)[:0]) + "\x00no such id"})
		case 18: // not protobuf at all
			cc.Invoke(ctx, "/proto.CosignerGRPC/SignBlock", rawMsg(randBytes(r, 1+r.n(200))), &hproto.CosignerGRPCSignBlockResponse{}, grpc.ForceCodec(rawCodec{}))
		case 19:
			cc.Invoke(ctx, "/"+methodPath(), rawMsg(randBytes(r, 1+r.n(200))), &hproto.CosignerGRPCSignBlockResponse{}, grpc.ForceCodec(rawCodec{}))
		case 20: // a large request
			var ps []*hproto.EphemeralSecretPart
			for i := 0; i < 200; i++ {
				ps = append(ps, &hproto.EphemeralSecretPart{SourceID: int32(i), EncryptedSharePart: randBytes(r, 128), SourceSig: randBytes(r, 128)})
			}
			c.SetEphemeralSecretPartsAndSign(ctx, &hproto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{Hrst: hr, SignBytes: msg, EncryptedSecrets: ps})
		case 21: // sign bytes of another block than the one named
			q2 := *q
			q2.R += int64(r.n(3))
			q2.Kind = []string{"proposal", "prevote", "precommit"}[r.n(3)]
			c.SignBlock(ctx, &hproto.CosignerGRPCSignBlockRequest{ChainID: chainID, Block: &hproto.Block{Height: q.H, Round: q.R, Step: int32(stepOf(q.Kind)), SignBytes: signBytesOf(&q2), Timestamp: hr.Timestamp}})
		}
	})
}

type rawMsg []byte
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) {
	if b, ok := v.(rawMsg); ok {
		return b, nil
	}
	return gproto.Marshal(v.(gproto.Message))
}
func (rawCodec) Unmarshal(b []byte, v any) error { return gproto.Unmarshal(b, v.(gproto.Message)) }
func (rawCodec) Name() string                    { return "proto" }

// methodPath is the full name of the share-signing call, from the generated descriptor.
func methodPath() string {
	return string(hproto.CosignerGRPC_ServiceDesc.ServiceName) + "/SetEphemeralSecretPartsAndSign"
}
