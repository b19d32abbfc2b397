//go:build go1.22

package main

// Key sharding (C21): the create-shares command makes the key files of the
// cluster, under disk errors and crashes; then the cluster signs with them.

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/strangelove-ventures/horcrux/cmd/horcrux/cmd"
	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/zzsim/plan"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

type shardRun struct {
	w       *world
	nd      *node
	kind    int64 // 1 crash, 2 power loss, 3 disk error
	at      int
	seen    int
	hit     string
	bits    int
	nkeys   int
	lastFor map[string]string // "t/n" -> first share of an earlier run
}

var groupL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func (s *shardRun) event(ev string, nd *node) {
	if nd != s.nd || s.kind != 1 && s.kind != 2 || s.hit != "" || !strings.HasPrefix(ev, "fs:") || !strings.Contains(ev, ":key:") {
		return
	}
	if s.seen++; s.seen < s.at {
		return
	}
	s.hit = []string{"", "crash", "power_loss"}[s.kind]
	s.w.faults[s.hit]++
	s.w.states["shard:"+s.hit+":"+ev] = true
	s.w.tr("%s at %s (operation %d) of create-shares", s.hit, ev, s.seen)
	s.w.kill(nd, s.kind == 2, false)
}

// simKey hands out the test keys instead of generating some.
func (s *shardRun) simKey(bits int) *rsa.PrivateKey {
	s.bits = bits
	if s.nkeys >= len(rsaKeys) {
		return nil
	}
	s.nkeys++
	return rsaKeys[s.nkeys-1]
}

// createShares runs the command once; it reports whether it succeeded.
func (s *shardRun) createShares(t, n int, kind int64, at int, errno int, short bool) bool {
	w := s.w
	s.kind, s.at, s.seen, s.hit, s.nkeys, s.bits = kind, at, 0, "", 0, 0
	rsa.SimKey = s.simKey
	defer func() { rsa.SimKey = nil }()
	nd := s.nd
	nd.args = []string{"create-shares", "pv_key.json", fmt.Sprint(t), fmt.Sprint(n)}
	nd.cli = true
	if kind == 3 {
		op := []string{"open", "write"}[at%2]
		nd.ioerrs = append(nd.ioerrs, ioFault{op: op, class: "key", ct: 1 + at/2, errno: errno, short: short})
	}
	before, _ := os.ReadFile("pv_key.json")
	w.start(nd)
	for i := 0; nd.alive; i++ {
		if i > 600 {
			w.violate("C21", "hang", "create-shares %d %d did not end within 60 s", t, n)
			w.kill(nd, false, false)
			return false
		}
		time.Sleep(100 * time.Millisecond)
	}
	nd.ioerrs = nil
	if nd.ioHit {
		s.hit = "io_error"
	}
	after, _ := os.ReadFile("pv_key.json")
	if !bytes.Equal(before, after) {
		w.violate("C21", "key-changed", "create-shares changed the validator key file")
	}
	w.stats["shard_runs"]++
	w.stats[fmt.Sprintf("shard_exit_%d", nd.exitCode)]++
	w.states[fmt.Sprintf("shard:%d/%d:%s:%d", t, n, s.hit, nd.exitCode)] = true
	if nd.exitCode == 0 && s.hit != "crash" && s.hit != "power_loss" {
		s.check(t, n)
		return true
	}
	if s.hit == "" {
		w.violate("C21", "refused", "create-shares for threshold %d of %d failed: exit %d %.200q %.200q", t, n, nd.exitCode, nd.exitWhy, lastLines(nd.out.String(), 2))
	}
	return false
}

// impossible runs the command with parameters that no set of shares can meet.
func (s *shardRun) impossible(t, n int) {
	w, nd := s.w, s.nd
	s.kind, s.hit, s.nkeys, s.bits = 0, "", 0, 0
	rsa.SimKey = s.simKey
	defer func() { rsa.SimKey = nil }()
	nd.args = []string{"create-shares", "--", "pv_key.json", fmt.Sprint(t), fmt.Sprint(n)}
	nd.cli = true
	list := func() string {
		l, _ := filepath.Glob("private_share_*.json")
		for i, f := range l {
			b, _ := os.ReadFile(f)
			l[i] = fmt.Sprintf("%s:%x", f, sha256.Sum256(b))
		}
		return strings.Join(l, ",")
	}
	before := list()
	w.start(nd)
	for i := 0; nd.alive && i < 600; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if nd.alive {
		w.violate("C21", "hang", "create-shares %d %d did not end within 60 s", t, n)
		w.kill(nd, false, false)
		return
	}
	w.stats["shard_impossible"]++
	w.states[fmt.Sprintf("shard-bad:%v:%v:%v:%d", t > 255, n > 255, t < 1 || n < 1, nd.exitCode)] = true
	if nd.exitCode == 0 {
		w.violate("C21", "impossible", "create-shares made %d shares with threshold %d: no such shares can make up the key", n, t)
	}
	if list() != before {
		w.violate("C21", "impossible-files", "create-shares %d %d failed and changed share files", t, n)
	}
}

// check is the oracle for one set of share files.
func (s *shardRun) check(t, n int) {
	w := s.w
	what := fmt.Sprintf("create-shares %d %d (fault %q)", t, n, s.hit)
	if s.bits != 0 && s.bits < 2048 {
		w.violate("C21", "weak-rsa", "%s made RSA keys of %d bits", what, s.bits)
	}
	var keys []signer.CosignerKey
	var raw [][]byte
	for i := 1; i <= n; i++ {
		f := fmt.Sprintf("private_share_%d.json", i)
		b, err := os.ReadFile(f)
		if err != nil {
			w.violate("C21", "missing", "%s succeeded without share file %d: %v", what, i, err)
			return
		}
		k, err := signer.LoadCosignerKey(f)
		if err != nil {
			w.violate("C21", "unreadable", "%s succeeded and share file %d does not load: %v", what, i, err)
			return
		}
		keys, raw = append(keys, k), append(raw, b)
	}
	var xs []*big.Int
	for i, k := range keys {
		id := i + 1
		if k.ID != id {
			w.violate("C21", "id", "%s: share file %d has the ID %d", what, id, k.ID)
		}
		if k.PubKey == nil || !k.PubKey.Equals(valPub) {
			w.violate("C21", "pubkey", "%s: share file %d does not have the validator's public key", what, id)
		}
		if len(k.CosignerKeys) != n {
			w.violate("C21", "rsa-pubs", "%s: share file %d has %d RSA public keys", what, id, len(k.CosignerKeys))
			return
		}
		if len(k.ShareKey) != 32 {
			w.violate("C21", "share-len", "%s: the share in file %d has %d bytes", what, id, len(k.ShareKey))
			return
		}
		xs = append(xs, leInt(k.ShareKey))
	}
	for i := range keys {
		for j := range keys {
			if keys[i].CosignerKeys[j].N.Cmp(keys[j].RSAKey.N) != 0 || keys[i].CosignerKeys[j].E != keys[j].RSAKey.E {
				w.violate("C21", "rsa-pubs", "%s: share file %d has another RSA public key for cosigner %d than that one's own", what, i+1, j+1)
			}
			if i == j {
				continue
			}
			if keys[i].RSAKey.N.Cmp(keys[j].RSAKey.N) == 0 {
				w.violate("C21", "rsa-same", "%s: cosigners %d and %d have the same RSA key", what, i+1, j+1)
			}
			if t > 1 && xs[i].Cmp(xs[j]) == 0 {
				w.violate("C21", "share-same", "%s: cosigners %d and %d have the same share", what, i+1, j+1)
			}
			if t > 1 && holds(raw[i], keys[j].ShareKey) {
				w.violate("C21", "foreign-share", "%s: share file %d has the share of cosigner %d", what, i+1, j+1)
			}
			if holds(raw[i], x509.MarshalPKCS1PrivateKey(&keys[j].RSAKey)) {
				w.violate("C21", "foreign-rsa", "%s: share file %d has the RSA key of cosigner %d", what, i+1, j+1)
			}
		}
		if holds(raw[i], valPriv[:32]) || t > 1 && holds(raw[i], tsed25519.ExpandSecret(valPriv[:32])) {
			w.violate("C21", "whole-key", "%s: share file %d has the whole validator key", what, i+1)
		}
	}
	pub := valPub.Bytes()
	subsets := subsets
	if n > 7 {
		subsets = func(n, k int, f func([]int)) {
			for i := 0; i < 40; i++ {
				f(w.someOf(n, k))
			}
		}
	}
	subsets(n, t, func(ids []int) {
		if !bytes.Equal(tsed25519.ScalarMultiplyBase(scalarLE(interpolate(ids, xs))), pub) {
			w.violate("C21", "no-key", "%s: the shares %v do not make up the validator key", what, ids)
		}
	})
	for k := 1; k < t; k++ {
		subsets(n, k, func(ids []int) {
			if bytes.Equal(tsed25519.ScalarMultiplyBase(scalarLE(interpolate(ids, xs))), pub) {
				w.violate("C21", "too-few", "%s: the %d shares %v make up the validator key", what, k, ids)
			}
		})
	}
	if t > 1 {
		if last, ok := s.lastFor[fmt.Sprint(t)]; ok && last == string(keys[0].ShareKey) {
			w.violate("C21", "not-random", "%s: another run gave the same share", what)
		}
		s.lastFor[fmt.Sprint(t)] = string(keys[0].ShareKey)
	}
	w.stats["shard_checked"]++
}

func holds(file, secret []byte) bool {
	rev := make([]byte, len(secret))
	for i, b := range secret {
		rev[len(secret)-1-i] = b
	}
	for _, x := range [][]byte{secret, rev} {
		for _, f := range []string{string(x), base64.StdEncoding.EncodeToString(x), hex.EncodeToString(x), strings.ToUpper(hex.EncodeToString(x))} {
			if bytes.Contains(file, []byte(f)) {
				return true
			}
		}
	}
	return false
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func scalarLE(x *big.Int) []byte {
	b := x.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// interpolate gives the value at zero of the polynomial through the shares.
func interpolate(ids []int, xs []*big.Int) *big.Int {
	sum := new(big.Int)
	for _, i := range ids {
		num, den := big.NewInt(1), big.NewInt(1)
		for _, j := range ids {
			if i != j {
				num.Mul(num, big.NewInt(int64(-j)))
				den.Mul(den, big.NewInt(int64(i-j)))
			}
		}
		den.Mod(den, groupL)
		num.Mul(num, den.ModInverse(den, groupL))
		num.Mul(num, xs[i-1])
		sum.Add(sum, num)
		sum.Mod(sum, groupL)
	}
	return sum
}

func subsets(n, k int, f func([]int)) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == k {
			f(cur)
			return
		}
		for i := from; i <= n; i++ {
			rec(i+1, append(cur[:len(cur):len(cur)], i))
		}
	}
	rec(1, nil)
}

// someOf picks k of the numbers from 1 to n.
func (w *world) someOf(n, k int) []int {
	var r []int
	for i := 1; i <= n; i++ {
		if w.rng.n(n-i+1) < k-len(r) {
			r = append(r, i)
		}
	}
	return r
}

// shard makes the share files of the cluster with the real command.
func (w *world) shard() bool {
	p := w.p
	loadRSAOnce()
	kb, err := tmjson.MarshalIndent(privval.FilePVKey{Address: valPub.Address(), PubKey: valPub, PrivKey: valPriv}, "", "  ")
	must(err)
	must(os.WriteFile("pv_key.json", kb, 0600))
	nd := w.newNode(0, "keygen", "10.0.2.1", 9)
	nd.dir = "."
	s := &shardRun{w: w, nd: nd, lastFor: map[string]string{}}
	w.shardRun = s
	defer func() { w.shardRun = nil }()
	for i := int64(0); i < p.O("shExtra"); i++ {
		n := 1 + w.rng.n(7)
		if w.rng.n(4) == 0 {
			n = 8 + w.rng.n(len(rsaKeys)-7)
		}
		t := 1 + w.rng.n(n)
		s.createShares(t, n, 0, 0, 0, false)
	}
	for i := int64(0); i < p.O("shBad"); i++ {
		n := 1 + w.rng.n(4)
		t := 1 + w.rng.n(n)
		switch w.rng.n(6) {
		case 0:
			t = n + 1 + w.rng.n(3)
		case 1:
			t = -w.rng.n(3)
		case 2:
			t += 256
		case 3:
			n += 256
		case 4:
			n = -w.rng.n(3)
		default:
			t, n = t+256, n+256
		}
		s.impossible(t, n)
	}
	for i := int64(0); i < p.O("shFaults"); i++ {
		k := fmt.Sprint(i)
		t, n := p.T, p.N
		if p.O("shN"+k) > 0 {
			t, n = int(p.O("shT"+k)), int(p.O("shN"+k))
		}
		s.createShares(t, n, p.O("shK"+k), int(p.O("shC"+k)), int(p.O("shE"+k)), p.O("shS"+k) == 1)
		if p.O("shRm"+k) == 1 {
			os.Remove(fmt.Sprintf("private_share_%d.json", 1+w.rng.n(n)))
		}
	}
	if !s.createShares(p.T, p.N, 0, 0, 0, false) {
		return false
	}
	for i := 1; i <= p.N; i++ {
		k, err := signer.LoadCosignerKey(fmt.Sprintf("private_share_%d.json", i))
		if err != nil || len(k.ShareKey) != 32 {
			return false
		}
		shares[i-1] = k.ShareKey
	}
	return true
}

func (w *world) shareFile(nd *node) {
	b, err := os.ReadFile(fmt.Sprintf("private_share_%d.json", nd.id))
	must(err)
	must(os.WriteFile(filepath.Join(nd.dir, "share.json"), b, 0600))
}

// checkAddress: "cosigner address" prints the validator's address and public key.
func (w *world) checkAddress(n *node) {
	c := w.newNode(0, fmt.Sprintf("cli%d", w.nextNid), n.h.name, 0)
	c.cli = true
	c.env = n.env
	prefix := []string{"", "cosmos", "x"}[w.rng.n(3)]
	c.args = []string{"cosigner", "address"}
	if prefix != "" {
		c.args = append(c.args, prefix)
	}
	w.start(c)
	if ex := c.exited; ex != nil {
		<-ex
	}
	pub := valPub.Bytes()
	addr := valPub.Address()
	var got cmd.AddressCmdOutput
	out := c.out.String()
	i := strings.IndexByte(out, '{')
	if c.exitCode != 0 || i < 0 || json.Unmarshal([]byte(out[i:]), &got) != nil {
		w.violate("C21", "address", "cosigner address %s failed with the created shares: exit %d %.200q %.200q", prefix, c.exitCode, c.exitWhy, lastLines(out, 2))
		return
	}
	w.stats["addresses_checked"]++
	bad := ""
	if got.HexAddress != strings.ToUpper(hex.EncodeToString(addr)) {
		bad = "hex address " + got.HexAddress
	}
	if !strings.Contains(got.PubKey, base64.StdEncoding.EncodeToString(pub)) {
		bad = "public key " + got.PubKey
	}
	if prefix != "" {
		hrp, b, err := bech32.DecodeAndConvert(got.ValConsAddress)
		if err != nil || hrp != prefix+"valcons" || string(b) != string(addr) {
			bad = "consensus address " + got.ValConsAddress
		}
		hrp, b, err = bech32.DecodeAndConvert(got.ValConsPubAddress)
		if err != nil || hrp != prefix+"valconspub" || !bytes.HasSuffix(b, pub) {
			bad = "consensus public key " + got.ValConsPubAddress
		}
	}
	if bad != "" {
		w.violate("C21", "address", "cosigner address %s prints the %s for the validator %X", prefix, bad, addr)
	}
}

// finalC21: every threshold of the cosigners signs with these shares.
func (w *world) finalC21() {
	if left, _ := w.signEverywhere(240000); len(left) > 0 {
		w.violate("C21", "no-signature", "the cluster does not sign with the created shares: %s", w.describe())
		return
	}
	w.checkAddress(w.nodes[1+w.rng.n(w.p.N)])
	var all [][]int
	subsets(w.p.N, w.p.T, func(ids []int) { all = append(all, ids) })
	for k := 0; k < 3 && w.p.T < w.p.N; k++ {
		ids := all[w.rng.n(len(all))]
		in := map[int]bool{}
		for _, i := range ids {
			in[i] = true
		}
		for _, n := range w.nodes[1:] {
			n.held = !in[n.id]
			if n.held && n.alive {
				w.kill(n, false, false)
			} else if !n.held && !n.alive {
				w.start(n)
			}
		}
		if len(w.liveLinks()) == 0 {
			continue
		}
		if left, _ := w.signEverywhere(240000); len(left) > 0 {
			w.violate("C21", "no-signature", "the cosigners %v do not sign with their shares: %s", ids, w.describe())
			return
		}
		w.stats["subsets_signed"]++
		w.states[fmt.Sprintf("subset:%d/%d:%v", w.p.T, w.p.N, ids)] = true
	}
}

var _ = plan.Req{}
var _ = syscall.EIO
