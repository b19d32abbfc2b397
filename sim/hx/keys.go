//go:build go1.22

package main

import (
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/strangelove-ventures/horcrux/signer"
	tmcrypto "github.com/tendermint/tendermint/crypto"
	tmed "github.com/tendermint/tendermint/crypto/ed25519"
	tmjson "github.com/tendermint/tendermint/libs/json"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
	"gopkg.in/yaml.v2"
)

var (
	valPriv tmed.PrivKey
	valPub  tmcrypto.PubKey
	shares  [][]byte // by cosigner index
	rsaKeys []*rsa.PrivateKey
)

func loadRSA() {
	for _, s := range rsaPEM {
		b, _ := base64.StdEncoding.DecodeString(s)
		k, err := x509.ParsePKCS1PrivateKey(b)
		if err != nil {
			panic(err)
		}
		rsaKeys = append(rsaKeys, k)
	}
}

func loadRSAOnce() {
	if len(rsaKeys) == 0 {
		loadRSA()
	}
}

func makeKeys(seed uint64, t, n int) {
	h := sha256.Sum256([]byte(fmt.Sprint("validator", seed)))
	valPriv = tmed.GenPrivKeyFromSecret(h[:])
	valPub = valPriv.PubKey()
	if n > 0 {
		loadRSAOnce()
		for _, s := range tsed25519.DealShares(tsed25519.ExpandSecret(valPriv[:32]), uint8(t), uint8(n)) {
			shares = append(shares, s)
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type yChainNode struct {
	PrivValAddr string `yaml:"priv-val-addr"`
}
type yPeer struct {
	ShareID int    `yaml:"share-id"`
	P2PAddr string `yaml:"p2p-addr"`
}
type yCosigner struct {
	Threshold int     `yaml:"threshold"`
	Shares    int     `yaml:"shares"`
	P2PListen string  `yaml:"p2p-listen"`
	Peers     []yPeer `yaml:"peers"`
	Timeout   string  `yaml:"rpc-timeout"`
}
type yConfig struct {
	HomeDir        string       `yaml:"home-dir"`
	PrivValKeyFile string       `yaml:"key-file,omitempty"`
	ChainID        string       `yaml:"chain-id"`
	CosignerConfig *yCosigner   `yaml:"cosigner,omitempty"`
	ChainNodes     []yChainNode `yaml:"chain-nodes,omitempty"`
}

func emptyState(f string) {
	must(os.WriteFile(f, []byte("{\n  \"height\": \"0\",\n  \"round\": \"0\",\n  \"step\": 0,\n  \"ephemeral_public\": null\n}"), 0600))
}

// writeHome lays out a cosigner's home as `config init` and the key sharding do.
func (w *world) writeHome(nd *node, n, t int, sentries []int) {
	must(os.MkdirAll(filepath.Join(nd.dir, "state"), 0755))
	c := yConfig{HomeDir: "./" + nd.dir, ChainID: chainID, CosignerConfig: &yCosigner{Threshold: t, Shares: n,
		P2PListen: fmt.Sprintf("tcp://10.0.0.%d:2222", nd.id), Timeout: "1500ms"}}
	for j := 1; j <= n; j++ {
		if j != nd.id && w.present(j) {
			c.CosignerConfig.Peers = append(c.CosignerConfig.Peers, yPeer{j, fmt.Sprintf("tcp://10.0.0.%d:2222", j)})
		}
	}
	for _, k := range sentries {
		c.ChainNodes = append(c.ChainNodes, yChainNode{fmt.Sprintf("tcp://10.0.1.%d:1234", k)})
	}
	b, err := yaml.Marshal(&c)
	must(err)
	must(os.WriteFile(filepath.Join(nd.dir, "config.yaml"), b, 0644))
	var pubs []*rsa.PublicKey
	for j := 0; j < n; j++ {
		pubs = append(pubs, &rsaKeys[j].PublicKey)
	}
	key := signer.CosignerKey{PubKey: valPub, ShareKey: shares[nd.id-1], RSAKey: *rsaKeys[nd.id-1], ID: nd.id, CosignerKeys: pubs}
	kb, err := json.Marshal(&key)
	must(err)
	must(os.WriteFile(filepath.Join(nd.dir, "share.json"), kb, 0600))
	emptyState(nd.statePath("share"))
	emptyState(nd.statePath("priv"))
	nd.last["share"], nd.last["priv"] = hrs{}, hrs{}
}

func (w *world) writeSingleHome(nd *node, sentries []int) {
	must(os.MkdirAll(filepath.Join(nd.dir, "state"), 0755))
	c := yConfig{HomeDir: "./" + nd.dir, ChainID: chainID}
	for _, k := range sentries {
		c.ChainNodes = append(c.ChainNodes, yChainNode{fmt.Sprintf("tcp://10.0.1.%d:1234", k)})
	}
	b, err := yaml.Marshal(&c)
	must(err)
	must(os.WriteFile(filepath.Join(nd.dir, "config.yaml"), b, 0644))
	kb, err := tmjson.MarshalIndent(privval.FilePVKey{Address: valPub.Address(), PubKey: valPub, PrivKey: valPriv}, "", "  ")
	must(err)
	must(os.WriteFile(filepath.Join(nd.dir, "priv_validator_key.json"), kb, 0600))
	emptyState(nd.statePath("priv"))
	nd.last["priv"] = hrs{}
}

func (w *world) newNode(id int, name, ip string, idx int) *node {
	nd := &node{id: id, name: name, dir: name + "/.horcrux", last: map[string]hrs{}, lastTs: map[string]int64{}, damaged: map[string]bool{}}
	nd.h = w.net.hosts[ip]
	if nd.h == nil {
		nd.h = w.net.addHost(ip, idx)
	}
	nd.env = "./" + name
	return nd
}
