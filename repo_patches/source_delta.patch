From 2456fe07c7754744e7b996347ec036bc2c76164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 01/22] fix: store the sign state before a signature is
 released

Save wrote the state file in a goroutine of its own: the signature left the
process before the watermark was on disk, and writers raced so that an older
state could replace a newer one.
---
 signer/sign_state.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..a213c2a 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,8 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+	// The watermark must be on disk before the caller releases a signature
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From 7c272f78cc5ed9dd4252cbc3b849c508082fd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 02/22] fix: do not answer an older vote that differs by
 timestamp with an empty signature

---
 signer/threshold_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..70b1fe1 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && existingSignature != nil {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From 45eb42ed7d251ca48337892e9d202be6f6f13d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 03/22] fix: set the threshold validator before the raft store
 starts

Log entries are applied and requests served as soon as the store runs; with no
validator set yet they ended the process with a nil pointer dereference.
---
 cmd/horcrux/cmd/cosigner.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..2bd1d68 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -217,14 +217,8 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
-
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
 				Threshold: cfg.CosignerThreshold,
@@ -235,8 +229,15 @@ func StartCosignerCmd() *cobra.Command {
 				Logger:    logger,
 			})
 
+			// the RAFT store needs the validator as soon as it runs
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// Start RAFT store listener
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
-- 
2.43.0


From 2aafd852d72f5cadf9f9b62d45496f1690c227f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 04/22] fix: do not replace a sign state that could not be read
 with an empty one

---
 signer/sign_state.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index a213c2a..8c158cd 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"sync"
 
 	"github.com/gogo/protobuf/proto"
@@ -265,15 +266,19 @@ func LoadSignState(filepath string) (SignState, error) {
 }
 
 // LoadOrCreateSignState loads the sign state from filepath
-// If the sign state could not be loaded, an empty sign state is initialized
-// and saved to filepath.
+// If there is no sign state yet (no file, or an empty one), an empty sign state
+// is initialized and saved to filepath. A sign state that exists but could not
+// be loaded is an error, it is never replaced.
 func LoadOrCreateSignState(filepath string) (SignState, error) {
 	existing, err := LoadSignState(filepath)
 	if err == nil {
 		return existing, nil
 	}
+	info, statErr := os.Stat(filepath)
+	if !os.IsNotExist(statErr) && (statErr != nil || info.Size() != 0) {
+		return existing, err
+	}
 
-	// There was an error loading the sign state
 	// Make an empty sign state and save it
 	state := SignState{}
 	state.filePath = filepath
-- 
2.43.0


From 040d0daaea7184cc0f9fbd6e071c3522a81148b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 05/22] fix: single signer keeps its watermark over restarts

The signer started with an empty sign state whatever the state file held, so a
restart allowed double signing. Read the file, in the format privval writes or
in the one of the config and state commands.
---
 cmd/horcrux/cmd/signer.go | 42 ++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..7319bb5 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	tmjson "github.com/tendermint/tendermint/libs/json"
 	tmlog "github.com/tendermint/tendermint/libs/log"
 	tmService "github.com/tendermint/tendermint/libs/service"
 	"github.com/tendermint/tendermint/privval"
@@ -24,6 +25,35 @@ var signerCmd = &cobra.Command{
 	Short: "Remote tx signer for TM based nodes.",
 }
 
+// loadFilePVState sets the last sign state of pv from the state file. There is
+// none before the first start. The file is in the format of privval or, when it
+// comes from the config or state commands, in the format of signer.SignState.
+func loadFilePVState(pv *privval.FilePV, stateFile string) error {
+	f, err := os.Stat(stateFile)
+	if os.IsNotExist(err) || (err == nil && f.Size() == 0) {
+		return nil
+	}
+	bz, err := os.ReadFile(stateFile)
+	if err != nil {
+		return err
+	}
+	lss := privval.FilePVLastSignState{}
+	if err = tmjson.Unmarshal(bz, &lss); err != nil {
+		state, err := signer.LoadSignState(stateFile)
+		if err != nil {
+			return err
+		}
+		lss.Height, lss.Round, lss.Step = state.Height, int32(state.Round), state.Step
+		lss.Signature, lss.SignBytes = state.Signature, state.SignBytes
+	}
+	pv.LastSignState.Height = lss.Height
+	pv.LastSignState.Round = lss.Round
+	pv.LastSignState.Step = lss.Step
+	pv.LastSignState.Signature = lss.Signature
+	pv.LastSignState.SignBytes = lss.SignBytes
+	return nil
+}
+
 func StartSignerCmd() *cobra.Command {
 	cmd := &cobra.Command{
 		Use:   "start",
@@ -69,13 +99,11 @@ func StartSignerCmd() *cobra.Command {
 			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			filePV := privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			if err = loadFilePVState(filePV, stateFile); err != nil {
+				return fmt.Errorf("error reading sign state: %s", err)
+			}
+			val = filePV
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
-- 
2.43.0


From ce45377ad9c4adfc0b1851f84325a32a9083ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 06/22] fix: write the config file atomically

A crash or a full disk in the middle of the write left a truncated config file.
---
 cmd/horcrux/cmd/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..94dda9c 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -3,7 +3,6 @@ package cmd
 import (
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"net"
 	"net/url"
 	"os"
@@ -15,6 +14,7 @@ import (
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	"github.com/tendermint/tendermint/libs/tempfile"
 	"gopkg.in/yaml.v2"
 )
 
@@ -178,7 +178,7 @@ func initCmd() *cobra.Command {
 }
 
 func writeConfigFile(path string, cfg *Config) error {
-	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
+	return tempfile.WriteFileAtomic(path, cfg.MustMarshalYaml(), 0644)
 }
 
 func validateSingleSignerConfig(cfg *Config) error {
-- 
2.43.0


From e5bc18e9ae89a09e2252803045fd3523ef2111e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 07/22] fix: changing the chain id keeps a sign state for the
 configured chain id at every point

The state files were moved before the config changed, and in single-signer mode
the command always failed in between, so that the signer started with a fresh
sign state afterwards.
---
 cmd/horcrux/cmd/config.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 94dda9c..1f9655f 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"net"
 	"net/url"
 	"os"
@@ -496,22 +497,37 @@ func setChainIDCmd() *cobra.Command {
 			}
 
 			stateDir := path.Join(home, "state")
-			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
-			pvNewPath := path.Join(stateDir, args[0]+"_priv_validator_state.json")
-			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
-			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
-
-			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
-				return err
+			suffixes := []string{"_priv_validator_state.json"}
+			if config.CosignerConfig != nil {
+				suffixes = append(suffixes, "_share_sign_state.json")
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+
+			// Copy the sign state before, and remove the old one after the config is changed:
+			// whenever this stops, the chain ID in the config has its sign state.
+			oldChainID := config.ChainID
+			for _, suffix := range suffixes {
+				bz, err := ioutil.ReadFile(path.Join(stateDir, oldChainID+suffix))
+				if err != nil {
+					return err
+				}
+				if err = tempfile.WriteFileAtomic(path.Join(stateDir, args[0]+suffix), bz, 0600); err != nil {
+					return err
+				}
 			}
 
 			config.ChainID = args[0]
 			if err = writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
 				return err
 			}
+
+			if args[0] == oldChainID {
+				return nil
+			}
+			for _, suffix := range suffixes {
+				if err = os.Remove(path.Join(stateDir, oldChainID+suffix)); err != nil {
+					return err
+				}
+			}
 			return nil
 		},
 	}
-- 
2.43.0


From 283658aef2d841dcf039728a0a0c577a22189a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 08/22] fix: never sign with an ephemeral secret that lacks our
 own part

A request with parts but without a preceding GetEphemeralSecretParts (or none at
all after a refused one) was signed with the parts of others only, or with a
zero nonce, which reveals the key share. Metadata dealt for such a request was
also shared between timestamps.
---
 signer/local_cosigner.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..3d6476f 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -191,6 +191,11 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		return res, errors.New("no metadata at HRS")
 	}
 
+	// without our own part this is not a nonce that we dealt, and with no parts at all it would be zero
+	if len(meta.Peers[cosigner.key.ID-1].Share) == 0 {
+		return res, errors.New("no ephemeral secret part of our own at HRS")
+	}
+
 	shareParts := make([]tsed25519.Scalar, 0)
 	publicKeys := make([]tsed25519.Element, 0)
 
@@ -440,9 +445,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From f9aef224476de832a3cb209c49ddbc29ddd1cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 09/22] fix: refuse malformed sign requests instead of
 panicking

A vote or proposal that is missing, of unknown type or with an invalid block ID
ended the process, as did sign bytes with an unknown vote type over gRPC.
---
 signer/Serialization.go |  3 +++
 signer/remote_signer.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..30c67d9 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -36,6 +36,9 @@ func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var vote tmProto.CanonicalVote
 		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+			if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {
+				return HRSTKey{0, 0, 0, 0}, errors.New("unknown vote type in sign bytes")
+			}
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..972a211 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"time"
@@ -138,11 +139,37 @@ func (rs *ReconnRemoteSigner) handleRequest(req tmProtoPrivval.Message) tmProtoP
 	}
 }
 
+// validateVote checks what the sign bytes of a vote need, which panic otherwise
+func validateVote(vote *tmProto.Vote) error {
+	if vote == nil {
+		return errors.New("no vote in request")
+	}
+	if !tm.IsVoteTypeValid(vote.Type) {
+		return fmt.Errorf("unknown vote type: %v", vote.Type)
+	}
+	_, err := tm.BlockIDFromProto(&vote.BlockID)
+	return err
+}
+
+// validateProposal checks what the sign bytes of a proposal need, which panic otherwise
+func validateProposal(proposal *tmProto.Proposal) error {
+	if proposal == nil {
+		return errors.New("no proposal in request")
+	}
+	_, err := tm.BlockIDFromProto(&proposal.BlockID)
+	return err
+}
+
 func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoPrivval.Message {
 	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if err := validateVote(vote); err != nil {
+		rs.Logger.Error("Invalid sign vote request", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -165,6 +192,11 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if err := validateProposal(proposal); err != nil {
+		rs.Logger.Error("Invalid sign proposal request", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
-- 
2.43.0


From 8226f3a44fd8aad7772cb2688c6be3e8336c63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 10/22] fix: a request to elect the current leader leaves it
 the leader

It fell through to a transfer to any other cosigner.
---
 signer/grpc_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..565ca3e 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -72,6 +72,11 @@ func (rpc *GRPCServer) TransferLeadership(
 ) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
 	leaderID := req.GetLeaderID()
 	if leaderID != "" {
+		if leaderID == rpc.raftStore.NodeID && rpc.raftStore.raft.State() == raft.Leader {
+			fmt.Printf("Already the leader: %s\n", leaderID)
+			return &proto.CosignerGRPCTransferLeadershipResponse{
+				LeaderID: leaderID, LeaderAddress: p2pURLToRaftAddress(rpc.raftStore.RaftBind)}, nil
+		}
 		for _, peer := range rpc.raftStore.Peers {
 			thisPeerID := fmt.Sprint(peer.GetID())
 			if thisPeerID == leaderID {
-- 
2.43.0


From 7bf1ae40ff77a61b1c654b2fd7fa1fe16066b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 11/22] fix: config init keeps a single signer's existing sign
 state

A home directory whose sign state was written by the single signer (the
tendermint format) could not be initialized again: the state failed to load
as a cosigner's and the command stopped after it had written the config.
---
 cmd/horcrux/cmd/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 1f9655f..9e49f66 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -148,9 +148,12 @@ func initCmd() *cobra.Command {
 			}
 
 			// initialize state/{chainid}_priv_validator_state.json file
-			if _, err = signer.LoadOrCreateSignState(
-				path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))); err != nil {
-				return err
+			// (a single signer keeps its existing one in the tendermint format)
+			pvStatePath := path.Join(home, "state", fmt.Sprintf("%s_priv_validator_state.json", cid))
+			if _, statErr := os.Stat(pvStatePath); cs || os.IsNotExist(statErr) {
+				if _, err = signer.LoadOrCreateSignState(pvStatePath); err != nil {
+					return err
+				}
 			}
 
 			// if node is a cosigner initialize state/{chainid}_priv_validator_state.json file
-- 
2.43.0


From 6a696255cc1e4fd3dfaee559566686e11a268ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 12/22] fix: refuse a chain node address that does not parse
 wherever it stands in the list

Only the last address was checked, as each one overwrote the error of the one before.
---
 cmd/horcrux/cmd/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 9e49f66..66bf840 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -647,7 +647,9 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 
 func validateChainNodes(nodes []ChainNode) (err error) {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if _, err = url.Parse(n.PrivValAddr); err != nil {
+			return err
+		}
 	}
-	return
+	return nil
 }
-- 
2.43.0


From 8965b756799f62ff2a3f26bd4772d38d026c00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 13/22] fix: do not start a cosigner with a threshold below one

With it (0 is the default of init) the first sign request crashed the cosigner:
negative WaitGroup counter.
---
 cmd/horcrux/cmd/cosigner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 2bd1d68..d8becb8 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -114,6 +114,10 @@ func StartCosignerCmd() *cobra.Command {
 				return
 			}
 
+			if config.CosignerConfig.Threshold < 1 {
+				return fmt.Errorf("threshold (%d) must be at least 1", config.CosignerConfig.Threshold)
+			}
+
 			var (
 				// services to stop on shutdown
 				services []tmService.Service
-- 
2.43.0


From 86c18f43f527186f08f0afe73755899ac0bd0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 14/22] fix: refuse an empty chain ID in chain-id set

No signer starts with the configuration it wrote.
---
 cmd/horcrux/cmd/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 66bf840..1fe7c23 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -499,6 +499,10 @@ func setChainIDCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if args[0] == "" {
+				return errors.New("chain-id cannot be empty")
+			}
+
 			stateDir := path.Join(home, "state")
 			suffixes := []string{"_priv_validator_state.json"}
 			if config.CosignerConfig != nil {
-- 
2.43.0


From d97b3a31138b8b3c34e8d00c587f29730fb06780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 15/22] fix: sign with share IDs above the number of configured
 cosigners

After a peer was removed (config peers remove), dealing to or signing with a
higher share ID ran out of the range of slices sized by the number of peers,
which crashed the cosigner.
---
 cmd/horcrux/cmd/cosigner.go   | 3 ++-
 signer/threshold_validator.go | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index d8becb8..5a996c8 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -198,7 +198,8 @@ func StartCosignerCmd() *cobra.Command {
 				})
 			}
 
-			total := len(cfg.Cosigners) + 1
+			// share IDs go up to the number of key shares, also with fewer peers than that
+			total := len(key.CosignerKeys)
 			localCosignerConfig := signer.LocalCosignerConfig{
 				CosignerKey: key,
 				SignState:   &shareSignState,
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 70b1fe1..8d71dc9 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -360,8 +360,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		}
 	}
 
-	numPeers := len(pv.peers)
-	total := uint8(numPeers + 1)
+	// share IDs may have gaps, with fewer peers than key shares
+	total := uint8(pv.cosigner.GetID())
+	for _, peer := range pv.peers {
+		if id := uint8(peer.GetID()); id > total {
+			total = id
+		}
+	}
 	getEphemeralWaitGroup := sync.WaitGroup{}
 
 	// Only wait until we have threshold sigs
-- 
2.43.0


From 57c28bcb7f4d5fc86eecfa444c074411d5f58e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 16/22] fix: refuse to start with the cosigner's own share ID
 among the peers

Raft never starts with such a cluster, and the cosigner counted itself twice
towards the threshold.
---
 cmd/horcrux/cmd/cosigner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 5a996c8..b51532d 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -187,7 +187,7 @@ func StartCosignerCmd() *cobra.Command {
 				cosigner := signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)
 				cosigners = append(cosigners, cosigner)
 
-				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) {
+				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) || cosignerConfig.ID == key.ID {
 					log.Fatalf("Unexpected cosigner ID %d", cosignerConfig.ID)
 				}
 
-- 
2.43.0


From b32ee9f0b886b91d6bec4ac6b4fdaafae3168e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 17/22] fix: handle raft heartbeats in raft's main loop

hashicorp/raft processes a heartbeat that the transport hands to its fast
path concurrently with its main loop. The heartbeat of a new leader can so
move a deposed leader to the new term between receiving a command and
appending it: the command ends up in its log stamped with the new leader's
term, is applied there when the new leader commits that index, and the node
disagrees with the others about the replicated state from then on.
---
 signer/raft_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signer/raft_store.go b/signer/raft_store.go
index 727cb28..0cab3db 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -176,6 +176,11 @@ func (s *RaftStore) Open() (*gRPCTransport.Manager, error) {
 	}
 	s.raft = ra
 
+	// Handle heartbeats in raft's main loop, like every other request. The fast path handles them
+	// concurrently with it: the heartbeat of a new leader can then move a deposed leader to the new
+	// term while it appends a command, which ends up in its log as if the new leader had sent it.
+	transportManager.Transport().SetHeartbeatHandler(nil)
+
 	configuration := raft.Configuration{
 		Servers: []raft.Server{
 			{
-- 
2.43.0


From 0af9080464a42f8f390ec1190b71036eb7967ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:14 +0000
Subject: [PATCH 18/22] fix: refuse to create shares that cannot make up the
 key

---
 signer/cosigner_key_shares.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..457eb68 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,6 +4,7 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 
 	tmjson "github.com/tendermint/tendermint/libs/json"
@@ -22,6 +23,11 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if shares < 1 || shares > 255 || threshold < 1 || threshold > shares {
+		return nil, fmt.Errorf("cannot create %d shares with threshold %d: need 1 <= threshold <= shares <= 255",
+			shares, threshold)
+	}
+
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
-- 
2.43.0


From bf1d9565ab5daa4cc908123b9cdd516be09579aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:33 +0000
Subject: [PATCH 19/22] fix: let the state commands work with --home

---
 cmd/horcrux/cmd/state.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..31b0e73 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -40,8 +40,8 @@ func showStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
+			if _, err := os.Stat(stateDir); os.IsNotExist(err) {
+				return fmt.Errorf("%s does not exist, initialize the configuration before trying again", stateDir)
 			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
@@ -85,8 +85,8 @@ func setStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
+			if _, err := os.Stat(stateDir); os.IsNotExist(err) {
+				return fmt.Errorf("%s does not exist, initialize the configuration before trying again", stateDir)
 			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
-- 
2.43.0


From 29fb5ed7e58ae1bebfe3bcb1f84405ce80421298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 20/22] fix: do not take the state command itself for a running
 signer

---
 cmd/horcrux/cmd/state.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 31b0e73..80673dc 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path"
 	"strconv"
+	"strings"
 
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
@@ -124,7 +125,13 @@ func setStateCmd() *cobra.Command {
 func isRunning() bool {
 	pipe := "ps -ax | pgrep horcrux"
 	bz, _ := exec.Command("bash", "-c", pipe).Output()
-	return len(bz) != 0
+	// pgrep lists this command's own process too.
+	for _, pid := range strings.Fields(string(bz)) {
+		if pid != strconv.Itoa(os.Getpid()) {
+			return true
+		}
+	}
+	return false
 }
 
 func printSignState(ss signer.SignState) {
-- 
2.43.0


From 8f1efc619078c2228b43c32d00a5b6564219e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 21/22] fix: chain-id set does not replace a sign state that is
 further ahead

---
 cmd/horcrux/cmd/config.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 1fe7c23..dfecc2b 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -16,6 +16,7 @@ import (
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
 	"github.com/tendermint/tendermint/libs/tempfile"
+	"github.com/tendermint/tendermint/privval"
 	"gopkg.in/yaml.v2"
 )
 
@@ -509,6 +510,14 @@ func setChainIDCmd() *cobra.Command {
 				suffixes = append(suffixes, "_share_sign_state.json")
 			}
 
+			// A chain that has signed further already keeps its sign state.
+			for _, suffix := range suffixes {
+				err = checkNotAhead(path.Join(stateDir, args[0]+suffix), path.Join(stateDir, config.ChainID+suffix))
+				if err != nil {
+					return err
+				}
+			}
+
 			// Copy the sign state before, and remove the old one after the config is changed:
 			// whenever this stops, the chain ID in the config has its sign state.
 			oldChainID := config.ChainID
@@ -540,6 +549,25 @@ func setChainIDCmd() *cobra.Command {
 	}
 }
 
+// checkNotAhead returns an error if there is a sign state in file that is ahead of the one in other.
+func checkNotAhead(file, other string) error {
+	if _, err := os.Stat(file); os.IsNotExist(err) {
+		return nil
+	}
+	var a, b privval.FilePV
+	if err := loadFilePVState(&a, file); err != nil {
+		return err
+	}
+	if err := loadFilePVState(&b, other); err != nil {
+		return err
+	}
+	x, y := a.LastSignState, b.LastSignState
+	if x.Height > y.Height || (x.Height == y.Height && (x.Round > y.Round || (x.Round == y.Round && x.Step > y.Step))) {
+		return fmt.Errorf("the sign state %s is ahead of %s", file, other)
+	}
+	return nil
+}
+
 type Config struct {
 	HomeDir        string          `json:"home-dir" yaml:"home-dir"`
 	PrivValKeyFile string          `json:"key-file,omitempty" yaml:"key-file,omitempty"`
-- 
2.43.0


From 878cc5a1b19b7ba7ada8c6ce0c5cb30fd0b77a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 22/22] fix: do not leave a goroutine behind when cosigners do
 not answer

Below the threshold every sign attempt times out. The goroutine that waited
for the missing peers' WaitGroup was never released: one more stayed behind
with each attempt, for the life of the process.
---
 signer/threshold_validator.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 8d71dc9..55025e3 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -172,7 +172,7 @@ func newStillWaitingForBlockError(hrs HRSKey) *StillWaitingForBlockError {
 func (pv *ThresholdValidator) waitForPeerEphemeralShares(
 	peer Cosigner,
 	hrst HRSTKey,
-	wg *sync.WaitGroup,
+	thresholdReached chan<- struct{},
 	encryptedEphemeralSharesThresholdMap *map[Cosigner][]CosignerEphemeralSecretPart,
 	thresholdPeersMutex *sync.Mutex,
 ) {
@@ -181,11 +181,13 @@ func (pv *ThresholdValidator) waitForPeerEphemeralShares(
 		pv.logger.Error("Error getting secret parts", "peer", peer.GetID(), "err", err)
 		return
 	}
-	// Check so that getEphemeralWaitGroup.Done is not called more than (threshold - 1) times which causes hardlock
+	// Only the first (threshold - 1) peers take part, the last of them ends the wait
 	thresholdPeersMutex.Lock()
 	if len(*encryptedEphemeralSharesThresholdMap) < pv.threshold-1 {
 		(*encryptedEphemeralSharesThresholdMap)[peer] = ephemeralSecretParts.EncryptedSecrets
-		defer wg.Done()
+		if len(*encryptedEphemeralSharesThresholdMap) == pv.threshold-1 {
+			close(thresholdReached)
+		}
 	}
 	thresholdPeersMutex.Unlock()
 }
@@ -367,11 +369,12 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			total = id
 		}
 	}
-	getEphemeralWaitGroup := sync.WaitGroup{}
-
-	// Only wait until we have threshold sigs
-	getEphemeralWaitGroup.Add(pv.threshold - 1)
-	// Used to track how close we are to threshold
+	// Only wait until we have threshold sigs. Unlike with a WaitGroup, nobody keeps
+	// waiting after the timeout for peers that never answer.
+	thresholdReached := make(chan struct{})
+	if pv.threshold <= 1 {
+		close(thresholdReached)
+	}
 
 	ourID := pv.cosigner.GetID()
 
@@ -379,7 +382,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 	thresholdPeersMutex := sync.Mutex{}
 
 	for _, peer := range pv.peers {
-		go pv.waitForPeerEphemeralShares(peer, hrst, &getEphemeralWaitGroup,
+		go pv.waitForPeerEphemeralShares(peer, hrst, thresholdReached,
 			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
 	}
 
@@ -391,7 +394,9 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 
 	// Wait for threshold cosigners to be complete
 	// A Cosigner will either respond in time, or be cancelled with timeout
-	if waitUntilCompleteOrTimeout(&getEphemeralWaitGroup, 4*time.Second) {
+	select {
+	case <-thresholdReached:
+	case <-time.After(4 * time.Second):
 		return nil, stamp, errors.New("timed out waiting for ephemeral shares")
 	}
 
-- 
2.43.0

