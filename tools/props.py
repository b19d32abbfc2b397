import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=False):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)
S="signer/"
p("C01","A cosigner cluster never releases conflicting validator signatures",
 "With a threshold above half of the shares, the cluster never lets two validator signatures that verify under the validator key become available for the same height, round and step (proposal, prevote, precommit) unless the two signed messages are equal apart from their timestamp. This holds over all sentries, all cosigners, all leader changes, crashes, restarts, message faults and clock faults, and however different or contradictory the requests of different sentries are.",
 ["schedules","crash_points","histories","fault_sequences","configurations"],
 "every interleaving of sign requests from all sentries with leader changes, message loss, duplication, delay and partition, process crash and restart at any point, and every t-of-n with t > n/2",
 "Existing tests sign a handful of votes on a healthy in-process cluster without crash, leader change or conflicting sentry; double signing is a property of whole histories under faults.",
 [S+"threshold_validator.go",S+"local_cosigner.go",S+"sign_state.go",S+"raft_events.go"],
 [("leader signs a block once, combines shares","signer/threshold_validator.go:SignBlock"),("share watermark check","signer/local_cosigner.go:sign"),("watermark comparison and conflict check","signer/sign_state.go:CheckHRS,onlyDifferByTimestamp")],
 [("lastSignState (validator)","last validator signature and cache of recent ones","signer/threshold_validator.go"),("lastSignState (share)","share watermark that protects against double signing","signer/local_cosigner.go")],
 ["privval connections to the sentries","cosigner gRPC: SignBlock and SetEphemeralSecretPartsAndSign responses"])
p("C02","A cosigner's own share never signs conflicting or regressing messages",
 "Over its whole life, restarts included, one cosigner never returns share signatures for two messages of the same height, round and step that differ in more than their timestamp, and once it has returned a share signature it never newly signs, for a request received later, a lower height, round or step. It holds whoever asks: the current leader, a stale leader, several leaders at once or a peer replaying, mixing up or inventing signing requests.",
 ["schedules","crash_points","histories","fault_sequences"],
 "every sequence and overlap of share-signing calls reaching one cosigner, from correct, stale and rogue leaders, with crashes and restarts between them",
 "Unit tests call the share signer once or twice in a fixed order; concurrent leaders, replays and restarts are never exercised.",
 [S+"local_cosigner.go",S+"sign_state.go",S+"grpc_server.go"],
 [("share signing under the watermark lock","signer/local_cosigner.go:sign"),("HRS comparison","signer/sign_state.go:CheckHRS"),("same-HRS conflict check","signer/sign_state.go:checkVoteOnlyDifferByTimestamp,checkProposalOnlyDifferByTimestamp"),("HRS taken from sign bytes","signer/Serialization.go:UnpackHRST")],
 [("share watermark","height, round, step, sign bytes and signature last signed by the share","signer/local_cosigner.go")],
 ["cosigner gRPC SetEphemeralSecretPartsAndSign requests and responses","leader's own share at its SignBlock completion"])
p("C03","The watermark is on disk before a signature leaves the process",
 "When a cosigner lets a share signature out of its process, its share watermark file on stable storage already stands at (or above) that message's height, round and step and, if equal, records that message up to its timestamp; when a single signer lets a validator signature out, the same holds for its state file. If the watermark cannot be stored the signature is not released.",
 ["schedules","crash_points","fault_sequences"],
 "every schedule and every point at which a signature leaves a process, with slow, failing and full disks",
 "Tests never look at the file at the moment a signature is released and never fail or delay a write.",
 [S+"sign_state.go",S+"local_cosigner.go","cmd/horcrux/cmd/signer.go"],
 [("persisting the watermark","signer/sign_state.go:Save,save"),("release of the share signature","signer/local_cosigner.go:sign"),("single-signer persistence","cmd/horcrux/cmd/signer.go")],
 [("state files","<home>/state/<chain>_share_sign_state.json and _priv_validator_state.json","signer/sign_state.go")],
 ["bytes written by the process to any connection, compared with the durable content of the state file at that moment"])
p("C04","Sign-state files survive any crash: parseable, never regressing",
 "At every instant, and after a crash or power loss at any instant, every sign-state file (share and validator) that was initialised is present, parses, and its height, round and step are never lower than any value it durably had before. Failed, short or torn writes and full disks do not change that.",
 ["schedules","crash_points","fault_sequences"],
 "every crash point between and inside file-system operations, every injected I/O error, and every order of concurrent saves",
 "Tests save on a healthy disk and read back after completion; no crash, torn write or overlapping save is tried.",
 [S+"sign_state.go"],
 [("atomic replace of the state file","signer/sign_state.go:save"),("monotonic check","signer/sign_state.go:GetErrorIfLessOrEqual")],
 [("state files","JSON sign state on disk","signer/sign_state.go")],
 ["file content at every file-system operation boundary of the cosigner process, at every crash, and after every restart"])
p("C05","A successful signing response always carries a valid signature for the request",
 "Whenever a sentry gets a sign response without error, the response carries a signature that verifies under the validator public key: for a vote, over exactly the returned vote, which equals the requested one (a single signer may instead return the vote it already signed for that block, with its earlier timestamp); for a proposal, over the returned proposal or over the proposal previously signed for that same height and round. Whatever goes wrong inside the cluster (missing, corrupt, late or mismatched shares, leader change, retries, timestamp-only variants, old requests) shows as an error and never as an empty or invalid signature.",
 ["schedules","histories","inputs","fault_sequences"],
 "every request sequence (new, repeated, older, timestamp-only different, conflicting) in every cluster state and under every fault",
 "Tests check validity on the success path of fresh heights only.",
 [S+"threshold_validator.go",S+"remote_signer.go",S+"raft_events.go"],
 [("returning an existing signature","signer/threshold_validator.go:getExistingBlockSignature"),("combined signature verification","signer/threshold_validator.go:SignBlock"),("response construction","signer/remote_signer.go:handleSignVoteRequest,handleSignProposalRequest")],
 None,["SignedVoteResponse / SignedProposalResponse received by a sentry"])
p("C06","Fewer than threshold cosigners yield an error in bounded time, no signature",
 "While fewer than the threshold number of cosigners can take part in a signature, no sign request for a not yet signed block gets a signature, and every request that arrived at a running signer is answered, with an error, within a bounded time (at most 60 s) instead of hanging.",
 ["schedules","configurations","fault_sequences"],
 "every t-of-n configuration, every set of stopped, partitioned or stalled cosigners that leaves fewer than t, and every moment at which they stop",
 "Tests never stop cosigners during signing nor check response times.",
 [S+"threshold_validator.go",S+"remote_cosigner.go",S+"raft_events.go"],
 [("timeouts while collecting shares","signer/threshold_validator.go:waitUntilCompleteOrTimeout,SignBlock"),("leader lookup and proxy deadline","signer/raft_events.go:getLeaderGRPCClient,LeaderSignBlock"),("RPC deadline","signer/remote_cosigner.go:getContext")],
 None,["time and content of responses received by sentries"])
p("C07","Signing resumes once a threshold of cosigners is healthy again",
 "After faults stop and at least the threshold number (and a raft majority) of cosigners run and can reach each other, sign requests for new heights that sentries keep making through any running cosigner succeed within a bounded time (minutes, not hours), whatever crashes, partitions, lost messages, stalls, clock jumps, leader changes or refused requests happened before.",
 ["schedules","crash_points","fault_sequences","configurations"],
 "every fault history followed by a quiet period; t-of-n with up to n-t cosigners still down",
 "Tests start a healthy cluster and never heal one after faults; recovery is a property of histories.",
 [S+"threshold_validator.go",S+"raft_store.go",S+"raft_events.go",S+"remote_signer.go","cmd/horcrux/cmd/cosigner.go"],
 [("threshold of shares is enough","signer/threshold_validator.go:SignBlock"),("leader election and proxying","signer/raft_store.go:Open; signer/raft_events.go:LeaderSignBlock"),("reconnect loop","signer/remote_signer.go:loop"),("restart from durable state","cmd/horcrux/cmd/cosigner.go:StartCosignerCmd")],
 None,["responses at sentries in the quiet period"])
p("C08","A completed signature advances the watermark of every connected cosigner",
 "Once a block is signed, all cosigners that stay running and connected, including those that did not take part in it, hold share and validator watermarks at or above that block within a bounded time and store them on disk, and from then on no cosigner starts signing anything at a lower height, round or step.",
 ["schedules","histories","fault_sequences"],
 "every set of non-participating cosigners, every leader change, lagging or restarted follower and every order in which completed blocks are distributed",
 "Existing tests emit one event on one or three healthy nodes and do not compare all watermarks after faults.",
 [S+"raft_events.go",S+"raft_store.go",S+"threshold_validator.go",S+"local_cosigner.go"],
 [("event emission","signer/threshold_validator.go:SignBlock; signer/raft_store.go:Emit"),("event application","signer/raft_events.go:handleLSSEvent")],
 [("share and validator watermark","in memory and state files of every cosigner","signer/local_cosigner.go, signer/threshold_validator.go")],
 ["state files of every cosigner after the cluster is quiet","refusal of a lower block by every cosigner"])
p("C09","An ephemeral nonce is never used to sign two different challenges",
 "Between cosigners that follow the protocol, and whatever messages are lost, late or repeated, no cosigner ever releases two share signatures made with the same ephemeral secret share for different messages or different combined ephemeral public keys, and two different validator messages never carry the same combined ephemeral public key. Otherwise the key share could be computed from public values.",
 ["schedules","histories","fault_sequences","inputs"],
 "every interleaving of signing sessions of one or several leaders, retries, timestamp-only re-signing, restarts and repeated rounds at one height",
 "It relates all signatures of a history; tests look at single ones.",
 [S+"local_cosigner.go"],
 [("ephemeral dealing, keyed by height, round, step and timestamp","signer/local_cosigner.go:dealShares,getEphemeralSecretPart,setEphemeralSecretPart"),("share signing","signer/local_cosigner.go:sign")],
 [("ephemeral metadata","dealt secret and received parts per height, round, step, timestamp","signer/local_cosigner.go")],
 ["share signatures and ephemeral public keys in SetEphemeralSecretPartsAndSign responses, with the key shares known to the harness"])
p("C10","Only ephemeral parts signed by a known cosigner are accepted, unmodified",
 "A cosigner produces a share signature only from ephemeral parts that a known peer cosigner created and signed with its RSA key, with source, ephemeral public key and encrypted part unmodified; a request with a forged, altered, unsigned or wrongly attributed part, or from an unknown source, is refused; and no share signature is ever made from no ephemeral part at all (a zero nonce).",
 ["inputs","histories","fault_sequences"],
 "every modification in transit or invention of parts, in any mix with correct ones, at any time",
 "Tests pass only correct parts between correct cosigners.",
 [S+"local_cosigner.go"],
 [("source signature verification","signer/local_cosigner.go:setEphemeralSecretPart")],
 None,["SetEphemeralSecretPartsAndSign requests and responses on the wire, compared with the parts issued by each cosigner"])
p("C11","Repeating an already signed request returns the same signature or an error",
 "If a leader has signed a block for a sentry and a sentry, the same or another one, asks again for exactly the same message, then for as long as that cosigner keeps running and leading, the answer is the very same signature or an error, never another signature for the same message; and in an undisturbed cluster with an unchanged leader a repeat of the latest signed message is answered with that signature, through whichever cosigner it is asked.",
 ["schedules","histories"],
 "every order and overlap of duplicate requests from several sentries, with retries and reconnects",
 "Existing tests repeat a request once, sequentially, on one node.",
 [S+"threshold_validator.go",S+"sign_state.go"],
 [("signature cache","signer/sign_state.go:GetFromCache,Save"),("waiting for an in-progress signature","signer/threshold_validator.go:SignBlock,getExistingBlockSignature")],
 [("signature cache","signatures of the last blocks","signer/sign_state.go")],
 ["responses at sentries"])
p("C12","Each sentry request gets exactly one matching answer, over reconnects too",
 "On every privval connection the signer answers each complete request exactly once, in order, with the response type of the request (vote, proposal, public key, ping), a failed signing carrying an error and no signature, and the public key being the validator's. When a connection breaks at any byte or the sentry restarts, the signer drops it and keeps reconnecting until it is served again, it reads nothing more from a connection on which a message could not be read, and trouble with one sentry does not stop the service of the others.",
 ["schedules","inputs","fault_sequences"],
 "every sequence of requests on any number of sentry connections, with breaks, half-open connections, slow links and sentry restarts at any point",
 "There is no test of the remote signer loop.",
 [S+"remote_signer.go",S+"Serialization.go",S+"PvGuard.go"],
 [("request loop and reconnect","signer/remote_signer.go:loop"),("request dispatch","signer/remote_signer.go:handleRequest"),("message framing","signer/Serialization.go:ReadMsg,WriteMsg")],
 None,["each privval connection at the sentry"])
p("C13","The replicated key-value store keeps acknowledged writes",
 "A write or delete acknowledged by the leader's store is never lost or reordered: every connected node eventually reads the latest acknowledged value of each key and all nodes agree, after any leader change, crash, restart, log replay or snapshot installation, and a node that is not leader never acknowledges. A write that was not acknowledged takes effect either once in full or not at all.",
 ["schedules","crash_points","histories","fault_sequences"],
 "every history of sets, deletes and reads over a cluster with crashes, restarts, partitions, snapshots and leader changes",
 "The only test sets one key on one node.",
 [S+"raft_store.go"],
 [("state machine","signer/raft_store.go:Apply,applySet,applyDelete"),("snapshot and restore","signer/raft_store.go:Snapshot,Persist,Restore"),("leader check","signer/raft_store.go:Set,Delete")],
 [("key-value map","replicated state","signer/raft_store.go")],
 ["results of Set, Delete and Get on each node"])
p("C14","Leadership transfer moves leadership as requested and never stops signing",
 "In an otherwise undisturbed cluster: when the leader is asked to transfer leadership to a named cosigner that is up and reachable, that cosigner becomes leader within a bounded time; without a name, all cosigners being up, some other one does; if the named cosigner already leads it stays leader. After a transfer to any target, existing or not, there is again exactly one leader that signs, and no double signature results.",
 ["schedules","configurations","fault_sequences"],
 "every target, every caller, repeated transfers, transfers during signing and with unreachable targets",
 "Only the docker-based test, which is not run, elects a leader; the unit tests never transfer.",
 [S+"grpc_server.go","cmd/horcrux/cmd/leader_election.go"],
 [("transfer handler","signer/grpc_server.go:TransferLeadership"),("command","cmd/horcrux/cmd/leader_election.go")],
 None,["raft leader of every node after the transfer","exit status of the elect command"])
p("C15","A single signer never double-signs, across restarts and crashes",
 "In single-signer mode the signer never releases two signatures for the same height, round and step whose messages differ in more than the timestamp, nor a signature below one it released before, over any number of sentries, concurrent requests, clean restarts and crashes at any point, for as long as its state file is kept.",
 ["schedules","crash_points","histories","fault_sequences"],
 "every order of requests from several sentries and every crash and restart point",
 "No test restarts a single signer.",
 ["cmd/horcrux/cmd/signer.go",S+"PvGuard.go",S+"remote_signer.go"],
 [("loading the state at start","cmd/horcrux/cmd/signer.go:StartSignerCmd"),("serialisation of requests","signer/PvGuard.go"),],
 [("state file","<home>/state/<chain>_priv_validator_state.json","cmd/horcrux/cmd/signer.go")],
 ["responses at sentries over all incarnations"])
p("C16","Setting the sign state is durable when reported done and never lowers it",
 "When the command that sets the sign state to a height reports success, both the validator and the share state files durably stand at that height (or above, if they already did) before the command exits, and a cosigner started afterwards refuses everything below. The command never lowers a stored height, round or step, and when it fails or crashes at any point each file holds either its old or its new state, completely.",
 ["schedules","crash_points","inputs","fault_sequences"],
 "every schedule of the command against process exit, every crash point and disk error, every height",
 "The test reads the in-memory result and sleeps before looking at the file; it does not cover exit, crash or lowering.",
 ["cmd/horcrux/cmd/state.go",S+"sign_state.go"],
 [("set command","cmd/horcrux/cmd/state.go:setStateCmd"),("persistence","signer/sign_state.go:Save,save")],
 [("state files","validator and share sign state","signer/sign_state.go")],
 ["state files after the command's process ended","behaviour of a cosigner started on them"])
p("C17","No request can crash a signer process",
 "No message from a sentry on a privval connection and no call of the signing protocol (ephemeral parts, share signing, block signing, leadership) on the cosigner port, well-formed or not, with any field missing, out of range or of unknown kind, makes a signer process exit or stop serving; it is refused with an error or drops that connection, and correct requests are served afterwards.",
 ["inputs","histories","schedules"],
 "every message content on the privval and cosigner connections, at any time, including before start-up is complete",
 "Tests send only well-formed messages of known kinds.",
 [S+"remote_signer.go",S+"grpc_server.go",S+"sign_state.go",S+"Serialization.go",S+"local_cosigner.go"],
 [("vote type to step","signer/sign_state.go:VoteToStep,CanonicalVoteToStep"),("request dispatch","signer/remote_signer.go:handleRequest"),("gRPC handlers","signer/grpc_server.go"),("start-up order","cmd/horcrux/cmd/cosigner.go:StartCosignerCmd")],
 None,["process liveness and the next correct request's response"])
p("C18","Configuration commands are crash-safe and keep what they do not change",
 "Every command that changes the configuration (nodes, peers, shares, chain id) leaves, if it fails or crashes at any point or the disk fails, a configuration file that loads and equals the one before or the one after the change, and never a truncated or mixed one; on success it holds exactly the old configuration plus the requested change, on stable storage. Changing the chain id carries the sign state along: at no point, crashes included, can a signer start for the configured chain with a fresh or lower sign state.",
 ["crash_points","inputs","fault_sequences"],
 "every command sequence with every crash point and disk error",
 "Tests run commands to completion on a healthy disk.",
 ["cmd/horcrux/cmd/config.go"],
 [("writing the configuration","cmd/horcrux/cmd/config.go:writeConfigFile"),("chain-id change","cmd/horcrux/cmd/config.go:setChainIDCmd")],
 [("configuration file","<home>/config.yaml","cmd/horcrux/cmd/config.go")],
 ["configuration and state files after each command or crash"])
p("C19","Secrets never leave a cosigner in the clear; parts open only at their target",
 "Nothing a cosigner writes to the network, its output or its state files contains its key share, its RSA private key or an unencrypted ephemeral secret share, and each ephemeral part it deals can be decrypted by exactly the cosigner it is addressed to, whose share then is consistent with the ephemeral public key announced by the dealer.",
 ["inputs","histories","fault_sequences"],
 "every byte written over runs with errors, conflicting and malformed requests, crashes and restarts, and every dealing",
 "Tests do not look at what is written or logged.",
 [S+"local_cosigner.go",S+"grpc_server.go"],
 [("dealing and encryption","signer/local_cosigner.go:getEphemeralSecretPart,dealShares")],
 None,["all connection, console and state-file bytes of every cosigner process","parts in GetEphemeralSecretParts responses"])
p("C20","Without its share sign state a cosigner does not start signing",
 "A cosigner whose share sign state file is missing, empty, unreadable or does not parse (truncated, garbage, damaged) refuses to start or to sign, and never replaces the lost watermark with a fresh or lower one by itself.",
 ["crash_points","inputs","fault_sequences"],
 "every way the file can be lost or damaged between two incarnations, including read errors",
 "Tests start from good files only.",
 ["cmd/horcrux/cmd/cosigner.go",S+"sign_state.go"],
 [("loading the share state","cmd/horcrux/cmd/cosigner.go:StartCosignerCmd; signer/sign_state.go:LoadSignState")],
 [("share state file","<home>/state/<chain>_share_sign_state.json","signer/sign_state.go")],
 ["process liveness, share signatures and the state file after the start"])
p("C21","Created key shares: any threshold of them signs, fewer do not",
 "When create-shares for threshold t of n reports success, all n share files are complete and load, each with its own ID, its own share, its own RSA key, the RSA public keys of all cosigners in order and the validator's public key; every t of the shares make up the validator key and no fewer do, no file holds another cosigner's share or RSA key or the whole validator key, every run draws fresh shares, and cosigners started with any t of these files sign. A disk error makes the command fail; the validator key file is never changed.",
 ["inputs","crash_points","fault_sequences","configurations"],
 "every threshold and number of shares, any t of the resulting cosigners, every disk error and crash while the files are written, and every history of earlier, interrupted runs in the same directory",
 "Tests make one set of shares on a healthy disk and check a few fields; whether every subset signs, and what a failing disk leaves behind a reported success, is not looked at.",
 [S+"cosigner_key_shares.go",S+"cosigner_key.go","cmd/horcrux/cmd/key2shares.go"],
 [("sharing the key","signer/cosigner_key_shares.go:CreateCosignerSharesFromFile,CreateCosignerShares"),("writing the files","signer/cosigner_key_shares.go:WriteCosignerShareFile; cmd/horcrux/cmd/key2shares.go"),("loading them","signer/cosigner_key.go:LoadCosignerKey")],
 [("share files","private_share_<n>.json in the working directory","signer/cosigner_key_shares.go")],
 ["exit status of create-shares, the share files, and the signatures of a cluster started with them"])
p("C22","A configuration that cannot work is refused, any other one works",
 "The config commands refuse, with an error and without changing anything, what cannot work: a chain node or listen address that does not parse (wherever in the list), a duplicate, malformed or out-of-range share ID, more peers than shares, a threshold above the number of cosigners, an invalid timeout, an empty chain id, no chain node for a single signer. The start commands refuse the same in a configuration however it was made, and also a threshold below one, a share ID without a key, and the own share ID among the peers, before connecting to any sentry. With every configuration they accept the signer connects to its sentries and serves them and its peers without crashing, also when the share IDs of the configured cosigners have gaps: as long as the threshold is there, such a cluster signs.",
 ["inputs","configurations","histories","fault_sequences"],
 "every sequence of configuration commands with valid and invalid arguments, every hand-edited configuration, and every subset of at least a threshold of the shares configured as a cluster",
 "Tests try a few bad arguments one by one on the commands; no test starts a signer with an odd configuration and then asks it to sign.",
 ["cmd/horcrux/cmd/config.go","cmd/horcrux/cmd/cosigner.go","cmd/horcrux/cmd/signer.go",S+"threshold_validator.go",S+"local_cosigner.go"],
 [("validation","cmd/horcrux/cmd/config.go:validateCosignerConfig,validateSingleSignerConfig,validateCosignerPeers,validateChainNodes"),("start","cmd/horcrux/cmd/cosigner.go:StartCosignerCmd; cmd/horcrux/cmd/signer.go:StartSignerCmd"),("slices indexed by share ID","signer/threshold_validator.go:SignBlock; signer/local_cosigner.go:dealShares")],
 [("configuration file","<home>/config.yaml","cmd/horcrux/cmd/config.go")],
 ["exit status of the commands, the configuration after them, liveness of started processes, connections to sentries and answers of sentries and peers"])
with open("properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
