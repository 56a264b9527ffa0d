From 69152a681e617afcf797373ea9fe5785cdccdab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 01/37] fix: persist sign state before releasing a signature

Save wrote the state file from a detached goroutine, so a signature could be
released before its watermark was durable, writes could be reordered, and a
short-lived process (state set) could exit before anything was written.
---
 signer/sign_state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..ea2d3a5 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,9 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+	// The watermark must be on disk before anything signed at this HRS can be released,
+	// and writes must not be reordered, so persist before returning.
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From 8f29bdc77dfe13a877472a67d08cc1f610a8fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 02/37] fix: do not reset a sign state that exists but cannot
 be loaded

---
 signer/sign_state.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index ea2d3a5..be5219d 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"sync"
 
 	"github.com/gogo/protobuf/proto"
@@ -266,15 +267,21 @@ func LoadSignState(filepath string) (SignState, error) {
 }
 
 // LoadOrCreateSignState loads the sign state from filepath
-// If the sign state could not be loaded, an empty sign state is initialized
-// and saved to filepath.
+// If there is no sign state at filepath yet (the file is missing or empty), an
+// empty sign state is initialized and saved to filepath.
 func LoadOrCreateSignState(filepath string) (SignState, error) {
 	existing, err := LoadSignState(filepath)
 	if err == nil {
 		return existing, nil
 	}
 
-	// There was an error loading the sign state
+	// Never replace a sign state which exists but cannot be loaded, that would reset the watermark.
+	if info, statErr := os.Stat(filepath); statErr == nil && info.Size() > 0 ||
+		statErr != nil && !os.IsNotExist(statErr) {
+		return existing, err
+	}
+
+	// There is no sign state yet
 	// Make an empty sign state and save it
 	state := SignState{}
 	state.filePath = filepath
-- 
2.43.0


From 245f714e64b435562bb5cac1237f98e55002a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 03/37] fix: do not return the signature of a different
 proposal at the same height and round

---
 signer/threshold_validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..702a440 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -269,8 +269,8 @@ func (pv *ThresholdValidator) getExistingBlockSignature(block *Block) ([]byte, t
 	}
 	latestBlock, existingSignature := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
 	if existingSignature != nil {
-		// If a proposal has already been signed for this HRS, return that
-		if block.Step == stepPropose || bytes.Equal(signBytes, existingSignature.SignBytes) {
+		// If this exact block has already been signed for this HRS, return that
+		if bytes.Equal(signBytes, existingSignature.SignBytes) {
 			return existingSignature.Signature, block.Timestamp, nil
 		}
 		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {
-- 
2.43.0


From f70cb2963d770670d84b4f63c458e20ca7767d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 04/37] fix: do not report success without a signature for a
 block below the last started one

---
 signer/threshold_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 702a440..88cd1fb 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && existingSignature != nil {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From 70087cd0d1ccf56454a58ebdb162da048f280f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 05/37] fix: data race reading the initiated sign state for an
 error message

---
 signer/threshold_validator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 88cd1fb..c47a132 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -149,6 +149,8 @@ type BeyondBlockError struct {
 func (e *BeyondBlockError) Error() string { return e.msg }
 
 func (pv *ThresholdValidator) newBeyondBlockError(hrs HRSKey) *BeyondBlockError {
+	pv.lastSignStateInitiatedMutex.Lock()
+	defer pv.lastSignStateInitiatedMutex.Unlock()
 	return &BeyondBlockError{
 		msg: fmt.Sprintf("Progress already started on block %d.%d.%d, skipping %d.%d.%d",
 			pv.lastSignStateInitiated.Height, pv.lastSignStateInitiated.Round, pv.lastSignStateInitiated.Step,
-- 
2.43.0


From c2e41da9f34805109b0adef425160695ddf017f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 06/37] fix: use each ephemeral secret for at most one share
 signature

A secret dealt while storing a peer's part was shared by all timestamps of the
same height, round and step, and an ephemeral secret stayed usable after
signing, so different sign bytes (another timestamp, another encoding) or other
peer parts could be signed with the same or a peer chosen nonce, which reveals
the key share.
---
 signer/local_cosigner.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..e5fba77 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -191,6 +191,11 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		return res, errors.New("no metadata at HRS")
 	}
 
+	// our own ephemeral secret must be part of the nonce, otherwise it is chosen by the peers alone
+	if len(meta.Peers[cosigner.key.ID-1].Share) == 0 {
+		return res, errors.New("no ephemeral secret dealt at HRS")
+	}
+
 	shareParts := make([]tsed25519.Scalar, 0)
 	publicKeys := make([]tsed25519.Element, 0)
 
@@ -222,6 +227,9 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
+	// the ephemeral secret must never be used for a second signature
+	delete(cosigner.hrsMeta, hrst)
+
 	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
 	err = cosigner.lastSignState.Save(SignStateConsensus{
 		Height:    hrst.Height,
@@ -440,9 +448,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From 81961e35cb06d6d6c1b7b48afcbf45cc76a50199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 07/37] fix: keep the saved share signature and its ephemeral
 public key together

---
 signer/local_cosigner.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index e5fba77..d5135a5 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -109,7 +109,17 @@ type LocalCosigner struct {
 }
 
 func (cosigner *LocalCosigner) SaveLastSignedState(signState SignStateConsensus) error {
-	return cosigner.lastSignState.Save(signState, &cosigner.lastSignStateMutex)
+	cosigner.lastSignStateMutex.Lock()
+	defer cosigner.lastSignStateMutex.Unlock()
+
+	// The signature in signState is not a share signature made with our last ephemeral public key
+	ephemeralPublic := cosigner.lastSignState.EphemeralPublic
+	cosigner.lastSignState.EphemeralPublic = nil
+	err := cosigner.lastSignState.Save(signState, nil)
+	if err != nil {
+		cosigner.lastSignState.EphemeralPublic = ephemeralPublic
+	}
+	return err
 }
 
 func NewLocalCosigner(cfg LocalCosignerConfig) *LocalCosigner {
@@ -175,7 +185,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	// If the HRS is the same the sign bytes may still differ by timestamp
 	// It is ok to re-sign a different timestamp if that is the only difference in the sign bytes
 	if sameHRS {
-		if bytes.Equal(req.SignBytes, lss.SignBytes) {
+		if bytes.Equal(req.SignBytes, lss.SignBytes) && len(lss.EphemeralPublic) != 0 {
 			res.EphemeralPublic = lss.EphemeralPublic
 			res.Signature = lss.Signature
 			return res, nil
@@ -230,6 +240,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	// the ephemeral secret must never be used for a second signature
 	delete(cosigner.hrsMeta, hrst)
 
+	lastEphemeralPublic := cosigner.lastSignState.EphemeralPublic
 	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
 	err = cosigner.lastSignState.Save(SignStateConsensus{
 		Height:    hrst.Height,
@@ -240,6 +251,8 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	}, nil)
 
 	if err != nil {
+		// the saved signature is still the one made with the previous ephemeral public key
+		cosigner.lastSignState.EphemeralPublic = lastEphemeralPublic
 		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {
 			return res, err
 		}
-- 
2.43.0


From abeb5173c0f48e91007687ab2be01ad546cd46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 08/37] fix: check the message type when unpacking sign bytes

A vote could be taken for a proposal, and sign bytes with any other type
panicked or passed as a proposal.
---
 signer/Serialization.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..450b3cd 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -28,14 +28,16 @@ func WriteMsg(writer io.Writer, msg tmProtoPrivval.Message) (err error) {
 func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var proposal tmProto.CanonicalProposal
-		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil &&
+			proposal.Type == tmProto.ProposalType {
 			return HRSTKey{proposal.Height, proposal.Round, stepPropose, proposal.Timestamp.UnixNano()}, nil
 		}
 	}
 
 	{
 		var vote tmProto.CanonicalVote
-		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil &&
+			(vote.Type == tmProto.PrevoteType || vote.Type == tmProto.PrecommitType) {
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
-- 
2.43.0


From ba6ad191b18329994a73b8ed113979e4ea6ad5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 09/37] fix: answer malformed sign requests with an error
 instead of panicking

---
 signer/remote_signer.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..ef57a9a 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"time"
@@ -125,9 +126,9 @@ func (rs *ReconnRemoteSigner) loop() {
 func (rs *ReconnRemoteSigner) handleRequest(req tmProtoPrivval.Message) tmProtoPrivval.Message {
 	switch typedReq := req.Sum.(type) {
 	case *tmProtoPrivval.Message_SignVoteRequest:
-		return rs.handleSignVoteRequest(typedReq.SignVoteRequest.Vote)
+		return rs.handleSignVoteRequest(typedReq.SignVoteRequest.GetVote())
 	case *tmProtoPrivval.Message_SignProposalRequest:
-		return rs.handleSignProposalRequest(typedReq.SignProposalRequest.Proposal)
+		return rs.handleSignProposalRequest(typedReq.SignProposalRequest.GetProposal())
 	case *tmProtoPrivval.Message_PubKeyRequest:
 		return rs.handlePubKeyRequest()
 	case *tmProtoPrivval.Message_PingRequest:
@@ -143,6 +144,11 @@ func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoP
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if vote == nil || !tm.IsVoteTypeValid(vote.Type) || !isBlockIDValid(vote.BlockID) {
+		rs.Logger.Error("Invalid sign vote request", "address", rs.address)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(errors.New("invalid vote"))
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -165,6 +171,11 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if proposal == nil || !isBlockIDValid(proposal.BlockID) {
+		rs.Logger.Error("Invalid sign proposal request", "address", rs.address)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(errors.New("invalid proposal"))
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -206,6 +217,12 @@ func (rs *ReconnRemoteSigner) handlePingRequest() tmProtoPrivval.Message {
 	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PingResponse{PingResponse: &tmProtoPrivval.PingResponse{}}}
 }
 
+// isBlockIDValid tells if sign bytes can be made for the block ID, canonicalizing an invalid one panics
+func isBlockIDValid(blockID tmProto.BlockID) bool {
+	_, err := tm.BlockIDFromProto(&blockID)
+	return err == nil
+}
+
 func getRemoteSignerError(err error) *tmProtoPrivval.RemoteSignerError {
 	if err == nil {
 		return nil
-- 
2.43.0


From 42a80fc78c676fc6ef76705f28bec3577d70b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 10/37] fix: data race between restoring a snapshot and reading
 the store

---
 signer/raft_store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signer/raft_store.go b/signer/raft_store.go
index 727cb28..843de25 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -329,8 +329,9 @@ func (f *fsm) Restore(rc io.ReadCloser) error {
 		return err
 	}
 
-	// Set the state from the snapshot, no lock required according to
-	// Hashicorp docs.
+	// Set the state from the snapshot, Get may be reading it at the same time.
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.m = o
 	return nil
 }
-- 
2.43.0


From b081ec999c1537c3b03e73a6631191103a934c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 11/37] fix: start the raft store only once it is complete

The gRPC server and replayed raft events could reach a validator which was not
set yet (nil dereference), and the raft handle was published by another
goroutine without synchronisation.
---
 cmd/horcrux/cmd/cosigner.go | 12 ++++++------
 signer/raft_store.go        | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..340dff6 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -217,14 +217,8 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
-
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
 				Threshold: cfg.CosignerThreshold,
@@ -237,6 +231,12 @@ func StartCosignerCmd() *cobra.Command {
 
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// Start RAFT store listener
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
diff --git a/signer/raft_store.go b/signer/raft_store.go
index 843de25..5feb121 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -84,19 +84,19 @@ func (s *RaftStore) SetThresholdValidator(thresholdValidator *ThresholdValidator
 	s.thresholdValidator = thresholdValidator
 }
 
-func (s *RaftStore) init() error {
+func (s *RaftStore) init() (func() error, error) {
 	host := p2pURLToRaftAddress(s.RaftBind)
 	_, port, err := net.SplitHostPort(host)
 	if err != nil {
-		return fmt.Errorf("failed to parse local address: %s, %v", host, err)
+		return nil, fmt.Errorf("failed to parse local address: %s, %v", host, err)
 	}
 	sock, err := net.Listen("tcp", fmt.Sprintf(":%s", port))
 	if err != nil {
-		return err
+		return nil, err
 	}
 	transportManager, err := s.Open()
 	if err != nil {
-		return err
+		return nil, err
 	}
 	grpcServer := grpc.NewServer()
 	proto.RegisterCosignerGRPCServer(grpcServer, &GRPCServer{
@@ -108,17 +108,17 @@ func (s *RaftStore) init() error {
 	leaderhealth.Setup(s.raft, grpcServer, []string{"Leader"})
 	raftadmin.Register(grpcServer, s.raft)
 	reflection.Register(grpcServer)
-	if err := grpcServer.Serve(sock); err != nil {
-		return err
-	}
-	return nil
+	return func() error { return grpcServer.Serve(sock) }, nil
 }
 
-// OnStart starts the raft server
+// OnStart starts the raft server, which must have its threshold validator already
 func (s *RaftStore) OnStart() error {
+	serve, err := s.init()
+	if err != nil {
+		return err
+	}
 	go func() {
-		err := s.init()
-		if err != nil {
+		if err := serve(); err != nil {
 			panic(err)
 		}
 	}()
-- 
2.43.0


From 6fd16f99db5ffa37645c652ce7d40eda4b717c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 12/37] fix: refuse to start a cosigner whose threshold is not
 a majority of the key shares

---
 cmd/horcrux/cmd/cosigner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 340dff6..a9cd118 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -114,6 +114,12 @@ func StartCosignerCmd() *cobra.Command {
 				return
 			}
 
+			// with a lower threshold, two disjoint sets of cosigners could sign conflicting blocks
+			if config.CosignerConfig.Threshold*2 <= config.CosignerConfig.Shares {
+				return fmt.Errorf("threshold (%d) must be greater than half of the number of key shares (%d)",
+					config.CosignerConfig.Threshold, config.CosignerConfig.Shares)
+			}
+
 			var (
 				// services to stop on shutdown
 				services []tmService.Service
-- 
2.43.0


From c8f450747eae95bbda1e04db8b0c592d27ca7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 13/37] fix: reject any invalid chain node address, not only
 the last one

---
 cmd/horcrux/cmd/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..c33a404 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -628,7 +628,9 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 
 func validateChainNodes(nodes []ChainNode) (err error) {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if _, err = url.Parse(n.PrivValAddr); err != nil {
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From 0616682c313409c4254d4c94df0195d7d37e16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 14/37] fix: load the last sign state when starting a single
 signer

The single signer always started from an empty state, so after a restart it
would sign again at heights it had already signed.
---
 cmd/horcrux/cmd/signer.go | 46 +++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..47fdeb9 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/spf13/cobra"
 	"github.com/strangelove-ventures/horcrux/signer"
+	tmjson "github.com/tendermint/tendermint/libs/json"
 	tmlog "github.com/tendermint/tendermint/libs/log"
 	tmService "github.com/tendermint/tendermint/libs/service"
 	"github.com/tendermint/tendermint/privval"
@@ -69,13 +70,10 @@ func StartSignerCmd() *cobra.Command {
 			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			val, err = loadSingleSigner(cfg.PrivValKeyFile, stateFile)
+			if err != nil {
+				return err
+			}
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
@@ -98,3 +96,37 @@ func StartSignerCmd() *cobra.Command {
 
 	return cmd
 }
+
+// loadSingleSigner loads the validator key with its last sign state. An empty state is
+// only used if there is none yet, otherwise a restart would allow double signing.
+func loadSingleSigner(keyFile, stateFile string) (*privval.FilePV, error) {
+	val := privval.LoadFilePVEmptyState(keyFile, stateFile)
+
+	stateJSON, err := os.ReadFile(stateFile)
+	if os.IsNotExist(err) || err == nil && len(stateJSON) == 0 {
+		return val, nil
+	} else if err != nil {
+		return nil, err
+	}
+
+	var state privval.FilePVLastSignState
+	if err := tmjson.Unmarshal(stateJSON, &state); err != nil {
+		// config init writes the state in the format of the cosigner
+		cosignerState, loadErr := signer.LoadSignState(stateFile)
+		if loadErr != nil {
+			return nil, fmt.Errorf("error reading sign state from %s: %v", stateFile, err)
+		}
+		state.Height = cosignerState.Height
+		state.Round = int32(cosignerState.Round)
+		state.Step = cosignerState.Step
+		state.Signature = cosignerState.Signature
+		state.SignBytes = cosignerState.SignBytes
+	}
+
+	val.LastSignState.Height = state.Height
+	val.LastSignState.Round = state.Round
+	val.LastSignState.Step = state.Step
+	val.LastSignState.Signature = state.Signature
+	val.LastSignState.SignBytes = state.SignBytes
+	return val, nil
+}
-- 
2.43.0


From 30c370ac8b47e24c14f6594f8eb40b8b68174ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 15/37] fix: state commands always failed when given an
 existing home directory

---
 cmd/horcrux/cmd/state.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..4c245cd 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -4,7 +4,6 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
-	"os"
 	"os/exec"
 	"path"
 	"strconv"
@@ -40,9 +39,6 @@ func showStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
@@ -85,9 +81,6 @@ func setStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
-- 
2.43.0


From 748043ea9a3b048d4566c76f0ea3ff5bd1e532fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 16/37] fix: state set reported success when a state was not
 changed

---
 cmd/horcrux/cmd/state.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 4c245cd..fa2f427 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -107,8 +107,20 @@ func setStateCmd() *cobra.Command {
 				Signature: nil,
 				SignBytes: nil,
 			}
-			_ = pv.Save(signState, nil)
-			_ = share.Save(signState, nil)
+			states := []*signer.SignState{&pv, &share}
+			// check both before changing either
+			for _, state := range states {
+				err := state.GetErrorIfLessOrEqual(height, 0, 0, nil)
+				if _, isSameHRSError := err.(*signer.SameHRSError); err != nil && !isSameHRSError {
+					return err
+				}
+			}
+			for _, state := range states {
+				err := state.Save(signState, nil)
+				if _, isSameHRSError := err.(*signer.SameHRSError); err != nil && !isSameHRSError {
+					return err
+				}
+			}
 			return nil
 		},
 	}
-- 
2.43.0


From 60d225aa55702b74ebd2c386288e92006794fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 17/37] fix: state set mistook itself for a running horcrux

---
 cmd/horcrux/cmd/state.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index fa2f427..883c601 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -4,9 +4,11 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"os"
 	"os/exec"
 	"path"
 	"strconv"
+	"strings"
 
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
@@ -129,7 +131,13 @@ func setStateCmd() *cobra.Command {
 func isRunning() bool {
 	pipe := "ps -ax | pgrep horcrux"
 	bz, _ := exec.Command("bash", "-c", pipe).Output()
-	return len(bz) != 0
+	for _, pid := range strings.Fields(string(bz)) {
+		// this process is a horcrux process as well
+		if pid != strconv.Itoa(os.Getpid()) {
+			return true
+		}
+	}
+	return false
 }
 
 func printSignState(ss signer.SignState) {
-- 
2.43.0


From 98387997d86e58ce3b6f4cc1c5780fd7bfc678b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 18/37] fix: reject unusable threshold and share counts when
 sharding a key

They were truncated to 8 bits, so a threshold of 257 put the whole key in each share.
---
 signer/cosigner_key_shares.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..059b9d2 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,7 +4,9 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
+	"math"
 
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
@@ -22,6 +24,10 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if threshold < 1 || shares < threshold || shares > math.MaxUint8 {
+		return nil, fmt.Errorf("threshold (%d) must be between 1 and the number of shares (%d), which can be at most %d",
+			threshold, shares, math.MaxUint8)
+	}
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
-- 
2.43.0


From 1c6c8b3a70534d6e0cfaa833213ad9a9c47ca2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 19/37] fix: write key shares readable by their owner only

---
 signer/cosigner_key_shares.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 059b9d2..89cf46d 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -63,7 +63,7 @@ func WriteCosignerShareFile(cosigner CosignerKey, file string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(file, jsonBytes, 0644) //nolint
+	return ioutil.WriteFile(file, jsonBytes, 0600)
 }
 
 func makeRSAKeys(num int) (rsaKeys []*rsa.PrivateKey, pubKeys []*rsa.PublicKey, err error) {
-- 
2.43.0


From d637b39a043325e47a016c5c3b720c6956183513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 20/37] fix: chain-id set moves all of the sign state or
 nothing

Without a share sign state (single signer) it moved the validator state and
failed, which orphaned the watermark, and it overwrote the existing sign state
of the new chain ID.
---
 cmd/horcrux/cmd/config.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index c33a404..4b9c3a8 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -501,11 +501,31 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
-			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
-				return err
+			renames := [][2]string{{pvOldPath, pvNewPath}}
+			// only a cosigner has a share sign state
+			if config.CosignerConfig != nil {
+				renames = append(renames, [2]string{shareOldPath, shareNewPath})
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+			for _, rename := range renames {
+				if _, err := os.Stat(rename[0]); err != nil {
+					return err
+				}
+				if _, err := os.Lstat(rename[1]); rename[0] != rename[1] && !os.IsNotExist(err) {
+					return fmt.Errorf("%s already exists, not overwriting it", rename[1])
+				}
+			}
+			// on failure, leave the sign state where it was
+			defer func() {
+				for _, rename := range renames {
+					if err != nil {
+						_ = os.Rename(rename[1], rename[0])
+					}
+				}
+			}()
+			for _, rename := range renames {
+				if err = os.Rename(rename[0], rename[1]); err != nil {
+					return err
+				}
 			}
 
 			config.ChainID = args[0]
-- 
2.43.0


From 430ae9cac2da6fd572b0614afd5dbebeb7df9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 21/37] fix: a new leader returns the signature of a block the
 cluster already signed

---
 signer/threshold_validator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index c47a132..3660962 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -322,6 +322,11 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		Timestamp: stamp.UnixNano(),
 	}
 
+	// This exact block may already have been signed, possibly under another leader
+	if existingSignature, _, err := pv.getExistingBlockSignature(block); err == nil && existingSignature != nil {
+		return existingSignature, stamp, nil
+	}
+
 	// Keep track of the last block that we began the signing process for. Only allow one attempt per block
 	if err := pv.SaveLastSignedStateInitiated(NewSignStateConsensus(height, round, step)); err != nil {
 		switch err.(type) {
-- 
2.43.0


From 49e652bf741dc38d742573b691ddbb3c87df6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 22/37] fix: parts of a refused request no longer spoil signing
 the message with other cosigners

---
 signer/Cosigner.go       | 11 -----
 signer/local_cosigner.go | 95 +++++++++++++++++++---------------------
 2 files changed, 46 insertions(+), 60 deletions(-)

diff --git a/signer/Cosigner.go b/signer/Cosigner.go
index 5a86ded..5ecd110 100644
--- a/signer/Cosigner.go
+++ b/signer/Cosigner.go
@@ -94,17 +94,6 @@ func CosignerEphemeralSecretPartsFromProto(
 	return
 }
 
-type CosignerSetEphemeralSecretPartRequest struct {
-	SourceID                       int
-	SourceEphemeralSecretPublicKey []byte
-	EncryptedSharePart             []byte
-	SourceSig                      []byte
-	Height                         int64
-	Round                          int64
-	Step                           int8
-	Timestamp                      time.Time
-}
-
 type CosignerSignBlockRequest struct {
 	ChainID string
 	Block   *Block
diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index d5135a5..f90f219 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -164,11 +164,8 @@ func (cosigner *LocalCosigner) GetAddress() string {
 
 // Sign the sign request using the cosigner's share
 // Return the signed bytes or an error
-// Implements Cosigner interface
+// The caller must hold lastSignStateMutex
 func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignResponse, error) {
-	cosigner.lastSignStateMutex.Lock()
-	defer cosigner.lastSignStateMutex.Unlock()
-
 	res := CosignerSignResponse{}
 	lss := cosigner.lastSignState
 
@@ -413,58 +410,61 @@ func (cosigner *LocalCosigner) getEphemeralSecretPart(
 	return res, nil
 }
 
-// Store an ephemeral secret share part provided by another cosigner
-func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSecretPartRequest) error {
-
+// Verify and decrypt an ephemeral secret share part provided by another cosigner
+func (cosigner *LocalCosigner) openEphemeralSecretPart(part CosignerEphemeralSecretPart) (PeerMetadata, error) {
 	// Verify the source signature
 	{
-		if req.SourceSig == nil {
-			return errors.New("SourceSig field is required")
+		if part.SourceSig == nil {
+			return PeerMetadata{}, errors.New("SourceSig field is required")
 		}
 
 		digestMsg := CosignerEphemeralSecretPart{}
-		digestMsg.SourceID = req.SourceID
-		digestMsg.SourceEphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
-		digestMsg.EncryptedSharePart = req.EncryptedSharePart
+		digestMsg.SourceID = part.SourceID
+		digestMsg.SourceEphemeralSecretPublicKey = part.SourceEphemeralSecretPublicKey
+		digestMsg.EncryptedSharePart = part.EncryptedSharePart
 
 		digestBytes, err := tmJson.Marshal(digestMsg)
 		if err != nil {
-			return err
+			return PeerMetadata{}, err
 		}
 
 		digest := sha256.Sum256(digestBytes)
-		peer, ok := cosigner.peers[req.SourceID]
+		peer, ok := cosigner.peers[part.SourceID]
 
 		if !ok {
-			return fmt.Errorf("unknown cosigner: %d", req.SourceID)
+			return PeerMetadata{}, fmt.Errorf("unknown cosigner: %d", part.SourceID)
 		}
 
 		peerPub := peer.PublicKey
-		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)
+		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], part.SourceSig, nil)
 		if err != nil {
-			return err
+			return PeerMetadata{}, err
 		}
 	}
 
-	// protects the meta map
-	cosigner.lastSignStateMutex.Lock()
-	defer cosigner.lastSignStateMutex.Unlock()
-
-	hrst := HRSTKey{
-		Height:    req.Height,
-		Round:     req.Round,
-		Step:      req.Step,
-		Timestamp: req.Timestamp.UnixNano(),
+	// decrypt share
+	sharePart, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cosigner.rsaKey, part.EncryptedSharePart, nil)
+	if err != nil {
+		return PeerMetadata{}, err
 	}
 
+	return PeerMetadata{
+		Share:                    sharePart,
+		EphemeralSecretPublicKey: part.SourceEphemeralSecretPublicKey,
+	}, nil
+}
+
+// Store the ephemeral secret share parts provided by the other cosigners for a message.
+// They replace those of earlier requests, which may have come from other cosigners.
+func (cosigner *LocalCosigner) setEphemeralSecretParts(hrst HRSTKey, parts map[int]PeerMetadata) error {
 	meta, ok := cosigner.hrsMeta[hrst]
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height:    req.Height,
-			Round:     req.Round,
-			Step:      req.Step,
-			Timestamp: req.Timestamp,
+			Height:    hrst.Height,
+			Round:     hrst.Round,
+			Step:      hrst.Step,
+			Timestamp: time.Unix(0, hrst.Timestamp),
 		})
 
 		if err != nil {
@@ -472,37 +472,34 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 		}
 
 		meta = newMeta
-		cosigner.hrsMeta[hrst] = meta
 	}
 
-	// decrypt share
-	sharePart, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cosigner.rsaKey, req.EncryptedSharePart, nil)
-	if err != nil {
-		return err
+	// set slots, our own is only set by dealing
+	for idx := range meta.Peers {
+		if id := idx + 1; id != cosigner.key.ID {
+			meta.Peers[idx] = parts[id]
+		}
 	}
-
-	// set slot
-	meta.Peers[req.SourceID-1].Share = sharePart
-	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
 	return nil
 }
 
 func (cosigner *LocalCosigner) SetEphemeralSecretPartsAndSign(
 	req CosignerSetEphemeralSecretPartsAndSignRequest) (*CosignerSignResponse, error) {
+	parts := make(map[int]PeerMetadata)
 	for _, secretPart := range req.EncryptedSecrets {
-		err := cosigner.setEphemeralSecretPart(CosignerSetEphemeralSecretPartRequest{
-			SourceID:                       secretPart.SourceID,
-			SourceEphemeralSecretPublicKey: secretPart.SourceEphemeralSecretPublicKey,
-			EncryptedSharePart:             secretPart.EncryptedSharePart,
-			SourceSig:                      secretPart.SourceSig,
-			Height:                         req.HRST.Height,
-			Round:                          req.HRST.Round,
-			Step:                           req.HRST.Step,
-			Timestamp:                      time.Unix(0, req.HRST.Timestamp),
-		})
+		part, err := cosigner.openEphemeralSecretPart(secretPart)
 		if err != nil {
 			return nil, err
 		}
+		parts[secretPart.SourceID] = part
+	}
+
+	// protects the meta map and the last sign state
+	cosigner.lastSignStateMutex.Lock()
+	defer cosigner.lastSignStateMutex.Unlock()
+
+	if err := cosigner.setEphemeralSecretParts(req.HRST, parts); err != nil {
+		return nil, err
 	}
 
 	res, err := cosigner.sign(CosignerSignRequest{req.SignBytes})
-- 
2.43.0


From 179111ddce5dc37f3dd93b3a328ac19455275897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 23/37] fix: reject a validator key whose shares could not sign
 for it

Sharding a key that is not ed25519, or whose private key does not belong to its
public key, wrote key shares which never produce a valid signature; a file
without a key panicked.
---
 signer/cosigner_key_shares.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 89cf46d..7bb0a67 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -1,13 +1,16 @@
 package signer
 
 import (
+	"crypto/ed25519"
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"math"
 
+	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
 	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
@@ -28,7 +31,15 @@ func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []
 		return nil, fmt.Errorf("threshold (%d) must be between 1 and the number of shares (%d), which can be at most %d",
 			threshold, shares, math.MaxUint8)
 	}
-	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
+	privKey, ok := pv.PrivKey.(tmCryptoEd25519.PrivKey)
+	if !ok || len(privKey) != tmCryptoEd25519.PrivateKeySize {
+		return nil, errors.New("validator key must be an ed25519 private key")
+	}
+	pubKey := tmCryptoEd25519.PubKey(ed25519.NewKeyFromSeed(privKey[:32])[32:])
+	if !pubKey.Equals(pv.PubKey) {
+		return nil, errors.New("validator private key does not belong to its public key")
+	}
+	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(privKey[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3c7c21a75140a028b935319ef2f15c7204f0ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 24/37] fix: a key share file holding null is an error, not a
 crash

---
 signer/cosigner_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/cosigner_key.go b/signer/cosigner_key.go
index d6b3bd1..31e6267 100644
--- a/signer/cosigner_key.go
+++ b/signer/cosigner_key.go
@@ -67,7 +67,7 @@ func (cosignerKey *CosignerKey) UnmarshalJSON(data []byte) error {
 	}{
 		Alias: (*Alias)(cosignerKey),
 	}
-	if err := json.Unmarshal(data, &aux); err != nil {
+	if err := json.Unmarshal(data, aux); err != nil {
 		return err
 	}
 	privateKey, err := x509.ParsePKCS1PrivateKey(aux.RSAKey)
-- 
2.43.0


From b6c2a15abe455c23cf114c2cda4dc06ea338a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 25/37] fix: electing the present leader or an unknown cosigner
 moved the leadership elsewhere

---
 signer/grpc_server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..1b9aa6e 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -82,6 +82,17 @@ func (rpc *GRPCServer) TransferLeadership(
 			}
 		}
 	}
+	if leaderID != "" {
+		if leaderID != rpc.raftStore.NodeID {
+			return nil, fmt.Errorf("no cosigner with ID: %s", leaderID)
+		}
+		if rpc.raftStore.raft.State() != raft.Leader {
+			return nil, raft.ErrNotLeader
+		}
+		// already the leader
+		return &proto.CosignerGRPCTransferLeadershipResponse{
+			LeaderID: leaderID, LeaderAddress: string(rpc.raftStore.GetLeader())}, nil
+	}
 	fmt.Printf("Transferring leadership to next candidate\n")
 	rpc.raftStore.raft.LeadershipTransfer()
 	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
-- 
2.43.0


From a86498f5fec9d24fdb860bbf5562c7b5521912d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 26/37] fix: report a leadership transfer which failed

---
 signer/grpc_server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index 1b9aa6e..b8750bc 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -77,7 +77,10 @@ func (rpc *GRPCServer) TransferLeadership(
 			if thisPeerID == leaderID {
 				peerRaftAddress := p2pURLToRaftAddress(peer.GetAddress())
 				fmt.Printf("Transferring leadership to ID: %s - Address: %s\n", thisPeerID, peerRaftAddress)
-				rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
+				if err := rpc.raftStore.raft.LeadershipTransferToServer(
+					raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress)).Error(); err != nil {
+					return nil, err
+				}
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
@@ -94,6 +97,8 @@ func (rpc *GRPCServer) TransferLeadership(
 			LeaderID: leaderID, LeaderAddress: string(rpc.raftStore.GetLeader())}, nil
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
-	rpc.raftStore.raft.LeadershipTransfer()
+	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
+		return nil, err
+	}
 	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
 }
-- 
2.43.0


From 2fe126b6a72d47c7bd090328af0c8e9e0c17580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 27/37] fix: a chain node listed twice is added once

---
 cmd/horcrux/cmd/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 4b9c3a8..d44b8f6 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -249,11 +249,14 @@ func addNodesCmd() *cobra.Command {
 			if err != nil {
 				return err
 			}
-			diff := diffSetChainNode(argNodes, config.ChainNodes)
-			if len(diff) == 0 {
+			diff := config.ChainNodes
+			for _, node := range argNodes {
+				// one by one, so that a node listed twice is added once
+				diff = append(diff, diffSetChainNode([]ChainNode{node}, diff)...)
+			}
+			if len(diff) == len(config.ChainNodes) {
 				return errors.New("no new chain nodes in args")
 			}
-			diff = append(config.ChainNodes, diff...)
 			if err := validateChainNodes(diff); err != nil {
 				return err
 			}
-- 
2.43.0


From d79ed55da1b2910c8cf188d7fedc90dd4677cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 28/37] fix: keep the configuration when writing the new one
 fails

---
 cmd/horcrux/cmd/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index d44b8f6..a2d16f5 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -178,7 +178,13 @@ func initCmd() *cobra.Command {
 }
 
 func writeConfigFile(path string, cfg *Config) error {
-	return ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
+	old, readErr := ioutil.ReadFile(path)
+	err := ioutil.WriteFile(path, cfg.MustMarshalYaml(), 0644) //nolint
+	if err != nil && readErr == nil {
+		// e.g. the disk is full, do not leave a torn configuration behind
+		_ = ioutil.WriteFile(path, old, 0644) //nolint
+	}
+	return err
 }
 
 func validateSingleSignerConfig(cfg *Config) error {
-- 
2.43.0


From 864a2fa767f4edafb11299a88ece9ff65374dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 29/37] fix: reject an empty chain ID in chain-id set

---
 cmd/horcrux/cmd/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index a2d16f5..c475147 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -504,6 +504,10 @@ func setChainIDCmd() *cobra.Command {
 				home = path.Join(home, ".horcrux")
 			}
 
+			if args[0] == "" {
+				return errors.New("chain-id cannot be empty")
+			}
+
 			stateDir := path.Join(home, "state")
 			pvOldPath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pvNewPath := path.Join(stateDir, args[0]+"_priv_validator_state.json")
-- 
2.43.0


From 0d451b8bd76ae9966103a4751921dd44801deb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 30/37] verif: hooks to the replicated store behind the verif
 build tag

---
 signer/verif.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)
 create mode 100644 signer/verif.go

diff --git a/signer/verif.go b/signer/verif.go
new file mode 100644
index 0000000..ae39e2e
--- /dev/null
+++ b/signer/verif.go
@@ -0,0 +1,14 @@
+//go:build verif
+// +build verif
+
+package signer
+
+import "github.com/hashicorp/raft"
+
+// Access to the replicated store's parts for runtime monitors, not part of regular builds.
+
+// VerifRaft returns the consensus mechanism of the store once it is open.
+func (s *RaftStore) VerifRaft() *raft.Raft { return s.raft }
+
+// VerifFSM returns the state machine which the consensus mechanism drives.
+func (s *RaftStore) VerifFSM() raft.FSM { return (*fsm)(s) }
-- 
2.43.0


From 5429d98614288cb26e5c17a7f81ce2614b4187c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 31/37] fix: signatures of larger clusters were combined
 wrongly

The threshold library calculates the interpolation coefficients with 64 bit
integers, which overflow for clusters from about a dozen cosigners on (8 of 15
or 13 of 13 for example), so that no block could be signed. Combine the share
signatures with big integers instead.
---
 signer/combine_shares.go      | 43 +++++++++++++++++++++++++++++++++++
 signer/threshold_validator.go |  3 +--
 2 files changed, 44 insertions(+), 2 deletions(-)
 create mode 100644 signer/combine_shares.go

diff --git a/signer/combine_shares.go b/signer/combine_shares.go
new file mode 100644
index 0000000..206b559
--- /dev/null
+++ b/signer/combine_shares.go
@@ -0,0 +1,43 @@
+package signer
+
+import (
+	"math/big"
+)
+
+// order of the edwards25519 base point: 2^252 + 27742317777372353535851937790883648493
+var scalarOrder, _ = new(big.Int).SetString(
+	"7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
+
+// combineShares interpolates the share signatures of the cosigners with the given IDs into the
+// scalar that they are shares of. It replaces the threshold library's CombineShares, which calculates
+// the interpolation coefficients with 64 bit integers: these overflow for larger clusters.
+func combineShares(cosignerIDs []int, shares [][]byte) []byte {
+	combined := new(big.Int)
+
+	for i, id := range cosignerIDs {
+		numerator, denominator := big.NewInt(1), big.NewInt(1)
+		for _, otherID := range cosignerIDs {
+			if otherID == id {
+				continue
+			}
+			numerator.Mul(numerator, big.NewInt(int64(otherID)))
+			denominator.Mul(denominator, big.NewInt(int64(otherID)-int64(id)))
+		}
+
+		term := new(big.Int).SetBytes(reverseBytes(shares[i]))
+		term.Mul(term, numerator)
+		term.Mul(term, new(big.Int).ModInverse(denominator.Mod(denominator, scalarOrder), scalarOrder))
+		combined.Add(combined, term)
+	}
+
+	// scalars are little endian
+	return reverseBytes(combined.Mod(combined, scalarOrder).FillBytes(make([]byte, 32)))
+}
+
+func reverseBytes(b []byte) []byte {
+	reversed := make([]byte, len(b))
+	for i := range b {
+		reversed[len(b)-1-i] = b[i]
+	}
+	return reversed
+}
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 3660962..528b504 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -14,7 +14,6 @@ import (
 	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
 	rpcTypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
 	tm "github.com/tendermint/tendermint/types"
-	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
 )
 
 type ThresholdValidator struct {
@@ -449,7 +448,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 	}
 
 	// assemble into final signature
-	combinedSig := tsed25519.CombineShares(total, sigIds, shareSigs)
+	combinedSig := combineShares(sigIds, shareSigs)
 
 	signature := ephemeralPublic
 	signature = append(signature, combinedSig...)
-- 
2.43.0


From d67acb3620fac45f680e3d126d21a32045267d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 32/37] fix: a goroutine was left behind by each attempt
 without enough cosigners

Peers which fail never mark the wait group as done, so that the goroutine
waiting for it never ended once the attempt had timed out.
---
 signer/threshold_validator.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 528b504..30cc2e8 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -173,7 +173,7 @@ func newStillWaitingForBlockError(hrs HRSKey) *StillWaitingForBlockError {
 func (pv *ThresholdValidator) waitForPeerEphemeralShares(
 	peer Cosigner,
 	hrst HRSTKey,
-	wg *sync.WaitGroup,
+	haveThresholdPeers chan<- struct{},
 	encryptedEphemeralSharesThresholdMap *map[Cosigner][]CosignerEphemeralSecretPart,
 	thresholdPeersMutex *sync.Mutex,
 ) {
@@ -182,11 +182,13 @@ func (pv *ThresholdValidator) waitForPeerEphemeralShares(
 		pv.logger.Error("Error getting secret parts", "peer", peer.GetID(), "err", err)
 		return
 	}
-	// Check so that getEphemeralWaitGroup.Done is not called more than (threshold - 1) times which causes hardlock
+	// Only the first (threshold - 1) peers take part, the last of them completes the threshold
 	thresholdPeersMutex.Lock()
 	if len(*encryptedEphemeralSharesThresholdMap) < pv.threshold-1 {
 		(*encryptedEphemeralSharesThresholdMap)[peer] = ephemeralSecretParts.EncryptedSecrets
-		defer wg.Done()
+		if len(*encryptedEphemeralSharesThresholdMap) == pv.threshold-1 {
+			defer close(haveThresholdPeers)
+		}
 	}
 	thresholdPeersMutex.Unlock()
 }
@@ -368,11 +370,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 
 	numPeers := len(pv.peers)
 	total := uint8(numPeers + 1)
-	getEphemeralWaitGroup := sync.WaitGroup{}
 
-	// Only wait until we have threshold sigs
-	getEphemeralWaitGroup.Add(pv.threshold - 1)
-	// Used to track how close we are to threshold
+	// Closed once the ephemeral shares of (threshold - 1) peers are there. Peers which fail never count, so
+	// nothing may be left waiting for it after the timeout.
+	haveThresholdPeers := make(chan struct{})
+	if pv.threshold <= 1 {
+		close(haveThresholdPeers)
+	}
 
 	ourID := pv.cosigner.GetID()
 
@@ -380,7 +384,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 	thresholdPeersMutex := sync.Mutex{}
 
 	for _, peer := range pv.peers {
-		go pv.waitForPeerEphemeralShares(peer, hrst, &getEphemeralWaitGroup,
+		go pv.waitForPeerEphemeralShares(peer, hrst, haveThresholdPeers,
 			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
 	}
 
@@ -392,7 +396,9 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 
 	// Wait for threshold cosigners to be complete
 	// A Cosigner will either respond in time, or be cancelled with timeout
-	if waitUntilCompleteOrTimeout(&getEphemeralWaitGroup, 4*time.Second) {
+	select {
+	case <-haveThresholdPeers:
+	case <-time.After(4 * time.Second):
 		return nil, stamp, errors.New("timed out waiting for ephemeral shares")
 	}
 
-- 
2.43.0


From 596044c0ecf614be4281bd2922cb468f4801889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 33/37] fix: ephemeral secrets of blocks signed by other
 cosigners were kept forever

A cosigner deals ephemeral secrets for every block, but only deleted them when
it signed a later one itself. One that is always too slow to be among the
threshold kept them all. Delete them also when hearing that the cluster has
gone beyond them.
---
 signer/local_cosigner.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index f90f219..05236e5 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -118,8 +118,23 @@ func (cosigner *LocalCosigner) SaveLastSignedState(signState SignStateConsensus)
 	err := cosigner.lastSignState.Save(signState, nil)
 	if err != nil {
 		cosigner.lastSignState.EphemeralPublic = ephemeralPublic
+		return err
+	}
+
+	// The cluster has gone beyond the blocks below, also if we never took part in signing them
+	cosigner.deleteMetaBelow(HRSTKey{Height: signState.Height, Round: signState.Round, Step: signState.Step})
+	return nil
+}
+
+// deleteMetaBelow deletes the ephemeral secrets of any HRS lower than our signed level,
+// we will not be providing parts for any lower HRS
+// The caller must hold lastSignStateMutex
+func (cosigner *LocalCosigner) deleteMetaBelow(hrst HRSTKey) {
+	for existingKey := range cosigner.hrsMeta {
+		if existingKey.Less(hrst) {
+			delete(cosigner.hrsMeta, existingKey)
+		}
 	}
-	return err
 }
 
 func NewLocalCosigner(cfg LocalCosignerConfig) *LocalCosigner {
@@ -255,13 +270,7 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		}
 	}
 
-	for existingKey := range cosigner.hrsMeta {
-		// delete any HRS lower than our signed level
-		// we will not be providing parts for any lower HRS
-		if existingKey.Less(hrst) {
-			delete(cosigner.hrsMeta, existingKey)
-		}
-	}
+	cosigner.deleteMetaBelow(hrst)
 
 	res.EphemeralPublic = ephemeralPublic
 	res.Signature = sig
-- 
2.43.0


From 54ddf6adfdb326f7105f6750f21b8cd9c6bba0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 34/37] fix: key shares written over a file readable by all
 stayed readable by all

---
 signer/cosigner_key_shares.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7bb0a67..1318e56 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"math"
+	"os"
 
 	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
 	tmjson "github.com/tendermint/tendermint/libs/json"
@@ -74,6 +75,12 @@ func WriteCosignerShareFile(cosigner CosignerKey, file string) error {
 	if err != nil {
 		return err
 	}
+	// a file which exists already would keep its permissions
+	if info, err := os.Stat(file); err == nil && info.Mode().IsRegular() {
+		if err := os.Chmod(file, 0600); err != nil {
+			return err
+		}
+	}
 	return ioutil.WriteFile(file, jsonBytes, 0600)
 }
 
-- 
2.43.0


From 8841bc748c6113c27f0d1001add72d861937941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 35/37] fix: a cosigner with fewer peers than other shares
 crashed when signing

---
 cmd/horcrux/cmd/cosigner.go   |  4 ++--
 signer/threshold_validator.go | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index a9cd118..9448685 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -200,14 +200,14 @@ func StartCosignerCmd() *cobra.Command {
 				})
 			}
 
-			total := len(cfg.Cosigners) + 1
+			// shares are dealt for every ID, peers may be fewer than that
 			localCosignerConfig := signer.LocalCosignerConfig{
 				CosignerKey: key,
 				SignState:   &shareSignState,
 				RsaKey:      key.RSAKey,
 				Address:     cfg.ListenAddress,
 				Peers:       peers,
-				Total:       uint8(total),
+				Total:       uint8(config.CosignerConfig.Shares),
 				Threshold:   uint8(cfg.CosignerThreshold),
 			}
 
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 30cc2e8..feaf3de 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -368,8 +368,13 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 		}
 	}
 
-	numPeers := len(pv.peers)
-	total := uint8(numPeers + 1)
+	// share IDs may be higher than the number of cosigners, not every holder of a share has to take part
+	maxID := pv.cosigner.GetID()
+	for _, peer := range pv.peers {
+		if peer.GetID() > maxID {
+			maxID = peer.GetID()
+		}
+	}
 
 	// Closed once the ephemeral shares of (threshold - 1) peers are there. Peers which fail never count, so
 	// nothing may be left waiting for it after the timeout.
@@ -414,7 +419,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 	setEphemeralAndSignWaitGroup.Add(pv.threshold)
 
 	// destination for share signatures
-	shareSignatures := make([][]byte, total)
+	shareSignatures := make([][]byte, maxID)
 
 	// share sigs is updated by goroutines
 	shareSignaturesMutex := sync.Mutex{}
-- 
2.43.0


From 4f152fb64bb4867a51b3ae9b3b6e95bfe8079b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 36/37] fix: a cosigner started with its own share listed as a
 peer, or beyond the shares

---
 cmd/horcrux/cmd/cosigner.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 9448685..aaffe2e 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -160,6 +160,9 @@ func StartCosignerCmd() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error reading cosigner key: %s", err)
 			}
+			if err := validateOwnShare(key.ID, config.CosignerConfig); err != nil {
+				return err
+			}
 
 			// ok to auto initialize on disk since the cosigner share is the one that actually
 			// protects against double sign - this exists as a cache for the final signature
@@ -264,3 +267,16 @@ func StartCosignerCmd() *cobra.Command {
 
 	return cmd
 }
+
+// validateOwnShare checks that the share is one of those configured, and not that of a peer
+func validateOwnShare(id int, cfg *CosignerConfig) error {
+	if id < 1 || id > cfg.Shares {
+		return fmt.Errorf("share ID %d of the key file is out of range, must be between 1 and %d", id, cfg.Shares)
+	}
+	for _, peer := range cfg.Peers {
+		if peer.ShareID == id {
+			return fmt.Errorf("peer %s has share ID %d, which is the one of the key file", peer.P2PAddr, id)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 5dcd21a9dc7eaa84446841cfc21abbb791283103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:25 +0000
Subject: [PATCH 37/37] fix: config init accepted listen addresses without a
 host or port, and ::

---
 cmd/horcrux/cmd/config.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index c475147..54dbda4 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -99,12 +99,15 @@ func initCmd() *cobra.Command {
 				if err != nil {
 					return fmt.Errorf("error parsing listen address: %s, %v", listen, err)
 				}
-				host, _, err := net.SplitHostPort(url.Host)
+				host, port, err := net.SplitHostPort(url.Host)
 				if err != nil {
 					return err
 				}
-				if host == "0.0.0.0" {
-					return errors.New("host cannot be 0.0.0.0, must be reachable from other peers")
+				if host == "" || port == "" {
+					return fmt.Errorf("listen address %s must have a host and a port", listen)
+				}
+				if net.ParseIP(host).IsUnspecified() {
+					return fmt.Errorf("host cannot be %s, must be reachable from other peers", host)
 				}
 
 				cfg = &Config{
-- 
2.43.0

