From bbeea8a5a995cb51c534a7708314501fd8c05a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 01/35] fix: sign with a fresh random nonce

Every ElGamal signature drew its nonce from a cipher keyed by the constant
"example", so two signatures by one key reveal that key.
---
 cmd/client/ClientLauncher.go    | 7 ++++---
 cmd/coordinator/Coordinator.go  | 2 +-
 cmd/server/AnonServerHandler.go | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..d6d11aa 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -11,6 +11,7 @@ import (
 	"zRep/proto"
 	"zRep/util"
 
+	"github.com/dedis/crypto/abstract"
 	"github.com/dedis/crypto/nist"
 	"github.com/dedis/crypto/random"
 
@@ -76,7 +77,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
@@ -136,7 +137,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
@@ -224,7 +225,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
+	rand := dissentClient.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..8f12390 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -131,7 +131,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
+	rand := c.Suite.Cipher(abstract.RandomKey)
 	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
 	return sig
 }
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..c13eae7 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,7 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
+		rand := anonServer.Suite.Cipher(abstract.RandomKey)
 		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
 		sigs = append(sigs, sig)
 	}
-- 
2.43.0


From 51b93c904edec72ffce49c7be68892074fce149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 02/35] fix: sign and verify certificates with the group's base
 point

suite.Point() is the integer 0, not a generator: with it every commitment T
is 0 and any response verifies, so anyone could forge the certificates of
the coordinator and the servers.
---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 8f12390..06357c8 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
 	rand := c.Suite.Cipher(abstract.RandomKey)
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..384f8a7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index c13eae7..ccb3961 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -386,7 +386,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
 		rand := anonServer.Suite.Cipher(abstract.RandomKey)
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From c7f8cccba9cb79d19aca03330c0d93697d85e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 03/35] fix: cover the sign of the feedback in a vote's
 signature

big.Int.Bytes drops the sign, so +1 and -1 had the same signed message.
---
 cmd/bridge/bridge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..6d9b584 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -119,7 +119,7 @@ func MessageOfVote(params map[string]interface{}) (msg []byte) {
 	msg = append(msg, params["assignment"].([]byte)...)
 	msg = append(msg, params["signatures"].([]byte)...)
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
+	byteFeedback := util.IntToByte(feedback)
 	msg = append(msg, byteFeedback...)
 	return
 }
-- 
2.43.0


From 8eae94d4084d4d15384ac849d1fab689b12a4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 04/35] fix: bind commitrx into the challenge of the
 non-negativity argument

commitrx was left out of the hash, so a prover could solve for it after
seeing the challenge and have any value accepted as non-negative.
---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..4d81061 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,9 +458,10 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
@@ -496,9 +497,10 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// e := hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
-- 
2.43.0


From f85ea2c608d49b797eb0c0a6a3a45d58778949cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 05/35] fix: bound the response of the equality argument

With an unbounded s1 the Fujisaki-Okamoto commitment could hold the value
plus the group order, so a negative remainder passed as non-negative.
---
 primitive/pedersen_fujiokam/equality.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..d96e9a7 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -81,6 +81,12 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// The Pedersen commitment only fixes its value modulo the group order, so
+	// without a bound on s1 the integer under FOComm could be x plus a multiple
+	// of that order. An honest s1 = x*c + t1 has no more bits than t1.
+	if arg.S1.Sign() < 0 || arg.S1.BitLen() > 8*pedersenBase.Suite.SecretLen() {
+		return false
+	}
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
-- 
2.43.0


From a7df5bbeb5f355dd94c0e3bf591af763d9da7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 06/35] fix: tie the simple shuffle to the pair shuffle it is
 part of

PairShuffle.Verify never compared the inputs of the embedded simple shuffle
with A+lambda*B and C+lambda*D, so a proof could be built for outputs that
are not a permutation of the inputs.
---
 util/shuffle/pair.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..b362e5e 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -274,6 +274,15 @@ func (ps *PairShuffle) Verify(
 	if err := ps.pv6.Verify(g, p1.Gamma, ctx); err != nil {
 		return err
 	}
+	// its inputs must be the R and S vectors of this pair shuffle
+	for i := 0; i < k; i++ {
+		R := grp.Point().Mul(B[i], v4.Zlambda)
+		S := grp.Point().Mul(p3.D[i], v4.Zlambda)
+		if !R.Add(R, p1.A[i]).Equal(ps.pv6.p0.X[i]) ||
+			!S.Add(S, p1.C[i]).Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+	}
 
 	// V step 7
 	Phi1 := grp.Point().Null()
-- 
2.43.0


From 934bc6e72209a99a3f0d0e03b94f7b4cb7ce41a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/35] fix: bind the shuffled lists into the shuffle proof's
 challenges

The proof's hash started from a constant, so the output pairs could be
chosen after the challenges and still satisfy every check.
---
 cmd/server/AnonServerHandler.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index ccb3961..28cd49a 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -57,6 +57,18 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 	}
 }
 
+// the challenges of a shuffle proof have to depend on the statement it proves
+func shuffleProofName(publicKey abstract.Point, X, Y, Xbar, Ybar []abstract.Point) string {
+	h := anonServer.Suite.Hash()
+	h.Write(util.EncodePoint(publicKey))
+	for _, list := range [][]abstract.Point{X, Y, Xbar, Ybar} {
+		for _, p := range list {
+			h.Write(util.EncodePoint(p))
+		}
+	}
+	return "PairShuffle" + string(h.Sum(nil))
+}
+
 func verifyNeffShuffle(params map[string]interface{}) {
 	if _, shuffled := params["shuffled"]; shuffled {
 		// get all the necessary parameters
@@ -70,7 +82,8 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		// verify the shuffle
 		verifier := shuffle.Verifier(anonServer.Suite, nil, prePublicKey, prevKeyList,
 			prevValList, xbarList, ybarList)
-		err := proof.HashVerify(anonServer.Suite, "PairShuffle", verifier, params["proof"].([]byte))
+		name := shuffleProofName(prePublicKey, prevKeyList, prevValList, xbarList, ybarList)
+		err := proof.HashVerify(anonServer.Suite, name, verifier, params["proof"].([]byte))
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
@@ -138,7 +151,7 @@ func handleRoundEnd(params map[string]interface{}) {
 	rand := anonServer.Suite.Cipher(abstract.RandomKey)
 	// *** perform neff shuffle here ***
 	Xbar, Ybar, _, Ytmp, prover := neffShuffle(Xori, newKeys, rand)
-	prf, err := proof.HashProve(anonServer.Suite, "PairShuffle", rand, prover)
+	prf, err := proof.HashProve(anonServer.Suite, shuffleProofName(anonServer.PublicKey, Xori, newKeys, Xbar, Ybar), rand, prover)
 	util.CheckErr(err)
 
 
@@ -302,7 +315,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	rand := anonServer.Suite.Cipher(abstract.RandomKey)
 	// *** perform neff shuffle here ***
 	Xbar, Ybar, _, Ytmp, prover := neffShuffle(Xori,newKeys,rand)
-	prf, err := proof.HashProve(anonServer.Suite, "PairShuffle", rand, prover)
+	prf, err := proof.HashProve(anonServer.Suite, shuffleProofName(anonServer.PublicKey, Xori, newKeys, Xbar, Ybar), rand, prover)
 	util.CheckErr(err)
 
 
-- 
2.43.0


From 92f9e78ed1d083f86b3ac3d78f28dbc658669065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 08/35] fix: refuse a bridge request from a nym that is not in
 the table

Its commitment is nil, and subtracting from it panicked the coordinator.
---
 cmd/bridge/bridge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 6d9b584..976377b 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -42,6 +42,12 @@ func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstr
 	err = PCommd.UnmarshalBinary(params["PCommd"].([]byte))
 	util.CheckErr(err)
 
+	// only members of the current table have a commitment to prove against
+	if PCommr == nil {
+		fmt.Println("[note]** Can not find nym's commitment")
+		return false
+	}
+
 	// commit ind by myself then compare
 	xind := suite.Secret().SetInt64(int64(ind))
 	rind := suite.Secret()
-- 
2.43.0


From 12bd582b9d0ba41e194fbb96218c192b7d2d273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 09/35] fix: accept a vote only from the requester, with
 feedback 1 or -1

handleVote added any integer, for any holder of somebody else's assignment,
and recorded votes for nyms of an earlier round, which then could not be
encoded at the end of the round.
---
 cmd/coordinator/CoordinatorHandler.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 384f8a7..694737a 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -519,7 +519,16 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	signatures := util.Decode2DByteArray(params["signatures"].([]byte))
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
+	// only the requester of the bridge may vote on it
+	if !assignment.NymR.Equal(nym) {
+		fmt.Println("[note] The assignment belongs to another client")
+		return
+	}
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers+1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -540,6 +549,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	// record feedback
 	targetNym := assignment.Nym
 	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Feedback must be 1 or -1")
+		return
+	}
+	if _, ok := anonCoordinator.EndingKeyMap[targetNym.String()]; !ok {
+		fmt.Println("[note] Can not find the provider's nym")
+		return
+	}
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
-- 
2.43.0


From 21c0b6149c2faf781ce102f80e6fff8f22123a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 10/35] fix: count one vote per assignment

Nothing recorded that an assignment was voted on, so its requester could
move the provider's reputation by any amount by repeating the vote.
---
 cmd/coordinator/Coordinator.go         | 2 ++
 cmd/coordinator/CoordinatorHandler.go  | 5 +++++
 cmd/coordinator/CoordinatorLauncher.go | 1 +
 3 files changed, 8 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 06357c8..aa72b1c 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -66,6 +66,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// assignments that were voted on in this round
+	VotedAssignments map[string]bool
 
 	Bridges map[string]BridgeInfo
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 694737a..5623978 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -557,6 +557,11 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		fmt.Println("[note] Can not find the provider's nym")
 		return
 	}
+	if anonCoordinator.VotedAssignments[assignment.Addr] {
+		fmt.Println("[note] Duplicate vote")
+		return
+	}
+	anonCoordinator.VotedAssignments[assignment.Addr] = true
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..ca33c07 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -103,6 +103,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.VotedAssignments = make(map[string]bool)
 }
 
 /**
-- 
2.43.0


From 791676aa7e30245dad415e88380b0a3ad09054d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 11/35] fix: accept bridges only from nyms of the current table

Any key could post a bridge; it was handed out, and no vote on it could be
settled.
---
 cmd/coordinator/CoordinatorHandler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 5623978..400481f 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -275,6 +275,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 
 	fmt.Println("[debug] Receiving post from " + senderAddr.String() + ": " + bridgeAddr)
 
+	// only members of the current table can provide bridges
+	if util.FindIndexWithinKeyList(anonCoordinator.AllClientsPublicKeys, nym) < 0 {
+		fmt.Println("[note] Can not find nym within keyList")
+		return
+	}
+
 	// verify the signature
 	byteMsg := bridge.MessageOfPostBridge(params)
 	err = util.ElGamalVerify(anonCoordinator.Suite, byteMsg, nym, byteSig, anonCoordinator.G)
-- 
2.43.0


From 71a6b46fd609f2741160feb407eb72279325414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 12/35] fix: keep the first provider of a bridge address

Posting an address again replaced its provider and marked it as unused, so
it was handed out twice in a round.
---
 cmd/coordinator/CoordinatorHandler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 400481f..fc1f355 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -289,8 +289,11 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		return
 	}
 
-	// record the bridge
-	// Note: we assume the client does not provide duplicated bridges
+	// record the bridge, the first provider of an address keeps it
+	if _, ok := anonCoordinator.Bridges[bridgeAddr]; ok {
+		fmt.Println("[note] Bridge is already provided: " + bridgeAddr)
+		return
+	}
 	anonCoordinator.AddBridge(bridgeAddr, nym)
 	fmt.Println("[debug] Finished adding bridge " + bridgeAddr)
 }
-- 
2.43.0


From a668b887cfbeaf7f9634d47d68dce6edf7eb317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 13/35] fix: guard the coordinator's state with a mutex

The listener goroutine handled messages while the main loop read and wrote
the same maps to announce a round or to end one.
---
 cmd/coordinator/CoordinatorHandler.go  |  6 ++++++
 cmd/coordinator/CoordinatorLauncher.go | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index fc1f355..5c69e9d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"strconv"
 	// "strings"
+	"sync"
 	"time"
 
 	"zRep/primitive/lrs"
@@ -19,10 +20,15 @@ import (
 
 var anonCoordinator *Coordinator
 
+// guards anonCoordinator, which the listener and the main loop share
+var mutex sync.Mutex
+
 
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
+	mutex.Lock()
+	defer mutex.Unlock()
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ca33c07..2b0e2bf 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -143,6 +143,8 @@ func announce() {
  * add new clients into the reputation map
  */
 func roundEnd() {
+	mutex.Lock()
+	defer mutex.Unlock()
 	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer == nil {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
@@ -202,6 +204,8 @@ func roundEnd() {
  * just send it from controller
  */
 func vote() {
+	mutex.Lock()
+	defer mutex.Unlock()
 	anonCoordinator.ClearVoteRecords()
 	pm := map[string]interface{} {}
 	event := &proto.Event{EventType:proto.VOTE, Params:pm}
@@ -224,6 +228,12 @@ func addFakeClients(num int) {
 	}
 }
 
+func getStatus() int {
+	mutex.Lock()
+	defer mutex.Unlock()
+	return anonCoordinator.Status
+}
+
 func waitKeypress(prompt string) {
 	fmt.Print(prompt)
 	reader := bufio.NewReader(os.Stdin)
@@ -242,6 +252,7 @@ func Launch() {
 	fmt.Println("** Note: Type ok to finish the server configuration. **")
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
+	mutex.Lock()
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
@@ -249,14 +260,16 @@ func Launch() {
 	fmt.Println("[debug] Configuring parameters of commitments.")
 	configCommParams()
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
+	mutex.Unlock()
 	for {
 		// wait for the status changed to READY_FOR_NEW_ROUND
 		for {
-			if anonCoordinator.Status == READY_FOR_NEW_ROUND {
+			if getStatus() == READY_FOR_NEW_ROUND {
 				break
 			}
 			time.Sleep(10 * time.Millisecond)
 		}
+		mutex.Lock()
 		// add fake clients in the first round
 		if isFirstRound {
 			addFakeClients(10)
@@ -273,8 +286,9 @@ func Launch() {
 		anonCoordinator.Status = ANNOUNCE
 		fmt.Println("[coordinator] Announcement phase started...")
 		announce()
+		mutex.Unlock()
 		for {
-			if anonCoordinator.Status == MESSAGE {
+			if getStatus() == MESSAGE {
 				break
 			}
 			time.Sleep(1000 * time.Millisecond)
-- 
2.43.0


From 72b2b0e836830612f0b6645513adf3796ed81cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 14/35] fix: take posts, requests and votes only while a round
 is open

A vote between roundEnd and the servers' answer changed the client's
reputation but not its commitment, and a post in that window carried a nym
of the old round into the new one.
---
 cmd/coordinator/CoordinatorHandler.go  | 9 +++++++++
 cmd/coordinator/CoordinatorLauncher.go | 5 ++++-
 cmd/coordinator/CoordinatorStatus.go   | 2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 5c69e9d..424fc9d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -33,6 +33,15 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
 
+	// bridges and votes belong to the round whose table is published
+	switch event.EventType {
+	case proto.POST_BRIDGE, proto.REQUEST_BRIDGES, proto.GOT_SIGNS, proto.VOTE:
+		if anonCoordinator.Status != MESSAGE {
+			fmt.Println("[note] No round is open, ignore request from", addr)
+			return
+		}
+	}
+
 	switch event.EventType {
 	case proto.SERVER_REGISTER:
 		handleServerRegister(event.Params, addr)
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 2b0e2bf..2ac18cf 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -150,6 +150,8 @@ func roundEnd() {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
 		return
 	}
+	// from here on the round's votes and bridges are settled
+	anonCoordinator.Status = ROUND_ENDING
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
@@ -194,8 +196,9 @@ func roundEnd() {
 		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
 	}
 
-	// clear bridges
+	// clear bridges and the assignments still waiting for signatures
 	anonCoordinator.ClearBridges()
+	anonCoordinator.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
 }
 
 /**
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..006fe2b 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -8,3 +8,5 @@ const ANNOUNCE = 2;
 const MESSAGE = 3;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
+const ROUND_ENDING = 6;
+
-- 
2.43.0


From 98f2346e701f01b8eed98f9c67a8c225c6d67165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 15/35] fix: register clients only while a round is open

Before the first announcement g is nil and a registration panicked the
coordinator; during an announcement or a round end the new client's nym or
commitment was made with outdated parameters, or dropped with the buffer,
and the client never found itself in a table.
---
 cmd/coordinator/Coordinator.go         |  9 +++++++++
 cmd/coordinator/CoordinatorHandler.go  | 15 +++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aa72b1c..6e8c5ad 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -17,6 +17,11 @@ type ClientTuple struct {
 	PComm abstract.Point
 }
 
+type PendingClient struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type BridgeInfo struct {
 	Nym abstract.Point
 	Used bool
@@ -59,6 +64,10 @@ type Coordinator struct {
 	// we only add new clients at the beginning of each round
 	// store the new clients's one-time pseudo nym
 	NewClientsBuffer []ClientTuple
+	// registrations waiting for the next round to open
+	PendingClients []PendingClient
+	// registrations on their way through the servers
+	RegisteringClients int
 	// msg sender's record nym
 	MsgLog []abstract.Point
 	// map an assignment's bridge to servers' signatures
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 424fc9d..c2111a5 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -139,6 +139,13 @@ func handleAnnouncement(params map[string]interface{}) {
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
+
+	// register the clients that came while no round was open
+	pending := anonCoordinator.PendingClients
+	anonCoordinator.PendingClients = nil
+	for _, client := range pending {
+		handleClientRegisterControllerSide(client.Params, client.Addr)
+	}
 }
 
 // handle server register request
@@ -197,6 +204,12 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 	// get client's public key
 	publicKey := anonCoordinator.Suite.Point()
 	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	// g, GT, HT and the servers' round keys are only settled while a round is open
+	if anonCoordinator.Status != MESSAGE {
+		pending := PendingClient{Params: params, Addr: addr}
+		anonCoordinator.PendingClients = append(anonCoordinator.PendingClients, pending)
+		return
+	}
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
@@ -214,6 +227,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 	}
 	event := &proto.Event{EventType:proto.CLIENT_REGISTER_SERVERSIDE, Params:pm}
 	util.SendEvent(anonCoordinator.LocalAddr, firstServer, event)
+	anonCoordinator.RegisteringClients++
 
 	// send initial r to client
 	pm = map[string]interface{}{
@@ -264,6 +278,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
+	anonCoordinator.RegisteringClients--
 }
 
 func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCPAddr) {
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 2ac18cf..83ed280 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -145,6 +145,12 @@ func announce() {
 func roundEnd() {
 	mutex.Lock()
 	defer mutex.Unlock()
+	// registrations still going through the servers belong to this round
+	for anonCoordinator.RegisteringClients > 0 {
+		mutex.Unlock()
+		time.Sleep(10 * time.Millisecond)
+		mutex.Lock()
+	}
 	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer == nil {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
-- 
2.43.0


From 9dae9c5d260ce3e3d99aa2bc2293d8450df35d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 16/35] fix: refuse to register a public key twice, or an
 invalid one

Registering a member's key again replaced its commitment by one to the
starting credit. A key outside the group was sent on to the servers, which
then failed to decode it and stopped.
---
 cmd/coordinator/Coordinator.go         | 2 ++
 cmd/coordinator/CoordinatorHandler.go  | 9 +++++++--
 cmd/coordinator/CoordinatorLauncher.go | 1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 6e8c5ad..e651805 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -66,6 +66,8 @@ type Coordinator struct {
 	NewClientsBuffer []ClientTuple
 	// registrations waiting for the next round to open
 	PendingClients []PendingClient
+	// public keys of all the clients so far
+	RegisteredKeys map[string]bool
 	// registrations on their way through the servers
 	RegisteringClients int
 	// msg sender's record nym
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index c2111a5..3bf115c 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -202,14 +202,19 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 	// g, GT, HT and the servers' round keys are only settled while a round is open
 	if anonCoordinator.Status != MESSAGE {
 		pending := PendingClient{Params: params, Addr: addr}
 		anonCoordinator.PendingClients = append(anonCoordinator.PendingClients, pending)
 		return
 	}
+	// a second registration would replace the member's commitment
+	if anonCoordinator.RegisteredKeys[publicKey.String()] {
+		fmt.Println("[note] Public key is already registered")
+		return
+	}
+	anonCoordinator.RegisteredKeys[publicKey.String()] = true
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 83ed280..f6b9c80 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -62,6 +62,7 @@ func initCoordinator() {
 		PublicKey: A,
 		G: nil,
 		Clients: make(map[string]*net.TCPAddr),
+		RegisteredKeys: make(map[string]bool),
 		BeginningKeyMap: make(map[string]abstract.Point),
 		BeginningCommMap: make(map[string]abstract.Point),
 		NewClientsBuffer: nil,
-- 
2.43.0


From df78b57e995cf168f27fd0cb980166f7e7a7b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 17/35] fix: register the servers one after the other, before
 the rounds

Two servers registering at once were given the same HT and the later answer
dropped the other server's share of it. A server that registered after the
configuration was linked into the chain in the middle of a round.
---
 cmd/coordinator/Coordinator.go         |  8 ++++++++
 cmd/coordinator/CoordinatorHandler.go  | 18 ++++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  5 +++++
 3 files changed, 31 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index e651805..8e5f40e 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -17,6 +17,11 @@ type ClientTuple struct {
 	PComm abstract.Point
 }
 
+type PendingServer struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type PendingClient struct {
 	Params map[string]interface{}
 	Addr *net.TCPAddr
@@ -42,6 +47,9 @@ type Coordinator struct {
 	LocalAddr *net.TCPAddr
 	// network topology for server cluster
 	ServerList []ServerInfo
+	// a new server is updating HT, the others have to wait for it
+	IsUpdatingH bool
+	PendingServers []PendingServer
 	// initialize the controller status
 	Status int
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 3bf115c..d28bbe7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -151,6 +151,16 @@ func handleAnnouncement(params map[string]interface{}) {
 // handle server register request
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
+	if anonCoordinator.Status != CONFIGURATION {
+		fmt.Println("[note] Servers can only be added during the configuration")
+		return
+	}
+	// each server has to build on the HT of the server before it
+	if anonCoordinator.IsUpdatingH {
+		pending := PendingServer{Params: params, Addr: addr}
+		anonCoordinator.PendingServers = append(anonCoordinator.PendingServers, pending)
+		return
+	}
 	// fetch server's public key
 	publicKey := anonCoordinator.Suite.Point()
 	publicKey.UnmarshalBinary(params["public_key"].([]byte))
@@ -191,11 +201,19 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	util.SendEvent(anonCoordinator.LocalAddr, addr, event1)
 
 	anonCoordinator.AddServer(addr, publicKey)
+	anonCoordinator.IsUpdatingH = true
 }
 
 func handleUpdatePedersenH(params map[string]interface{}) {
 	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
 	util.CheckErr(err)
+
+	anonCoordinator.IsUpdatingH = false
+	if len(anonCoordinator.PendingServers) > 0 {
+		next := anonCoordinator.PendingServers[0]
+		anonCoordinator.PendingServers = anonCoordinator.PendingServers[1:]
+		handleServerRegister(next.Params, next.Addr)
+	}
 }
 
 // Handler for REGISTER event
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index f6b9c80..68f39a1 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -263,6 +263,11 @@ func Launch() {
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
 	mutex.Lock()
+	for anonCoordinator.IsUpdatingH {
+		mutex.Unlock()
+		time.Sleep(10 * time.Millisecond)
+		mutex.Lock()
+	}
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
-- 
2.43.0


From 7e749e9ce8e987556b85e3c0059fe30fb125ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 18/35] fix: keep the coordinator running after a malformed
 message

Any client could stop it with a message that fails to decode or lacks a
field, by resetting a connection, or by opening one and sending nothing.
---
 cmd/coordinator/CoordinatorHandler.go  |  6 ++++++
 cmd/coordinator/CoordinatorLauncher.go |  8 +++++++-
 util/Util.go                           | 13 ++++++-------
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index d28bbe7..212c661 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -29,6 +29,12 @@ var mutex sync.Mutex
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	mutex.Lock()
 	defer mutex.Unlock()
+	// a malformed message must not stop the coordinator
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Dropped a message:", err)
+		}
+	}()
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	event, addr := util.DecodeEvent(buf)
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 68f39a1..1af8a2d 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -33,8 +33,14 @@ func startServerListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
+		// a broken or silent connection must not stop the coordinator
+		conn.SetReadDeadline(time.Now().Add(5 * time.Second))
 		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		conn.Close()
+		if err != nil {
+			fmt.Println("[note]** Dropped a connection:", err)
+			continue
+		}
 		Handle(buf.Bytes(), anonCoordinator)
 	}
 }
diff --git a/util/Util.go b/util/Util.go
index b57f098..45e62c5 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,7 +5,6 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
-	"log"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -148,7 +147,7 @@ func ProtobufDecodeBigIntList(data []byte) []*big.Int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -173,7 +172,7 @@ func DecodeARGnonneg(data []byte) *fujiokam.ARGnonneg {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -198,7 +197,7 @@ func DecodeARGequal(data []byte) *pedersen_fujiokam.ARGequal {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -249,7 +248,7 @@ func DecodeIntArray(data []byte) []int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arr)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arr
 }
@@ -272,7 +271,7 @@ func ProtobufDecodePointList(bytes []byte) []abstract.Point {
 
 	var msg PointList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Points
 }
@@ -295,7 +294,7 @@ func ProtobufDecodeSecretList(bytes []byte) []abstract.Secret {
 
 	var msg SecretList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Secrets
 }
-- 
2.43.0


From 3cf02e1e5f3ff3f469533105f2a881ba952b73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 19/35] fix: go on when a client can not be reached

A client that had exited made the next broadcast panic, which stopped the
coordinator or left the clients after it without the message.
---
 cmd/coordinator/CoordinatorHandler.go  | 23 +++++++++++++++++------
 cmd/coordinator/CoordinatorLauncher.go |  4 ++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 212c661..a91b758 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -92,6 +92,17 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 }
 
 
+// send an event to a client
+// a client that is gone must not keep the others from being served
+func sendToClient(addr *net.TCPAddr, event *proto.Event) {
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Can not reach client:", err)
+		}
+	}()
+	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+}
+
 // Handler for ANNOUNCEMENT event
 // finish announcement and send start message signal to the clients
 func handleAnnouncement(params map[string]interface{}) {
@@ -133,7 +144,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	}
 	event := &proto.Event{EventType:proto.ANNOUNCEMENT_FINALIZE, Params:pm}
 	for _,addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 
 	// distribute g adn table to servers
@@ -264,7 +275,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		"g": util.EncodePoint(anonCoordinator.G),
 	}
 	event = &proto.Event{EventType:proto.INIT_PEDERSEN_R, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	sendToClient(addr, event)
 }
 
 // handle client register successful event
@@ -303,7 +314,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"public_key": bytePublicKey,
 	}
 	event := &proto.Event{EventType:proto.CLIENT_REGISTER_CONFIRMATION, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	sendToClient(addr, event)
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
@@ -320,7 +331,7 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
 	}
 	event := &proto.Event{EventType:proto.GN_HONESTY_ANSWER, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, senderAddr, event)
+	sendToClient(senderAddr, event)
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
@@ -472,7 +483,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			pm["signature"] = byteSig
 			// send
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
-			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
+			sendToClient(requesterIP, event)
 		}
 	}
 }
@@ -726,7 +737,7 @@ func handleRoundEnd(params map[string]interface{}) {
 	}
 	event := &proto.Event{EventType:proto.ROUND_END, Params:pm}
 	for _, addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 	time.Sleep(500 * time.Millisecond)
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 1af8a2d..46496e9 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -206,7 +206,7 @@ func roundEnd() {
 	}
 	event = &proto.Event{EventType:proto.BCAST_PEDERSEN_RDIFF, Params:pm}
 	for _, addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 
 	// clear bridges and the assignments still waiting for signatures
@@ -226,7 +226,7 @@ func vote() {
 	pm := map[string]interface{} {}
 	event := &proto.Event{EventType:proto.VOTE, Params:pm}
 	for _, addr :=  range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 }
 
-- 
2.43.0


From 95e38e7e2984fb430c09c40fe2fe53fa5e628ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 20/35] fix: collect one valid signature per server for an
 assignment

A repeated or wrong reply was counted as one more server's signature, so a
client could be sent an assignment some server had not signed, and its vote
was refused.
---
 cmd/coordinator/Coordinator.go        | 14 +++++++++++---
 cmd/coordinator/CoordinatorHandler.go | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 8e5f40e..b4e22af 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"math/big"
 	"net"
 	"zRep/primitive/fujiokam"
@@ -33,6 +34,7 @@ type BridgeInfo struct {
 }
 
 type AssignmentSignatures struct {
+	Assignment []byte
 	Signatures [][]byte
 	Count int
 }
@@ -164,10 +166,10 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
+func (c *Coordinator) InitAssignmentSignatures(brdgAddr string, byteAssignment []byte) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0}
+	entry := AssignmentSignatures{Assignment: byteAssignment, Signatures: assignmentSigs, Count: 0}
 	anonCoordinator.AssignmentSignaturesLog[brdgAddr] = entry
 }
 
@@ -176,10 +178,16 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := AssignmentSignatures{Assignment: oldEntry.Assignment, Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 }
 
+// whether this assignment still waits for the server's signature
+func (c *Coordinator) WaitsForSignature(brdgAddr string, serverIndex int, byteAssignment []byte) bool {
+	entry, ok := c.AssignmentSignaturesLog[brdgAddr]
+	return ok && bytes.Equal(entry.Assignment, byteAssignment) && entry.Signatures[serverIndex] == nil
+}
+
 func (c *Coordinator) FinishCollectingAssignmentSignatures(brdgAddr string) bool {
 	nServers := len(c.ServerList)
 	return c.AssignmentSignaturesLog[brdgAddr].Count == nServers + 1
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index a91b758..426a287 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -417,7 +417,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(brdgAddr)
+		anonCoordinator.InitAssignmentSignatures(brdgAddr, bridge.EncodeAssignment(&assignment))
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -460,6 +460,17 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		// take one valid signature from each server, for the assignment as it was made
+		byteAssignment := bridge.EncodeAssignment(&assignment)
+		if !anonCoordinator.WaitsForSignature(brdgAddr, serverIndex, byteAssignment) {
+			fmt.Println("[note] Unexpected signature for", brdgAddr)
+			continue
+		}
+		serverPublicKey := anonCoordinator.GetServerPublicKey(serverIndex)
+		if util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, sig, nil) != nil {
+			fmt.Println("[note] Fails to verify server's signature for", brdgAddr)
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
 
-- 
2.43.0


From 97dddc112a45ffce6f7f71dbfee0123921afd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 21/35] fix: answer one challenge per honesty proof

All clients challenged the same commitments, any number of times. The
answers for two different challenge bits differ by alpha, the trapdoor with
which commitments can be opened to any value.
---
 cmd/coordinator/Coordinator.go         |  9 +++++++--
 cmd/coordinator/CoordinatorHandler.go  | 13 +++++++++++--
 cmd/coordinator/CoordinatorLauncher.go |  4 +---
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index b4e22af..c4db5d7 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -18,6 +18,11 @@ type ClientTuple struct {
 	PComm abstract.Point
 }
 
+type GnHonestyProof struct {
+	Secret []*big.Int
+	Public []*big.Int
+}
+
 type PendingServer struct {
 	Params map[string]interface{}
 	Addr *net.TCPAddr
@@ -102,8 +107,8 @@ type Coordinator struct {
 	FujiOkamBase *fujiokam.FujiOkamBase
 	LRSBase *lrs.LRSBase
 
-	AllGnHonestyProofSecret []*big.Int
-	AllGnHonestyProofPublic []*big.Int
+	// secrets of the honesty proofs that clients have not challenged yet
+	AllGnHonestyProofs map[string]GnHonestyProof
 }
 
 // get last server in topology
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 426a287..d707b2d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -300,6 +300,9 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	// two answers for the same proof would reveal alpha1 ~ alpha6
+	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
+	anonCoordinator.AllGnHonestyProofs[addr.String()] = GnHonestyProof{Secret: prfSecret, Public: prfPublic}
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -309,7 +312,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"g5": fujiokamBase.G5.ToBinary(),
 		"g6": fujiokamBase.G6.ToBinary(),
 		"h1": fujiokamBase.H1.ToBinary(),
-		"honesty_prf": util.ProtobufEncodeBigIntList(anonCoordinator.AllGnHonestyProofPublic),
+		"honesty_prf": util.ProtobufEncodeBigIntList(prfPublic),
 		// "h": byteHT,
 		"public_key": bytePublicKey,
 	}
@@ -325,7 +328,13 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
 	base := anonCoordinator.FujiOkamBase
-	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
+	prf, ok := anonCoordinator.AllGnHonestyProofs[senderAddr.String()]
+	if !ok {
+		fmt.Println("[note] No proof to be challenged by", senderAddr)
+		return
+	}
+	delete(anonCoordinator.AllGnHonestyProofs, senderAddr.String())
+	answer := base.AnswerAllGnHonesty(challenge, prf.Secret, prf.Public)
 
 	pm := map[string]interface{}{
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 46496e9..dd41b6d 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -57,7 +57,6 @@ func initCoordinator() {
 	A := suite.Point().Mul(nil, a)
 	pedersenBase := pedersen.CreateMinimalBaseFromSuite(suite)
 	fujiokamBase := fujiokam.CreateBaseFromSuite(suite)
-	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
 
 	anonCoordinator = &Coordinator{
 		LocalAddr: CoordinatorAddr,
@@ -80,8 +79,7 @@ func initCoordinator() {
 		ReputationDiffMap: make(map[string]int),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
-		AllGnHonestyProofSecret: prfSecret,
-		AllGnHonestyProofPublic: prfPublic,
+		AllGnHonestyProofs: make(map[string]GnHonestyProof),
 	}
 }
 
-- 
2.43.0


From 1af57452af3b82a65685827de092d76ebb7a4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 22/35] fix: check that the received table is the one whose
 shuffle is proved

A table without a proof was accepted, and so was a proof about keys that
are not the keys of the table next to it.
---
 cmd/server/AnonServerHandler.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 28cd49a..8a1dc8d 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -70,7 +70,12 @@ func shuffleProofName(publicKey abstract.Point, X, Y, Xbar, Ybar []abstract.Poin
 }
 
 func verifyNeffShuffle(params map[string]interface{}) {
-	if _, shuffled := params["shuffled"]; shuffled {
+	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
+	_, shuffled := params["shuffled"]
+	if !shuffled && len(keyList) > 1 {
+		panic("Shuffle verify failed: no proof")
+	}
+	if shuffled {
 		// get all the necessary parameters
 		xbarList := util.ProtobufDecodePointList(params["xbar"].([]byte))
 		ybarList := util.ProtobufDecodePointList(params["ybar"].([]byte))
@@ -87,7 +92,25 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
+		// the table has to hold the keys that were shuffled
+		if !isPermutation(prevValList, keyList) {
+			panic("Shuffle verify failed: the table is not the shuffled one")
+		}
+	}
+}
+
+func isPermutation(a, b []abstract.Point) bool {
+	count := make(map[string]int)
+	for _, p := range a {
+		count[p.String()]++
+	}
+	for _, p := range b {
+		if count[p.String()] == 0 {
+			return false
+		}
+		count[p.String()]--
 	}
+	return len(a) == len(b)
 }
 
 func handleRoundEnd(params map[string]interface{}) {
-- 
2.43.0


From e4eb02280f2856f73067b8c96df858fac626830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 23/35] fix: reject malformed linkable ring signatures

A surplus challenge let anyone sign for the ring, and y0 plus a multiple of
p, or times -1, let a member sign twice without being linked.
---
 primitive/lrs/LinkableRingSignature.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..45e3b74 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,16 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// a challenge without a member would be free to choose
+	if len(y) != n || len(sig.S) != n || len(sig.C) != n {
+		return false
+	}
+	// y0 has one encoding and lies in the group of h, or one signer would have several
+	half := new(big.Int).Rsh(base.Q, 1)
+	if sig.Y0.Sign() <= 0 || sig.Y0.Cmp(base.P) >= 0 ||
+		new(big.Int).Exp(sig.Y0, half, base.P).Cmp(bigOne) != 0 {
+		return false
+	}
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From 71da0885fc79faa608b727d7592f07ee8ab38573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 24/35] fix: make no commitment before the parameters passed
 the honesty test

A client that saw an announcement before the answer to its challenge used
the coordinator's parameters unchecked, and crashed when it had none.
---
 cmd/client/ClientHandler.go  | 2 ++
 cmd/client/ClientLauncher.go | 4 ++++
 cmd/client/DissentClient.go  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index deef8e6..6aab4c0 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -70,6 +70,7 @@ func handleRegisterConfirmation(params map[string]interface{}, dissentClient *Di
 	base.G6 = base.Point().FromBinary(params["g6"].([]byte))
 	base.H1 = base.Point().FromBinary(params["h1"].([]byte))
 	dissentClient.FujiOkamBase = base
+	dissentClient.IsHonestyChecked = false
 	dissentClient.AllGnHonestyProofPublic = util.ProtobufDecodeBigIntList(params["honesty_prf"].([]byte))
 
 	// Controller's public key
@@ -108,6 +109,7 @@ func handleGnHonestyAnswer(params map[string]interface{}, dissentClient *Dissent
 	if res != 0 {
 		panic("Honesty checking failed")
 	}
+	dissentClient.IsHonestyChecked = true
 	fmt.Println("[debug] Parameters g1~g6 passed honesty test.")
 }
 
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index d6d11aa..be48dd8 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -90,6 +90,10 @@ func postBridge(bridgeAddr string) {
   * request "ind" numbers of bridges from server
   */
 func requestBridges(ind int) {
+	if !dissentClient.IsHonestyChecked {
+		fmt.Println("parameters are not verified yet")
+		return
+	}
 	if ind > dissentClient.Reputation {
 		fmt.Println("indicator should be less or equal than reputation")
 		return
diff --git a/cmd/client/DissentClient.go b/cmd/client/DissentClient.go
index 113dce1..d852260 100644
--- a/cmd/client/DissentClient.go
+++ b/cmd/client/DissentClient.go
@@ -41,6 +41,8 @@ type DissentClient struct {
 	PedersenBase *pedersen.PedersenBase
 	AllGnHonestyProofPublic []*big.Int
 	AllGnHonestyChallenge []bool
+	// g1~g6 passed the honesty test
+	IsHonestyChecked bool
 }
 
 func (dissentClient *DissentClient) ClearBuffer() {
-- 
2.43.0


From e063e3c41f824c01a6710599c135b9b411ecb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 25/35] fix: bind the commitments into the challenge of the
 equality argument

---
 primitive/pedersen_fujiokam/equality.go | 34 ++++++++++++-------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index d96e9a7..ebd2f03 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -32,6 +32,20 @@ func BigIntToSecret(suite abstract.Suite, i *big.Int) abstract.Secret {
 	return s
 }
 
+// challenge returns hash(PComm || FOComm || T1 || T2). It has to depend on the
+// commitments, or they could be chosen to fit the challenge.
+func challenge(suite abstract.Suite, PComm abstract.Point, FOComm *fujiokam.Point,
+	T1 abstract.Point, T2 *fujiokam.Point) *big.Int {
+	hash := suite.Hash()
+	bytePComm, _ := PComm.MarshalBinary()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
+	byteT1, _ := T1.MarshalBinary()
+	hash.Write(byteT1)
+	hash.Write(T2.ToBinary())
+	return new(big.Int).SetBytes(hash.Sum(nil))
+}
+
 func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	x abstract.Secret,
 	PComm abstract.Point, rPComm abstract.Secret,
@@ -45,19 +59,11 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	t3Raw := SecretToBigInt(t3)
 	// T1 := GT^t1 * HT^t2 (mod p)
 	T1 := pedersenBase.CommitWithR(t1, t2)
-	byteT1, _ := T1.MarshalBinary()
 
 	// T2 := g1^t1 * h1^t3 (mod n)
 	T2 := fujiokamBase.CommitWithR(t1Raw, t3Raw)
-	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
-	hash := suite.Hash()
-	hash.Write(byteT1)
-	hash.Write(byteT2)
-	cBuf := hash.Sum(nil)
-	cRaw := new(big.Int)
-	cRaw.SetBytes(cBuf)
+	cRaw := challenge(suite, PComm, FOComm, T1, T2)
 
 	xRaw := SecretToBigInt(x)
 	rPCommRaw := SecretToBigInt(rPComm)
@@ -97,21 +103,13 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	T1 := pedersenBase.CommitWithR(s1, s2)
 	tmp := pedersenBase.Suite.Point().Mul(PComm, negC)
 	T1.Add(T1, tmp)
-	byteT1, _ := T1.MarshalBinary()
 
 	// T2 := g1^s1 * h1^s3 * FOComm^(-c) mod n
 	T2 := fujiokamBase.CommitWithR(arg.S1, arg.S3)
 	tmp2 := fujiokamBase.Point().Exp(FOComm, negCRaw)
 	T2.Mul(T2, tmp2)
-	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
-	hash := pedersenBase.Suite.Hash()
-	hash.Write(byteT1)
-	hash.Write(byteT2)
-	RSideBuf := hash.Sum(nil)
-	RSide := new(big.Int)
-	RSide.SetBytes(RSideBuf)
+	RSide := challenge(pedersenBase.Suite, PComm, FOComm, T1, T2)
 
 	return arg.C.Cmp(RSide) == 0
 }
\ No newline at end of file
-- 
2.43.0


From 1299decdefd956355de5c9d1e3470cfcf9db0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 26/35] fix: leave the state alone when a server's message is
 malformed

---
 cmd/coordinator/CoordinatorHandler.go | 37 +++++++++++++++++----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index d707b2d..569e734 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -103,6 +103,16 @@ func sendToClient(addr *net.TCPAddr, event *proto.Event) {
 	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
 }
 
+// the keys of a table and their commitments
+func decodeTable(params map[string]interface{}) (keyList, valList []abstract.Point) {
+	keyList = util.ProtobufDecodePointList(params["keys"].([]byte))
+	valList = util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(keyList) != len(valList) {
+		panic("Malformed table: each key needs a commitment")
+	}
+	return
+}
+
 // Handler for ANNOUNCEMENT event
 // finish announcement and send start message signal to the clients
 func handleAnnouncement(params map[string]interface{}) {
@@ -113,18 +123,18 @@ func handleAnnouncement(params map[string]interface{}) {
 	// 	anonCoordinator.Status = MESSAGE
 	// 	return
 	// }
+	// decode everything first, a malformed message must not change anything
 	g := util.DecodePoint(anonCoordinator.Suite, params["g"].([]byte))
+	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
+	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
+	keyList, valList := decodeTable(params)
 	anonCoordinator.LRSBase = lrs.CreateBase(util.PointToBigInt(g))
 
 	// update GT & HT
-	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
-	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.PedersenBase.GT = GT
 	anonCoordinator.PedersenBase.HT = HT
 
 	//construct Decrypted reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	anonCoordinator.EndingCommMap = make(map[string]abstract.Point)
 	anonCoordinator.EndingKeyMap = make(map[string]abstract.Point)
 	anonCoordinator.ReputationDiffMap = make(map[string]int)
@@ -179,8 +189,7 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 		return
 	}
 	// fetch server's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	lastServer := anonCoordinator.GetLastServerAddr()
 
@@ -222,8 +231,7 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 }
 
 func handleUpdatePedersenH(params map[string]interface{}) {
-	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
-	util.CheckErr(err)
+	anonCoordinator.PedersenBase.HT = util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
 
 	anonCoordinator.IsUpdatingH = false
 	if len(anonCoordinator.PendingServers) > 0 {
@@ -283,11 +291,12 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	// get public key from params (it's one-time nym actually)
 	var nym = anonCoordinator.Suite.Point()
 	byteNym := params["public_key"].([]byte)
-	nym.UnmarshalBinary(byteNym)
+	err := nym.UnmarshalBinary(byteNym)
+	util.CheckErr(err)
 
 	// get PComm
 	var PComm = anonCoordinator.Suite.Point()
-	err := PComm.UnmarshalBinary(params["pcomm"].([]byte))
+	err = PComm.UnmarshalBinary(params["pcomm"].([]byte))
 	util.CheckErr(err)
 
 	// encode h from Pedersen Commitment base
@@ -722,9 +731,11 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 // Handler for ROUND_END event
 // send user round end notification
 func handleRoundEnd(params map[string]interface{}) {
+	// decode everything first, a malformed message must not change anything
+	keyList, valList := decodeTable(params)
+	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
+	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	// review reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	anonCoordinator.BeginningCommMap = make(map[string]abstract.Point)
 	anonCoordinator.BeginningKeyMap = make(map[string]abstract.Point)
 	for i := 0; i < len(keyList); i++ {
@@ -733,8 +744,6 @@ func handleRoundEnd(params map[string]interface{}) {
 	}
 
 	// update GT & HT
-	GT := util.DecodePoint(anonCoordinator.Suite, params["GT"].([]byte))
-	HT := util.DecodePoint(anonCoordinator.Suite, params["HT"].([]byte))
 	anonCoordinator.PedersenBase.GT = GT
 	anonCoordinator.PedersenBase.HT = HT
 	// note: no need to tell clients yet
-- 
2.43.0


From 95b8d256eb9f4925c9f9d5230c63a145538f8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 27/35] fix: send each certificate to the requester of its own
 assignment

---
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 569e734..52021d6 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -472,10 +472,10 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
 
 	for i,assignment := range assignments {
+		// each certificate goes to the one who requested that assignment
+		requesterIP := anonCoordinator.RequesterAddrs[assignment.NymR.String()]
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
 		// take one valid signature from each server, for the assignment as it was made
-- 
2.43.0


From ccfd2a21745873a7c41b9082fd68234b743a6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 28/35] fix: take tables without a proof only from the
 coordinator

---
 cmd/server/AnonServerHandler.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 8a1dc8d..0358c66 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -31,7 +31,7 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 		handleServerRegisterReply(event.Params, addr)
 		break
 	case proto.ANNOUNCEMENT:
-		handleAnnouncement(event.Params)
+		handleAnnouncement(event.Params, addr)
 		break
 	case proto.ANNOUNCEMENT_FINALIZE:
 		handleAnnouncementFinalize(event.Params)
@@ -46,7 +46,7 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 		handleClientRegisterServerSide(event.Params)
 		break
 	case proto.ROUND_END:
-		handleRoundEnd(event.Params)
+		handleRoundEnd(event.Params, addr)
 		break
 	case proto.BCAST_PEDERSEN_H:
 		handleBroadcastPedersenH(event.Params)
@@ -113,11 +113,16 @@ func isPermutation(a, b []abstract.Point) bool {
 	return len(a) == len(b)
 }
 
-func handleRoundEnd(params map[string]interface{}) {
+// only the coordinator hands over a table that was not shuffled before
+func isFromCoordinator(addr *net.TCPAddr) bool {
+	return addr.String() == anonServer.CoordinatorAddr.String()
+}
+
+func handleRoundEnd(params map[string]interface{}, addr *net.TCPAddr) {
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	size := len(keyList)
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
-	if _, ok := params["is_start"]; ok {
+	if _, ok := params["is_start"]; ok && isFromCoordinator(addr) {
 		// The request is sent by coordinator
 	} else {
 		// verify neff shuffle if needed
@@ -273,7 +278,7 @@ func handleUpdateNextHop(params map[string]interface{}) {
 	anonServer.NextHop = addr
 }
 
-func handleAnnouncement(params map[string]interface{}) {
+func handleAnnouncement(params map[string]interface{}, addr *net.TCPAddr) {
 	var g abstract.Point = nil
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
@@ -296,6 +301,10 @@ func handleAnnouncement(params map[string]interface{}) {
 		// verify the previous shuffle
 		verifyNeffShuffle(params)
 	}else {
+		// the first server starts from the suite's generator
+		if !isFromCoordinator(addr) {
+			panic("Announcement without a generator")
+		}
 		g = anonServer.Suite.Point().Mul(nil, anonServer.Roundkey)
 	}
 
-- 
2.43.0


From 16537444fe3cd9f92b14046eee1769c9adfcb58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 29/35] fix: do not wait for minutes for a node that does not
 answer

---
 util/Util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/Util.go b/util/Util.go
index 45e62c5..6b3c299 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -12,6 +12,7 @@ import (
 	"encoding/gob"
 	"net"
 	"reflect"
+	"time"
 
 	"github.com/dedis/crypto/nist"
 	"go.dedis.ch/protobuf"
@@ -61,7 +62,8 @@ func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
-	conn, err := net.DialTCP("tcp", nil, raddr)
+	// a node that does not answer must not keep the sender for long
+	conn, err := net.DialTimeout("tcp", raddr.String(), 3*time.Second)
 	CheckErr(err)
 	_, err = conn.Write(content)
 	CheckErr(err)
-- 
2.43.0


From 428902eae56ea11090205e812f2870810bc60623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 30/35] fix: a post's nym must be encoded as usual, other
 encodings shift bytes into the signed bridge address

---
 cmd/coordinator/CoordinatorHandler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 52021d6..579041b 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"fmt"
 	// "math/big"
 	"net"
@@ -369,6 +370,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 		return
 	}
 
+	// another encoding of the nym would shift bytes to or from the signed address
+	if !bytes.Equal(byteNym, util.EncodePoint(nym)) {
+		fmt.Println("[note]** The nym is not properly encoded")
+		return
+	}
+
 	// verify the signature
 	byteMsg := bridge.MessageOfPostBridge(params)
 	err = util.ElGamalVerify(anonCoordinator.Suite, byteMsg, nym, byteSig, anonCoordinator.G)
-- 
2.43.0


From e5ed5e333df034bbf28072c1add97a4d8a8ba2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 31/35] fix: the non-negativity argument disclosed its blinding
 values: R and r' were not masked wide enough

---
 primitive/fujiokam/FujiOkamCommitment.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 4d81061..c5de481 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -70,6 +70,14 @@ func (base *FujiOkamBase) genRandomSecret() *big.Int {
 	return s
 }
 
+// genMask returns a random int that hides the product of a random secret and
+// a 256-bit challenge: 2^80 times as wide
+func (base *FujiOkamBase) genMask() *big.Int {
+	const extra = 256 + 80
+	m := random.Int(new(big.Int).Lsh(base.RandomDiameter, extra), random.Stream)
+	return m.Sub(m, new(big.Int).Lsh(base.RandomRadius, extra))
+}
+
 // genGn returns a random gn from <H1>
 func (base *FujiOkamBase) genGn() (*Point, *big.Int) {
 	alpha := base.genRandomSecret()
@@ -433,7 +441,7 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.H1, r)
 	C.Mul(C, tp)
 	// rr := random
-	rr := base.genRandomSecret()
+	rr := base.genMask()
 	// Cr := g2^rx * g3^rx * g3^ra * g4^rb * g5^rd * g6^(-ra^2-rb^2-rd^2) * h^rr (mod n)
 	Cr := base.Point()
 	Cr.Exp(base.G2, rx)
@@ -457,7 +465,8 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	ti.SetInt64(-1)
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
-	commitrx, rrx := base.Commit(rx)
+	rrx := base.genMask()
+	commitrx := base.CommitWithR(rx, rrx)
 	// e = hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
-- 
2.43.0


From ee2d97aacc40cb8057348ea221378efdc3e19123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 32/35] fix: the equality argument disclosed most bits of both
 blinding values

---
 primitive/pedersen_fujiokam/equality.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index ebd2f03..7db537d 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -55,8 +55,8 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	t1Raw := SecretToBigInt(t1)
 	t2 := suite.Secret().Pick(random.Stream)
 	t2Raw := SecretToBigInt(t2)
-	t3 := suite.Secret().Pick(random.Stream)
-	t3Raw := SecretToBigInt(t3)
+	// t3 has to hide rFOComm*c, which is not reduced: 2^80 times as wide
+	t3Raw := random.Int(new(big.Int).Lsh(fujiokamBase.RandomDiameter, 256+80), random.Stream)
 	// T1 := GT^t1 * HT^t2 (mod p)
 	T1 := pedersenBase.CommitWithR(t1, t2)
 
@@ -70,9 +70,10 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	// s1 := x*c + t1
 	s1 := new(big.Int)
 	s1.Mul(xRaw, cRaw).Add(s1, t1Raw)
-	// s2 := rPComm*c + t2
+	// s2 := rPComm*c + t2 (mod q)
 	s2 := new(big.Int)
 	s2.Mul(rPCommRaw, cRaw).Add(s2, t2Raw)
+	s2.Mod(s2, t2.(*nist.Int).M)
 	// s3 := rFOComm*c + t3
 	s3 := new(big.Int)
 	s3.Mul(rFOComm, cRaw).Add(s3, t3Raw)
-- 
2.43.0


From 29a7b9b6cad974d003359c981b2172a182205f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:10 +0000
Subject: [PATCH 33/35] fix: the honesty answers disclosed the upper bits of
 the secret exponents

---
 primitive/fujiokam/FujiOkamCommitment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index c5de481..55eaaca 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -203,7 +203,8 @@ func (base *FujiOkamBase) GenerateGnHonestyProof(secrets []*big.Int, publics []*
 		panic("length check failed")
 	}
 	for i, _ := range secrets {
-		gammar := base.sampleZpq()
+		// gammar + alpha hides alpha: gammar is 2^80 times as wide
+		gammar := random.Int(new(big.Int).Lsh(base.RandomDiameter, 80), random.Stream)
 		a := base.Point().Exp(base.H1, gammar)
 		secrets[i] = gammar
 		publics[i] = a
-- 
2.43.0


From 5d255af729e71784e4874ddfcbca845ed3e6afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:17 +0000
Subject: [PATCH 34/35] fix: a client that does not read no longer keeps the
 coordinator from serving the others

---
 cmd/coordinator/CoordinatorHandler.go |  4 ++--
 util/Util.go                          | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 579041b..1c42a48 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -94,14 +94,14 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 
 
 // send an event to a client
-// a client that is gone must not keep the others from being served
+// a client that is gone or does not read must not keep the others from being served
 func sendToClient(addr *net.TCPAddr, event *proto.Event) {
 	defer func() {
 		if err := recover(); err != nil {
 			fmt.Println("[note]** Can not reach client:", err)
 		}
 	}()
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	util.SendEventWithin(anonCoordinator.LocalAddr, addr, event, 10*time.Second)
 }
 
 // the keys of a table and their commitments
diff --git a/util/Util.go b/util/Util.go
index 6b3c299..d7c60c9 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -59,15 +59,23 @@ func Encode(event interface{}) []byte {
 }
 
 func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
+	SendEventWithin(laddr, raddr, event, 0)
+}
+
+// SendEventWithin gives up on a node that does not take the event in time
+func SendEventWithin(laddr, raddr *net.TCPAddr, event *proto.Event, limit time.Duration) {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
 	// a node that does not answer must not keep the sender for long
 	conn, err := net.DialTimeout("tcp", raddr.String(), 3*time.Second)
 	CheckErr(err)
+	defer conn.Close()
+	if limit > 0 {
+		conn.SetWriteDeadline(time.Now().Add(limit))
+	}
 	_, err = conn.Write(content)
 	CheckErr(err)
-	conn.Close()
 }
 
 func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
-- 
2.43.0


From 35993e33e8a231e34e6edafb8646dfa661c96edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:28 +0000
Subject: [PATCH 35/35] fix: proofs with numbers of many megabytes no longer
 keep the verifier busy for minutes

VerifyNonneg and VerifyEqual raised to whatever a request held.
---
 primitive/fujiokam/FujiOkamCommitment.go | 7 +++++++
 primitive/pedersen_fujiokam/equality.go  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 55eaaca..995549d 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -507,6 +507,13 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
+	// Honest numbers are little longer than the radius. Raising to one of many megabytes
+	// takes minutes, during which the verifier would serve nobody.
+	for _, v := range []*big.Int{R, x_, a_, b_, d_, r_} {
+		if v.BitLen() > 8*base.RandomDiameter.BitLen() {
+			return false
+		}
+	}
 	// e := hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index 7db537d..d30c3ff 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -94,6 +94,10 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	if arg.S1.Sign() < 0 || arg.S1.BitLen() > 8*pedersenBase.Suite.SecretLen() {
 		return false
 	}
+	// the challenge is a hash, and an honest s3 is little longer than the radius
+	if arg.C.BitLen() > 8*pedersenBase.Suite.Hash().Size() || arg.S3.BitLen() > 8*fujiokamBase.RandomDiameter.BitLen() {
+		return false
+	}
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
-- 
2.43.0

