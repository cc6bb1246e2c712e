From c2c3dd17899b34357be357bd4b4126f7f8c77e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 01/30] fix: treat empty commitments and evals restored from
 gob as missing

gob decodes nil *Gammas/*big.Int slice elements as empty values. A PureDKG
restored from disk hence took every missing commitment and poly eval for
present: it rejected all further dealing messages as duplicates and used the
bogus values when computing accusations and results.
---
 shlib/puredkg/puredkg.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/shlib/puredkg/puredkg.go b/shlib/puredkg/puredkg.go
index e080078..9276712 100644
--- a/shlib/puredkg/puredkg.go
+++ b/shlib/puredkg/puredkg.go
@@ -130,6 +130,28 @@ func (pure *PureDKG) checkEonAndPhase(eon uint64, maxPhase Phase) error {
 	return nil
 }
 
+// commitment returns the commitment received from the given dealer or nil if there's none. Missing
+// commitments are nil at first, but gob turns them into empty gammas when the object is restored.
+func (pure *PureDKG) commitment(dealer KeyperIndex) *shcrypto.Gammas {
+	c := pure.Commitments[dealer]
+	if c == nil || len(*c) == 0 {
+		return nil
+	}
+	return c
+}
+
+// eval returns the poly eval received from the given dealer or nil if there's none. Missing evals
+// are nil at first, but gob turns them into zeros when the object is restored. A dealer that
+// really sent us a zero is treated as if they hadn't sent anything, i.e. they'll be asked to
+// apologize.
+func (pure *PureDKG) eval(dealer KeyperIndex) *big.Int {
+	e := pure.Evals[dealer]
+	if e == nil || e.Sign() == 0 {
+		return nil
+	}
+	return e
+}
+
 func (pure *PureDKG) StartPhase1Dealing() (PolyCommitmentMsg, []PolyEvalMsg, error) {
 	pure.setPhase(Dealing)
 	degree := shcrypto.DegreeFromThreshold(pure.Threshold)
@@ -177,8 +199,8 @@ func (pure *PureDKG) StartPhase2Accusing() []AccusationMsg {
 		if dealer == pure.Keyper {
 			continue
 		}
-		eval := pure.Evals[dealer]
-		c := pure.Commitments[dealer]
+		eval := pure.eval(dealer)
+		c := pure.commitment(dealer)
 		if eval == nil || c == nil || !shcrypto.VerifyPolyEval(int(pure.Keyper), eval, c, pure.Threshold) {
 			accusations = append(accusations, AccusationMsg{
 				Eon:     pure.Eon,
@@ -217,10 +239,10 @@ func (pure *PureDKG) ShortInfo() string {
 	numApologies = len(pure.Apologies)
 
 	for dealer := uint64(0); dealer < pure.NumKeypers; dealer++ {
-		c := pure.Commitments[dealer]
+		c := pure.commitment(dealer)
 		eval := pure.polyEval(dealer)
 
-		if c != nil && len(*c) != 0 {
+		if c != nil {
 			numCommitments++
 		}
 
@@ -256,7 +278,7 @@ func (pure *PureDKG) ComputeResult() (Result, error) {
 
 		if !pure.isCorrupt(dealer) {
 			numParticipants++
-			c = pure.Commitments[dealer]
+			c = pure.commitment(dealer)
 			eval = pure.polyEval(dealer)
 
 			if eval == nil || !shcrypto.VerifyPolyEval(int(pure.Keyper), eval, c, pure.Threshold) {
@@ -299,7 +321,7 @@ func (pure *PureDKG) ComputeResult() (Result, error) {
 // new messages are received.
 func (pure *PureDKG) isCorrupt(dealer KeyperIndex) bool {
 	// a keyper is corrupt if they haven't sent a commitment
-	c := pure.Commitments[dealer]
+	c := pure.commitment(dealer)
 	if c == nil {
 		return true
 	}
@@ -337,7 +359,7 @@ func (pure *PureDKG) polyEval(dealer KeyperIndex) *big.Int {
 			return polyEval
 		}
 	}
-	return pure.Evals[dealer]
+	return pure.eval(dealer)
 }
 
 // HandlePolyCommitmentMsg handles a PolyCommitmentMsg.
@@ -345,7 +367,7 @@ func (pure *PureDKG) HandlePolyCommitmentMsg(msg PolyCommitmentMsg) error {
 	if err := pure.checkEonAndPhase(msg.Eon, Dealing); err != nil {
 		return err
 	}
-	if pure.Commitments[msg.Sender] != nil {
+	if pure.commitment(msg.Sender) != nil {
 		return errors.Errorf("received duplicate poly commitment msg")
 	}
 	if msg.Gammas.Degree() != shcrypto.DegreeFromThreshold(pure.Threshold) {
@@ -368,7 +390,7 @@ func (pure *PureDKG) HandlePolyEvalMsg(msg PolyEvalMsg) error {
 	if msg.Receiver != pure.Keyper {
 		return errors.Errorf("received poly eval msg for keyper %d instead of %d", msg.Receiver, pure.Keyper)
 	}
-	if pure.Evals[msg.Sender] != nil {
+	if pure.eval(msg.Sender) != nil {
 		return errors.Errorf("received duplicate poly eval msg")
 	}
 	if !shcrypto.ValidEval(msg.Eval) {
-- 
2.43.0


From dacd7ed9b30603b43154b51f19d38415f60a04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 02/30] fix: reject malformed curve points when decoding keys
 and messages

blst's Uncompress signals failure with a nil return value and leaves the
receiver alone, so the nil checks on the receiver never fired: arbitrary bytes
were accepted as (infinity) points. Gammas.GobDecode also panicked on a
truncated input and appended to the gammas already present.
---
 shlib/shcrypto/encoding.go | 18 ++++++------------
 shlib/shcrypto/feldman.go  |  7 +++++--
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..1972758 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -51,8 +51,7 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 	if m.C1 == nil {
 		m.C1 = new(blst.P2Affine)
 	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
+	if m.C1.Uncompress(d[1:1+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 		return errors.New("failed to deserialize C1")
 	}
 	if !m.C1.InG2() {
@@ -93,8 +92,7 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key share")
 	}
 	if !p.InG2() {
@@ -111,8 +109,7 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key")
 	}
 	if !p.InG2() {
@@ -143,8 +140,7 @@ func (epochID *EpochID) Marshal() []byte {
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch id")
 	}
 	if !p.InG1() {
@@ -162,8 +158,7 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key share")
 	}
 	if !p.InG1() {
@@ -180,8 +175,7 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key")
 	}
 	if !p.InG1() {
diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..5f4ae3f 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -171,10 +171,13 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
+	if len(data)%blst.BLST_P2_COMPRESS_BYTES != 0 {
+		return errors.New("invalid length of gammas")
+	}
+	*g = nil
 	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
 		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
+		if p.Uncompress(data[i:i+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 			return errors.New("failed to deserialize gammas")
 		}
 		if !p.InG2() {
-- 
2.43.0


From 7507b681c088df01ed00e41c7b28fa1b45551305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 03/30] fix: reject blocks of the wrong length in
 Block.UnmarshalText

---
 shlib/shcrypto/encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 1972758..9753bc7 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -206,8 +206,14 @@ func (block Block) MarshalText() ([]byte, error) { //nolint:unparam
 // UnmarshalText deserializes the block from hex.
 func (block *Block) UnmarshalText(b []byte) error {
 	decoded, err := hexutil.Decode(string(b))
+	if err != nil {
+		return err
+	}
+	if len(decoded) != BlockSize {
+		return fmt.Errorf("invalid length %d of block", len(decoded))
+	}
 	copy(block[:], decoded)
-	return err
+	return nil
 }
 
 // MarshalText serializes the encrypted message to hex.
-- 
2.43.0


From 94d9ab2542c2d38d3fd14fba2d346eb181c294e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/30] fix: don't write to the caller's memory when padding a
 message

---
 shlib/shcrypto/encryption.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..7ef38ac 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,8 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	// don't append to m directly, this could overwrite memory owned by the caller
+	m = append(append(make([]byte, 0, len(m)+paddingLength), m...), padding...)
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From 508b945001a800676047d5e0873a334da2ed27d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 05/30] fix: reject thresholds that overflow int

Converting a threshold of 2^63 or more to int gives a negative number, so that
such a config was considered valid and a single vote was enough afterwards.
---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From 927cff5bdbf6852023fd1dcf389f155db89cbe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 06/30] fix: don't count votes to start a config for the next
 one

Votes for starting the last config were kept when another config was added and
started that one without any keyper having asked for it.
---
 shuttermint/app/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..10e7e60 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,8 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	// The votes we've seen so far are about starting the previous config.
+	app.StartedVotes = make(map[common.Address]struct{})
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From 5a9fd649372c5c63a89b00d2e5566603b885992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 07/30] fix: check decryption signatures against the batch's
 current config

The first signature for a batch froze its config. If a keyper signs for a batch
and a new config is added that contains the batch, the keypers responsible for it
couldn't send their signatures anymore.
---
 shuttermint/app/app.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 10e7e60..32c4f09 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -173,8 +173,9 @@ func (app *ShutterApp) getBatchState(batchIndex uint64) BatchState {
 	bs, ok := app.BatchStates[batchIndex]
 	if !ok {
 		bs.BatchIndex = batchIndex
-		bs.Config = app.getConfig(batchIndex)
 	}
+	// A new config may have been added since the last signature for this batch
+	bs.Config = app.getConfig(batchIndex)
 
 	return bs
 }
-- 
2.43.0


From a6d52cfde1928d3a0348475562141f7a0c3004d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 08/30] fix: decode empty gammas

The app accepts and publishes a poly commitment without gammas, but the event
couldn't be decoded.
---
 shuttermint/keyper/shutterevents/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/marshal.go b/shuttermint/keyper/shutterevents/marshal.go
index d75cf47..0134210 100644
--- a/shuttermint/keyper/shutterevents/marshal.go
+++ b/shuttermint/keyper/shutterevents/marshal.go
@@ -134,8 +134,11 @@ func encodeGammas(gammas *shcrypto.Gammas) []byte {
 }
 
 func decodeGammas(eventValue []byte) (shcrypto.Gammas, error) {
-	parts := strings.Split(string(eventValue), ",")
 	var res shcrypto.Gammas
+	if len(eventValue) == 0 {
+		return res, nil
+	}
+	parts := strings.Split(string(eventValue), ",")
 	for _, p := range parts {
 		marshaledG2, err := hex.DecodeString(p)
 		if err != nil {
-- 
2.43.0


From af89d43fc9e58be7bd0634c72ba95f33b855f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 09/30] fix: keep new epoch secret key shares when filtering
 eons

---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..ad3ede6 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From 5d9b472719ba6388f122255b694da0996117baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 10/30] fix: don't store empty receipts of skipped half steps

---
 shuttermint/keyper/observe/mainchain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..93cdc19 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,7 +223,10 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
-		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
+		if !receipt.Executed {
+			continue // the half step was skipped
+		}
+		mainchain.CipherExecutionReceipts[halfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
 	return nil
-- 
2.43.0


From e594abcce75edb2074d57cc6c67aa8203ee8e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 11/30] fix: don't go back when the main chain's head does

---
 shuttermint/keyper/observe/mainchain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 93cdc19..4b6c117 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -347,6 +347,12 @@ func (mainchain *MainChain) SyncToHead(
 		syncUntilBlockNumber = 0
 	}
 
+	if syncUntilBlockNumber < mainchain.CurrentBlock {
+		// The node's head is behind the one we've seen, wait until it catches up. Otherwise we
+		// would apply the events of the blocks in between twice.
+		return mainchain, nil
+	}
+
 	mainchain = mainchain.Clone()
 
 	opts := &bind.CallOpts{
-- 
2.43.0


From d43f25e676ff670b2454e3cec2632a632d26963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 12/30] fix: notice when main chain configs are unscheduled

---
 shuttermint/keyper/observe/mainchain.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 4b6c117..a49bce1 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -153,6 +153,13 @@ func (mainchain *MainChain) syncConfigs(cc *contract.Caller, opts *bind.CallOpts
 	if err != nil {
 		return errors.Wrap(err, "failed to get number of configs from contract")
 	}
+	// Configs can be unscheduled and replaced as long as they haven't started yet, so fetch those
+	// again.
+	numStarted := len(mainchain.BatchConfigs)
+	for numStarted > 0 && mainchain.BatchConfigs[numStarted-1].StartBlockNumber > mainchain.CurrentBlock {
+		numStarted--
+	}
+	mainchain.BatchConfigs = mainchain.BatchConfigs[:numStarted]
 	for configIndex := uint64(len(mainchain.BatchConfigs)); configIndex < numConfigs; configIndex++ {
 		config, err := cc.ConfigContract.GetConfigByIndex(opts, configIndex)
 		if err != nil {
-- 
2.43.0


From 31cc726bfc60a620cc9bb791e00052335ebfc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 13/30] fix: treat missing commitments and evals as missing
 after a restart

The keyper stores the key generations it takes part in with gob, which turns nil
commitments and poly evals into empty ones. After a restart in the middle of the
dealing phase, the keyper rejected the other keypers' commitments and evals as
duplicates, accused honest keypers and could end up with a wrong public key.
---
 shuttermint/keyper/decide.go | 18 ++++++++++++++++++
 shuttermint/keyper/keyper.go |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3b2e1df..c1ec35e 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -87,6 +87,24 @@ func (dkg *DKG) IsFinalized() bool {
 	return dkg.Pure == nil || dkg.Pure.Phase == puredkg.Finalized
 }
 
+// clearMissing resets the missing commitments and poly evals to nil. gob turns them into empty gammas
+// and zeros, which would be mistaken for values that have been received.
+func (dkg *DKG) clearMissing() {
+	if dkg.Pure == nil {
+		return
+	}
+	for i, c := range dkg.Pure.Commitments {
+		if c != nil && len(*c) == 0 {
+			dkg.Pure.Commitments[i] = nil
+		}
+	}
+	for i, eval := range dkg.Pure.Evals {
+		if eval != nil && eval.Sign() == 0 {
+			dkg.Pure.Evals[i] = nil
+		}
+	}
+}
+
 // newApology create a new shmsg apology message from the given puredkg apologies.
 func (dkg *DKG) newApology(apologies []puredkg.ApologyMsg) *shmsg.Message {
 	var accusers []common.Address
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..dc4dc93 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -329,6 +329,9 @@ func (kpr *Keyper) LoadState() error {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
+	for i := range st.State.DKGs {
+		st.State.DKGs[i].clearMissing()
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
-- 
2.43.0


From c99aeee1cd240a4dae72ffea598b57f619529b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 14/30] fix: don't accept decryption signatures the contract
 refuses

The KeyperSlasher contract (OpenZeppelin's ECDSA) refuses signatures with s in
the upper half of the range. A single keyper sending such a signature could make
the appeals of honest executors fail, and thereby get them slashed.
---
 shuttermint/keyper/decide.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index c1ec35e..9b6349f 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -44,8 +44,18 @@ type Batch struct {
 	IsEmpty                  bool
 }
 
-// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
+// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash. As the
+// signatures may be sent to the KeyperSlasher contract, we only accept those in canonical form,
+// i.e. with s in the lower half of the range.
 func (batch *Batch) VerifySignature(sender common.Address, signature []byte) bool {
+	if len(signature) != crypto.SignatureLength {
+		return false
+	}
+	r := new(big.Int).SetBytes(signature[:32])
+	s := new(big.Int).SetBytes(signature[32:64])
+	if !crypto.ValidateSignatureValues(signature[crypto.RecoveryIDOffset], r, s, true) {
+		return false
+	}
 	pubkey, err := crypto.SigToPub(batch.DecryptionSignatureHash, signature)
 	if err != nil {
 		return false
-- 
2.43.0


From 559a07ffee15c00b5b474b41d938406384e21d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 15/30] fix: don't divide by zero if a config has no keypers

executionDelay is called to find out when to skip a cipher batch. The config
contract allows active configs without keypers, which crashed every keyper.
---
 shuttermint/keyper/decide.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 9b6349f..2f81f8f 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1192,6 +1192,10 @@ func (dcdr *Decider) syncPendingAppeals() {
 // executionDelay returns the number of main chain blocks to wait before sending an execution tx.
 // This makes sure not all keypers try to send the same tx at the same time.
 func (dcdr *Decider) executionDelay(config contract.BatchConfig, halfStep uint64) uint64 {
+	if len(config.Keypers) == 0 {
+		return 0
+	}
+
 	// do not delay the execution for more than 50% of the execution timeout
 	var maxStaggering, staggering, divisor uint64
 	divisor = uint64(len(config.Keypers) - 1)
-- 
2.43.0


From 303d4e9d8acca8ce8cb0b2c74db2c03f83d016b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 16/30] fix: don't accuse executors of batches we're not a
 keyper of

The contract refuses accusations by others than the batch's keypers, so the
transaction, sent with the index of keyper 0, fails.
---
 shuttermint/keyper/decide.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 2f81f8f..d16dc46 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1163,7 +1163,10 @@ func (dcdr *Decider) maybeAccuse() {
 				continue
 			}
 
-			keyperIndex, _ := config.KeyperIndex(dcdr.Config.Address())
+			keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
+			if !ok {
+				continue // only the batch's keypers can accuse
+			}
 			action := fx.Accuse{
 				HalfStep:    halfStep,
 				KeyperIndex: keyperIndex,
-- 
2.43.0


From 423f49a7cf89d846b4276d4e6defd2ab4ceb5fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 17/30] fix: check executions of batches that are decrypted
 later

maybeAccuse skipped half steps for which the batch had not been decrypted yet
and never returned to them. A malicious keyper could execute anything right
after the end of a batch, before its key is generated, without being accused.
---
 shuttermint/keyper/decide.go | 85 +++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index d16dc46..5089b61 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -769,7 +769,14 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 		VerifiedSignatures:      nil,
 		IsEmpty:                 batch.EncryptedBatchHash == common.Hash{},
 	}
+	_, alreadyDecrypted := dcdr.State.Batches[batchIndex]
 	dcdr.State.Batches[batchIndex] = stBatch
+
+	halfStep := 2 * batchIndex
+	if !alreadyDecrypted && halfStep < dcdr.State.HalfStepsChecked {
+		// The batch was executed before we were able to check it.
+		dcdr.maybeAccuseHalfStep(halfStep)
+	}
 }
 
 func (dcdr *Decider) sendDecryptionSignature(epoch uint64) {
@@ -1132,50 +1139,58 @@ func (dcdr *Decider) maybeAppeal() {
 
 func (dcdr *Decider) maybeAccuse() {
 	for halfStep := dcdr.State.HalfStepsChecked; halfStep < dcdr.MainChain.NumExecutionHalfSteps; halfStep++ {
-		if halfStep%2 != 0 {
-			continue // only accuse for cipher execution half steps, not plain ones
-		}
+		dcdr.maybeAccuseHalfStep(halfStep)
+	}
 
-		batchIndex := halfStep / 2
+	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
+}
 
-		receipt := dcdr.MainChain.CipherExecutionReceipts[halfStep]
-		if receipt == nil {
-			// half step was skipped
-			continue
-		}
+// maybeAccuseHalfStep accuses the executor of the given half step if what they executed does not
+// match what we've decrypted.
+func (dcdr *Decider) maybeAccuseHalfStep(halfStep uint64) {
+	if halfStep%2 != 0 {
+		return // only accuse for cipher execution half steps, not plain ones
+	}
 
-		stBatch, ok := dcdr.State.Batches[batchIndex]
-		if !ok {
-			continue
-		}
+	batchIndex := halfStep / 2
 
-		if !bytes.Equal(stBatch.DecryptedBatchHash, receipt.BatchHash[:]) {
-			// what was decrypted does not match what we've decrypted
+	receipt := dcdr.MainChain.CipherExecutionReceipts[halfStep]
+	if receipt == nil {
+		// half step was skipped
+		return
+	}
 
-			if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
-				log.Printf("Not accusing executor for batch %d because accusation already present", batchIndex)
-				continue
-			}
+	stBatch, ok := dcdr.State.Batches[batchIndex]
+	if !ok {
+		// Not decrypted yet, decryptTransactions gets back to this half step.
+		return
+	}
 
-			config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
-			if !ok {
-				log.Printf("Error: cannot accuse executor of batch %d because config is missing", batchIndex)
-				continue
-			}
+	if bytes.Equal(stBatch.DecryptedBatchHash, receipt.BatchHash[:]) {
+		return
+	}
 
-			keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
-			if !ok {
-				continue // only the batch's keypers can accuse
-			}
-			action := fx.Accuse{
-				HalfStep:    halfStep,
-				KeyperIndex: keyperIndex,
-			}
-			dcdr.addAction(&action)
-		}
+	// what was executed does not match what we've decrypted
+	if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
+		log.Printf("Not accusing executor for batch %d because accusation already present", batchIndex)
+		return
 	}
 
-	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
+	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+	if !ok {
+		log.Printf("Error: cannot accuse executor of batch %d because config is missing", batchIndex)
+		return
+	}
+
+	keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
+	if !ok {
+		return // only the batch's keypers can accuse
+	}
+	action := fx.Accuse{
+		HalfStep:    halfStep,
+		KeyperIndex: keyperIndex,
+	}
+	dcdr.addAction(&action)
 }
 
 // syncPendingAppeals removes any pending appeals that have been successfully handled by the main
-- 
2.43.0


From b68c0ad1da7ff63ae53a86f45746fcd15cdea77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 18/30] fix: don't decrypt batches before they are over in our
 view

A keyper whose main chain node lags behind the other keypers' decrypted a batch
as soon as the epoch secret key was known, i.e. only those transactions it had
seen so far. It then signed the wrong result, executed the batch wrongly if it
had seen none of the transactions, and accused honest executors. (A signature for
a batch whose config it didn't know yet made it panic.)
---
 shuttermint/keyper/decide.go | 57 +++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 5089b61..a648d4b 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -89,6 +89,13 @@ type EKG struct {
 	EpochKG *epochkg.EpochKG
 }
 
+// UndecryptedBatch identifies a batch to be decrypted with the epoch secret key generated in the
+// given eon.
+type UndecryptedBatch struct {
+	Eon        uint64
+	BatchIndex uint64
+}
+
 func (dkg *DKG) ShortInfo() string {
 	return fmt.Sprintf("eon=%d, #keypers=%d, %s", dkg.Eon, len(dkg.Keypers), dkg.Pure.ShortInfo())
 }
@@ -284,6 +291,10 @@ type State struct {
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
 
+	// UndecryptedBatches holds the batches that haven't been decrypted yet, although their epoch
+	// secret key is known.
+	UndecryptedBatches []UndecryptedBatch
+
 	// We store the actions that should be executed together with a counter. When starting the
 	// program, we feed these actions into runenv, which can use the counter to identify the
 	// actions.
@@ -687,14 +698,46 @@ func (dcdr *Decider) syncEKGWithEon(syncHeight int64, ekg *EKG, eon *observe.Eon
 			log.Printf("Error while handling epoch secret key share: %+v", err)
 			continue
 		}
-		if key, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
+		if _, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
 			log.Printf("Epoch secret key generated for epoch %d", share.Epoch)
-			dcdr.decryptTransactions(key, share.Epoch)
-			if !dcdr.executionTimeoutReachedOrInactive(share.Epoch) {
-				dcdr.sendDecryptionSignature(share.Epoch)
-			}
+			dcdr.State.UndecryptedBatches = append(
+				dcdr.State.UndecryptedBatches,
+				UndecryptedBatch{Eon: ekg.Eon, BatchIndex: share.Epoch},
+			)
+		}
+	}
+}
+
+// isBatchOver returns true if no transactions can be added to the given batch anymore, according to
+// the main chain as we currently see it.
+func (dcdr *Decider) isBatchOver(batchIndex uint64) bool {
+	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+	if !ok {
+		return false
+	}
+	return dcdr.MainChain.CurrentBlock >= config.BatchEndBlock(batchIndex)
+}
+
+// decryptBatches decrypts the batches for which we have the epoch secret key and signs the result.
+// Batches that aren't over yet on the main chain as we see it are left for later: the keypers who
+// released their shares may be ahead of us.
+func (dcdr *Decider) decryptBatches() {
+	var remaining []UndecryptedBatch
+	for _, b := range dcdr.State.UndecryptedBatches {
+		if !dcdr.isBatchOver(b.BatchIndex) {
+			remaining = append(remaining, b)
+			continue
+		}
+		ekg, err := dcdr.State.FindEKGByEon(b.Eon)
+		if err != nil {
+			panic(err)
+		}
+		dcdr.decryptTransactions(ekg.EpochKG.SecretKeys[b.BatchIndex], b.BatchIndex)
+		if !dcdr.executionTimeoutReachedOrInactive(b.BatchIndex) {
+			dcdr.sendDecryptionSignature(b.BatchIndex)
 		}
 	}
+	dcdr.State.UndecryptedBatches = remaining
 }
 
 // Add a prefix to avoid accidentally signing data with special meaning in different context, in
@@ -752,8 +795,7 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 	batchIndex := epoch
 	batch, ok := dcdr.MainChain.Batches[batchIndex]
 	if !ok {
-		// We may run into this case if our main chain node is lagging behind or if the
-		// batch is empty. XXX The former case is not being handled here.
+		// The batch is over, so it must be empty.
 		log.Printf("Batch missing for batch index=%d", batchIndex)
 		batch = &observe.Batch{BatchIndex: batchIndex}
 	}
@@ -854,6 +896,7 @@ func (dcdr *Decider) executionTimeoutReachedOrInactive(batchIndex uint64) bool {
 
 func (dcdr *Decider) handleEpochKG() {
 	dcdr.syncEKGs()
+	dcdr.decryptBatches()
 	dcdr.publishEpochSecretKeyShares()
 }
 
-- 
2.43.0


From 79898f1025f8d73ba3657c27f42931dc65f9f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 19/30] fix: report messages refused by CheckTx as refused

---
 shuttermint/keyper/fx/messagesender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..3234eef 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,11 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		return &RemoteError{
+			msg: res.CheckTx.Log,
+		}
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From bcee9d4b91bb7cd39ca23b0dc89edd8d27d2f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 20/30] fix: don't crash or hang when a main chain transaction
 can't be sent

---
 shuttermint/contract/caller.go  |  8 ++++----
 shuttermint/keyper/fx/runenv.go | 14 +++++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/shuttermint/contract/caller.go b/shuttermint/contract/caller.go
index 3800ff0..5857970 100644
--- a/shuttermint/contract/caller.go
+++ b/shuttermint/contract/caller.go
@@ -56,8 +56,8 @@ func (cc *Caller) Address() common.Address {
 }
 
 // Auth returns a new transactor with initialized key, nonce, and gas price.
-func (cc *Caller) Auth() (*bind.TransactOpts, error) {
-	chainID, err := cc.Ethclient.ChainID(context.Background())
+func (cc *Caller) Auth(ctx context.Context) (*bind.TransactOpts, error) {
+	chainID, err := cc.Ethclient.ChainID(ctx)
 	if err != nil {
 		return nil, err
 	}
@@ -67,13 +67,13 @@ func (cc *Caller) Auth() (*bind.TransactOpts, error) {
 		return nil, err
 	}
 
-	nonce, err := cc.Ethclient.PendingNonceAt(context.Background(), cc.Address())
+	nonce, err := cc.Ethclient.PendingNonceAt(ctx, cc.Address())
 	if err != nil {
 		return nil, err
 	}
 	auth.Nonce = big.NewInt(int64(nonce))
 
-	gasPrice, err := cc.Ethclient.SuggestGasPrice(context.Background())
+	gasPrice, err := cc.Ethclient.SuggestGasPrice(ctx)
 	if err != nil {
 		return nil, err
 	}
diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..1a845d6 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -65,19 +65,23 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var tx *types.Transaction
 	var auth *bind.TransactOpts
 
-	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
+	auth, err = runenv.ContractCaller.Auth(ctx)
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
+
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
 	}
 	runenv.PendingActions.SetMainChainTXHash(id, tx.Hash())
-	runenv.inFlightMainChainTXs <- id
-	return nil
+	select {
+	case runenv.inFlightMainChainTXs <- id:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
 
 var zerohash = common.Hash{}
-- 
2.43.0


From c8102b92507c4a0a8f2117ef13c4f40cd5665d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 21/30] fix: keep track of main chain transactions in flight
 until they're mined

---
 shuttermint/keyper/fx/runenv.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 1a845d6..3626799 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -86,19 +86,26 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 
 var zerohash = common.Hash{}
 
-func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
+// waitMined waits for the transaction of the given action to be mined. It only returns with an error
+// if the context is done before that.
+func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) error {
 	act := runenv.PendingActions.GetAction(id)
 	hash := runenv.PendingActions.GetMainChainTXHash(id)
 	if hash == zerohash {
 		log.Fatalf("internal error: cannot wait for the zero hash, id=%d", id)
 	}
-	receipt, err := medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
-	if err == context.Canceled {
-		return
-	}
-	if err != nil {
+	var receipt *types.Receipt
+	for {
+		var err error
+		receipt, err = medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
+		if err == nil {
+			break
+		}
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
 		log.Printf("Error waiting for transaction id=%d, %s: %v", id, hash.Hex(), err)
-		return
+		medley.Sleep(ctx, time.Second)
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
 		world := runenv.CurrentWorld() // XXX we should make sure our world includes the receipt's blocknumber
@@ -107,7 +114,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 		tx, _, err := runenv.ContractCaller.Ethclient.TransactionByHash(ctx, hash)
 		if err != nil {
 			log.Printf("TX reverted: id=%d, gasUsed=%d, expired=%t, %s, hash=%s", id, receipt.GasUsed, expired, act, hash.Hex())
-			return
+			return nil
 		}
 
 		reason := medley.GetRevertReason(ctx, runenv.ContractCaller.Ethclient, runenv.ContractCaller.Address(), tx, receipt.BlockNumber)
@@ -115,6 +122,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 	} else {
 		log.Printf("TX success: id=%d, gasUsed=%d, %s, hash=%s", id, receipt.GasUsed, act, hash.Hex())
 	}
+	return nil
 }
 
 func (runenv *RunEnv) RunActions(ctx context.Context, actionCounter uint64, actions []IAction) error {
@@ -241,7 +249,9 @@ func (runenv *RunEnv) handleInFlightTXs(ctx context.Context) {
 	for {
 		select {
 		case id := <-runenv.inFlightMainChainTXs:
-			runenv.waitMined(ctx, id)
+			if err := runenv.waitMined(ctx, id); err != nil {
+				return
+			}
 			runenv.PendingActions.RemoveAction(id)
 		case <-ctx.Done():
 			return
-- 
2.43.0


From c2334b4a07260e879b27a7a2f538fe4b38e160a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 22/30] fix: don't forget that half step 0 is pending when
 saving the state

gob doesn't store pointers to zero values, so PendingHalfStep was lost if it was 0 and a keyper that
restarted sent the transaction again.
---
 shuttermint/keyper/keyper.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index dc4dc93..10ed100 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -296,6 +296,9 @@ type storedState struct {
 	State     *State
 	Shutter   *observe.Shutter
 	MainChain *observe.MainChain
+
+	// HalfStepPending tells if there's a pending half step: gob doesn't keep pointers to zero.
+	HalfStepPending bool
 }
 
 func (kpr *Keyper) pathStateGob() string {
@@ -332,6 +335,9 @@ func (kpr *Keyper) LoadState() error {
 	for i := range st.State.DKGs {
 		st.State.DKGs[i].clearMissing()
 	}
+	if st.HalfStepPending && st.State.PendingHalfStep == nil {
+		st.State.PendingHalfStep = new(uint64)
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
@@ -355,6 +361,8 @@ func (kpr *Keyper) saveState() error {
 		State:     kpr.State,
 		Shutter:   world.Shutter,
 		MainChain: world.MainChain,
+
+		HalfStepPending: kpr.State.PendingHalfStep != nil,
 	}
 	enc := gob.NewEncoder(file)
 	err = enc.Encode(st)
-- 
2.43.0


From 2fcbb2c788946c8159ac61bc1d0a0cffc204abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 23/30] fix: don't crash on shutdown while the main chain
 connection is lost

A failing SubscribeNewHead overwrote the subscription with nil, and when the context was cancelled
while waiting for the next attempt, SyncMain used it.
---
 shuttermint/keyper/observe/mainchain.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index a49bce1..ade01fe 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -447,16 +447,17 @@ func SyncMain(
 		sub.Unsubscribe()
 		for {
 			log.Println("Attempting reconnection to main chain")
-			sub, err = caller.Ethclient.SubscribeNewHead(ctx, headers)
+			newSub, err := caller.Ethclient.SubscribeNewHead(ctx, headers)
 			if err != nil {
 				select {
 				case <-time.After(mainChainReconnectInterval):
 					continue
 				case <-ctx.Done():
-					return
+					return // sub is still the old subscription, not nil
 				}
 			} else {
 				log.Println("Main chain connection regained")
+				sub = newSub
 				return
 			}
 		}
-- 
2.43.0


From 8d0e2b71ed22b5917cc66360f06062c4f889acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 24/30] fix: choose start blocks that the config contract
 accepts in set-next

The contract requires that a config starts at least one batch of the last
config after the block in which it's scheduled. If the last config starts in
the future, the number of batches underflowed.
---
 shuttermint/cmd/config/setnext.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 76108c4..4a3385e 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -73,11 +73,19 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to query config change heads up blocks")
 	}
+	// the contract also requires a heads up of one batch of the last config
+	if batchSpan > headsUp {
+		headsUp = batchSpan
+	}
 	header, err := client.HeaderByNumber(ctx, nil)
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to get header")
 	}
 	minStartBlock := header.Number.Uint64() + headsUp + 20
+	if minStartBlock < startBlockNumber {
+		// the last config will start later
+		minStartBlock = startBlockNumber
+	}
 
 	if batchSpan == 0 {
 		return minStartBlock, startBatchIndex, nil
-- 
2.43.0


From ccae1c047b7b96804f974992b24c20d6fd11146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 25/30] fix: replace all keypers of the next config if it
 contains duplicates

---
 shuttermint/contract/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..ac9cc83 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -312,6 +312,11 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 	if err != nil {
 		return err
 	}
+	// GetNextConfig removes duplicates, but we need to know which keypers are really there
+	curbc.Keypers, err = cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
 
 	txopts := batch.TransactOpts
 	var tx *types.Transaction
-- 
2.43.0


From b9a42530e3032707411bc51ce2f7cb8d975d1a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 26/30] fix: refuse keyper configs without keys

---
 shuttermint/keyper/config.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index 3afbfd4..b158fee 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -163,7 +163,7 @@ func (config *Config) GenerateNewKeys() error {
 
 // Unmarshal unmarshals a keyper Config from the the given Viper object.
 func (config *Config) Unmarshal(v *viper.Viper) error {
-	return v.Unmarshal(
+	err := v.Unmarshal(
 		config,
 		viper.DecodeHook(
 			mapstructure.ComposeDecodeHookFunc(
@@ -176,6 +176,19 @@ func (config *Config) Unmarshal(v *viper.Viper) error {
 			),
 		),
 	)
+	if err != nil {
+		return err
+	}
+	if config.SigningKey == nil {
+		return errors.Errorf("field SigningKey is missing")
+	}
+	if config.ValidatorKey == nil {
+		return errors.Errorf("field ValidatorSeed is missing")
+	}
+	if config.EncryptionKey == nil {
+		return errors.Errorf("field EncryptionKey is missing")
+	}
+	return nil
 }
 
 // Address returns the keyper's Ethereum address.
-- 
2.43.0


From 602be1e5cc8dac0e15d103e4ada08e083cb31ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 27/30] fix: refuse negative numbers in the keyper config

---
 shuttermint/keyper/config.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index b158fee..94af68b 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -140,6 +140,26 @@ func randomValidatorKey() (ed25519.PrivateKey, error) {
 	return ed25519.NewKeyFromSeed(seed), nil
 }
 
+// rejectNegativeNumbers makes decoding fail for negative numbers in unsigned fields, which would
+// otherwise become huge positive ones.
+func rejectNegativeNumbers(f reflect.Type, t reflect.Type, data interface{}) (interface{}, error) {
+	if t.Kind() != reflect.Uint64 {
+		return data, nil
+	}
+	v := reflect.ValueOf(data)
+	switch f.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if v.Int() < 0 {
+			return nil, errors.Errorf("negative number: %d", v.Int())
+		}
+	case reflect.Float32, reflect.Float64:
+		if v.Float() < 0 {
+			return nil, errors.Errorf("negative number: %f", v.Float())
+		}
+	}
+	return data, nil
+}
+
 // GenerateNewKeys generates new keys and stores them inside the Config object.
 func (config *Config) GenerateNewKeys() error {
 	signingKey, err := randomSigningKey()
@@ -171,6 +191,7 @@ func (config *Config) Unmarshal(v *viper.Viper) error {
 				stringToEcdsaPrivateKey,
 				stringToEciesPrivateKey,
 				stringToAddress,
+				rejectNegativeNumbers,
 				mapstructure.StringToTimeDurationHookFunc(),
 				mapstructure.StringToSliceHookFunc(","),
 			),
-- 
2.43.0


From 66614303a6659fccbb15ddda5931b2ea59eb0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 28/30] fix: don't crash in deploy if the gas price is zero

---
 shuttermint/cmd/deploy/deploy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/cmd/deploy/deploy.go b/shuttermint/cmd/deploy/deploy.go
index 687e912..9fec9ef 100644
--- a/shuttermint/cmd/deploy/deploy.go
+++ b/shuttermint/cmd/deploy/deploy.go
@@ -91,7 +91,9 @@ var DeployCmd = &cobra.Command{
 		log.Printf("Deploy Address: %s", address)
 		log.Printf("Balance: %f ETH", weiToEther(balance))
 		log.Printf("Gas Price: %f GWei", weiToGwei(gasPrice))
-		log.Printf("Available gas: %d", new(big.Int).Quo(balance, gasPrice))
+		if gasPrice.Sign() > 0 {
+			log.Printf("Available gas: %d", new(big.Int).Quo(balance, gasPrice))
+		}
 
 		if !deployFlags.NoERC1820 {
 			err := maybeDeployERC1820(ctx, client)
-- 
2.43.0


From 05965be8203a97d693faeb549121cec1fa31647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 29/30] fix: make the wasm modules compile again

---
 shuttermint/shcryptowasm/both_wasm.go    | 18 ++++++++----------
 shuttermint/shcryptowasm/decrypt_wasm.go | 18 ++++++++----------
 shuttermint/shcryptowasm/encrypt_wasm.go |  5 +----
 3 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/shuttermint/shcryptowasm/both_wasm.go b/shuttermint/shcryptowasm/both_wasm.go
index 508a396..e74262a 100644
--- a/shuttermint/shcryptowasm/both_wasm.go
+++ b/shuttermint/shcryptowasm/both_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -94,7 +93,7 @@ var verifyDecryptionKey = js.FuncOf(func(this js.Value, args []js.Value) interfa
 	if err != nil {
 		return encodeResult(nil, err)
 	}
-	epochID, err := decodeUint64Arg(epochIDArg, "epochID")
+	epochID, err := decodeEpochIDBytesArg(epochIDArg)
 	if err != nil {
 		return encodeResult(nil, err)
 	}
@@ -133,12 +132,11 @@ func decodeEonPublicKeyArg(arg js.Value) (*shcrypto.EonPublicKey, error) {
 }
 
 func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
-	i, err := decodeUint64Arg(arg, "epochID")
+	b, err := decodeEpochIDBytesArg(arg)
 	if err != nil {
 		return nil, err
 	}
-	p := shcrypto.ComputeEpochID(i)
-	return p, nil
+	return shcrypto.ComputeEpochID(b), nil
 }
 
 func decodeSigmaArg(arg js.Value) (shcrypto.Block, error) {
@@ -195,13 +193,13 @@ func decodeBytesArg(arg js.Value, name string) ([]byte, error) {
 	return b, nil
 }
 
-func decodeUint64Arg(arg js.Value, name string) (uint64, error) {
-	b, err := decodeBytesArg(arg, name)
+func decodeEpochIDBytesArg(arg js.Value) ([]byte, error) {
+	b, err := decodeBytesArg(arg, "epochID")
 	if err != nil {
-		return 0, err
+		return nil, err
 	}
 	if len(b) != 8 {
-		return 0, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
+		return nil, fmt.Errorf("epochID must be 8 bytes, got %d", len(b))
 	}
-	return binary.BigEndian.Uint64(b), nil
+	return b, nil
 }
diff --git a/shuttermint/shcryptowasm/decrypt_wasm.go b/shuttermint/shcryptowasm/decrypt_wasm.go
index c624c34..80446ba 100644
--- a/shuttermint/shcryptowasm/decrypt_wasm.go
+++ b/shuttermint/shcryptowasm/decrypt_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -62,7 +61,7 @@ var verifyDecryptionKey = js.FuncOf(func(this js.Value, args []js.Value) interfa
 	if err != nil {
 		return encodeResult(nil, err)
 	}
-	epochID, err := decodeUint64Arg(epochIDArg, "epochID")
+	epochID, err := decodeEpochIDBytesArg(epochIDArg)
 	if err != nil {
 		return encodeResult(nil, err)
 	}
@@ -130,23 +129,22 @@ func decodeEonPublicKeyArg(arg js.Value) (*shcrypto.EonPublicKey, error) {
 }
 
 func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
-	i, err := decodeUint64Arg(arg, "epochID")
+	b, err := decodeEpochIDBytesArg(arg)
 	if err != nil {
 		return nil, err
 	}
-	p := shcrypto.ComputeEpochID(i)
-	return p, nil
+	return shcrypto.ComputeEpochID(b), nil
 }
 
-func decodeUint64Arg(arg js.Value, name string) (uint64, error) {
-	b, err := decodeBytesArg(arg, name)
+func decodeEpochIDBytesArg(arg js.Value) ([]byte, error) {
+	b, err := decodeBytesArg(arg, "epochID")
 	if err != nil {
-		return 0, err
+		return nil, err
 	}
 	if len(b) != 8 {
-		return 0, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
+		return nil, fmt.Errorf("epochID must be 8 bytes, got %d", len(b))
 	}
-	return binary.BigEndian.Uint64(b), nil
+	return b, nil
 }
 
 func decodeBytesArg(arg js.Value, name string) ([]byte, error) {
diff --git a/shuttermint/shcryptowasm/encrypt_wasm.go b/shuttermint/shcryptowasm/encrypt_wasm.go
index 7fa22e7..02d61f8 100644
--- a/shuttermint/shcryptowasm/encrypt_wasm.go
+++ b/shuttermint/shcryptowasm/encrypt_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -88,9 +87,7 @@ func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
 		return nil, fmt.Errorf("epochID must be 8 bytes, got %d", len(b))
 	}
 
-	i := binary.BigEndian.Uint64(b)
-	p := shcrypto.ComputeEpochID(i)
-	return p, nil
+	return shcrypto.ComputeEpochID(b), nil
 }
 
 func decodeSigmaArg(arg js.Value) (shcrypto.Block, error) {
-- 
2.43.0


From f90ba720fafc02494d7730930cdb014be608c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:45 +0000
Subject: [PATCH 30/30] fix: don't wait for the main chain node when stopping

---
 shuttermint/keyper/observe/mainchain.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index ade01fe..de210a8 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -443,8 +443,13 @@ func SyncMain(
 		return err
 	}
 
+	// Unsubscribe waits for an answer of the main chain node, for any time, so don't wait for it.
+	unsubscribe := func() {
+		go sub.Unsubscribe()
+	}
+
 	reconnect := func() {
-		sub.Unsubscribe()
+		unsubscribe()
 		for {
 			log.Println("Attempting reconnection to main chain")
 			newSub, err := caller.Ethclient.SubscribeNewHead(ctx, headers)
@@ -466,7 +471,7 @@ func SyncMain(
 	for {
 		select {
 		case <-ctx.Done():
-			sub.Unsubscribe()
+			unsubscribe()
 			return ctx.Err()
 		case <-headers:
 			newMainChain, err := mainChain.SyncToHead(ctx, caller)
-- 
2.43.0

