package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// timely tells whether the run promises that every honest keyper sees and sends everything in time.
func (s *sim) timely() bool { return s.o.lag == 0 && !s.o.slowEth && s.o.outage == 0 && !s.o.across }

// prompt tells whether a keyper began early enough for what it deals in an eon to be in time.
func (s *sim) prompt(kp *simKeyper, start int64) bool {
	return !s.o.tardy || kp.steps > 0 && kp.since <= start+int64(s.o.phase)-8
}

// run drives a whole simulation.
func (s *sim) run() {
	s.mon = s.monitor
	s.bootstrap()
	second := 0
	if s.o.second {
		second = s.o.ticks / 3
	}
	for i := 0; i < s.o.ticks && !s.k.Failed(); i++ {
		if second > 0 && i == second {
			s.secondConfig()
		}
		s.round()
	}
	s.quiet = true
	for i := 0; i < 12+2*int(s.o.follow) && !s.k.Failed(); i++ {
		s.round()
	}
	if !s.k.Failed() {
		s.finish()
	}
}

// secondConfig schedules a config with another set of keypers.
func (s *sim) secondConfig() {
	last, err := s.w.cfg.GetConfigByIndex(nil, s.confIdx)
	must(err)
	b, block := last.StartBatchIndex+1, last.StartBlockNumber+last.BatchSpan
	for block < s.w.head()+30 {
		b++
		block += last.BatchSpan
	}
	var ks []*simKeyper
	if s.r.Intn(5) == 0 { // the same ones
		ks = append(ks, s.kps[:s.o.n]...)
	} else {
		for _, i := range s.r.Perm(len(s.kps)) {
			ks = append(ks, s.kps[i])
		}
		// leave one of the honest ones out
		for i, kp := range ks {
			if !kp.byz {
				ks = append(ks[:i], ks[i+1:]...)
				break
			}
		}
	}
	t := s.o.t
	if s.r.Intn(2) == 0 {
		t = s.o.byz + 1 + s.r.Intn(len(ks)-2*s.o.byz)
	}
	s.timeout1 = s.o.timeout
	if s.r.Intn(3) != 0 {
		s.o.timeout = uint64(30 + s.r.Intn(20)*(1+s.r.Intn(2)))
	}
	if s.r.Intn(3) != 0 {
		s.o.span = uint64(3 + s.r.Intn(6))
	}
	s.schedule(ks, uint64(t), b, block)
	s.change = block - 8 + uint64(s.r.Intn(10))
}

// batchInfo is a batch's config and its end and timeout according to the config contract.
type batchInfo struct {
	active       bool
	bc           contract.BatchConfig
	end, timeout uint64
}

func (s *sim) info(batch uint64) batchInfo {
	// what the contracts say changes with the configs only
	if s.infosOf != s.confIdx || s.infos == nil {
		s.infosOf, s.infos = s.confIdx, map[uint64]batchInfo{}
	}
	in, ok := s.infos[batch]
	if !ok {
		in = s.fetchInfo(batch)
		s.infos[batch] = in
	}
	return in
}

func (s *sim) fetchInfo(batch uint64) batchInfo {
	ci, err := s.w.cfg.ConfigIndexForBatchIndex(nil, batch)
	must(err)
	bc, err := s.w.cfg.GetConfigByIndex(nil, ci)
	must(err)
	if bc.BatchSpan == 0 {
		return batchInfo{}
	}
	_, end, timeout, err := s.w.cfg.BatchBoundaryBlocks(nil, ci, batch)
	must(err)
	return batchInfo{true, bc, end, timeout}
}

// validSigners lists the keypers whose valid signatures of a hash are on chain up to a height.
func (s *sim) validSigners(batch uint64, hash []byte, bc *contract.BatchConfig, upTo int64) (r []common.Address) {
	seen := map[common.Address]bool{}
	for _, m := range s.msgs {
		p, ok := m.m.Payload.(*shmsg.Message_DecryptionSignature)
		if !ok || m.height > upTo || p.DecryptionSignature.BatchIndex != batch || seen[m.sender] || !bc.IsKeyper(m.sender) {
			continue
		}
		if validContractSig(hash, p.DecryptionSignature.Signature, m.sender) {
			seen[m.sender] = true
			r = append(r, m.sender)
		}
	}
	return
}

// validContractSig tells whether the contracts accept a signature (with v given as 0 or 1).
func validContractSig(hash, sig []byte, signer common.Address) bool {
	if len(sig) != 65 || sig[64] > 1 {
		return false
	}
	// OpenZeppelin's ECDSA refuses the upper half
	half := new2().Rsh(curveOrder, 1)
	if new2().SetBytes(sig[32:64]).Cmp(half) > 0 {
		return false
	}
	pub, err := crypto.SigToPub(hash, sig)
	return err == nil && crypto.PubkeyToAddress(*pub) == signer
}

// monitor looks at every step of an honest keyper.
func (s *sim) monitor(kp *simKeyper, acts []fx.IAction, pre *keyper.State) {
	if s.watch["C20"] {
		s.monDKG(kp, acts, pre)
	}
	if s.watch["C21"] {
		s.monShares(kp, acts)
	}
	if s.watch["C22"] {
		s.monKeys(kp)
	}
	if s.watch["C23"] {
		s.monExecution(kp, acts, pre)
	}
	if s.watch["C24"] {
		s.monJustice(kp, acts)
	}
	for _, ekg := range kp.st.EKGs {
		if _, ok := kp.ready[ekg.Eon]; !ok {
			kp.ready[ekg.Eon] = kp.mc.CurrentBlock
		}
	}
}

// ---- key generation ----

func (s *sim) monDKG(kp *simKeyper, acts []fx.IAction, pre *keyper.State) {
	k := s.k
	nbroadcast := 0
	for _, a := range acts {
		if _, ok := a.(*fx.EonKeyBroadcast); ok {
			nbroadcast++
		}
	}
	for _, ekg := range kp.st.EKGs {
		if kp.ekgSeen[ekg.Eon] {
			continue
		}
		kp.ekgSeen[ekg.Eon] = true
		ref := s.ref(ekg.Eon)
		if ref == nil {
			k.Failf("dkg-early", "%s finished eon %d before its phases were over", kp.name, ekg.Eon)
			return
		}
		if ref.pub == nil {
			k.Failf("dkg-success", "%s takes the key generation of eon %d for successful with %d qualified keypers of %d needed", kp.name, ekg.Eon, ref.nqual, ref.threshold)
			return
		}
		g := ekg.EpochKG
		idx := -1
		for i, a := range ref.keypers {
			if a == kp.addr {
				idx = i
			}
		}
		k.Count("eon keys compared")
		k.Check(fmt.Sprint(ekg.Keypers) == fmt.Sprint(ref.keypers) && int(g.Keyper) == idx && g.NumKeypers == uint64(len(ref.keypers)) &&
			g.Threshold == ref.threshold && g.Eon == ekg.Eon, "dkg-parameters", "%s: eon %d: keypers %v, index %d, threshold %d, want %v, %d, %d",
			kp.name, ekg.Eon, ekg.Keypers, g.Keyper, g.Threshold, ref.keypers, idx, ref.threshold)
		if !k.Check(g.PublicKey.Equal(ref.pub), "dkg-public-key", "%s has another public key for eon %d than follows from the chain", kp.name, ekg.Eon) {
			return
		}
		for i := range ref.shares {
			if i >= len(g.PublicKeyShares) || !g.PublicKeyShares[i].Equal(ref.shares[i]) {
				k.Failf("dkg-public-key-share", "%s has a wrong public key share of keyper %d for eon %d", kp.name, i, ekg.Eon)
				return
			}
		}
		id := shcrypto.ComputeEpochID(epochBytes(77))
		k.Check(shcrypto.VerifyEpochSecretKeyShare(shcrypto.ComputeEpochSecretKeyShare(g.SecretKeyShare, id), ref.shares[idx], id),
			"dkg-secret-share", "%s's secret key share of eon %d doesn't fit its public one", kp.name, ekg.Eon)
		n := 0
		for _, a := range acts {
			if b, ok := a.(*fx.EonKeyBroadcast); ok && b.StartBatchIndex == ref.batch && b.KeyperIndex == uint64(idx) && b.EonPublicKey.Equal(ref.pub) {
				n++
			}
		}
		nbroadcast--
		k.Check(n == 1, "dkg-broadcast", "%s broadcasts the key of eon %d %d times", kp.name, ekg.Eon, n)
	}
	k.Check(nbroadcast == 0, "dkg-broadcast", "%s broadcasts keys of no eon it has the key of", kp.name)
	for _, a := range acts {
		m, ok := a.(*fx.SendShuttermintMessage)
		if !ok {
			continue
		}
		switch p := m.Msg.Payload.(type) {
		case *shmsg.Message_EonStartVote:
			k.Count("failed key generations of a keyper")
			kp.votes[p.EonStartVote.StartBatchIndex]++
			for i := range kp.st.DKGs {
				d := &kp.st.DKGs[i]
				if d.StartBatchIndex != p.EonStartVote.StartBatchIndex || !d.IsFinalized() || kp.ekgSeen[d.Eon] {
					continue
				}
				ref := s.ref(d.Eon)
				if s.timely() && ref != nil && ref.pub != nil {
					k.Failf("dkg-failed", "%s takes the key generation of eon %d for failed though %d keypers qualified (needed: %d) and no message was late", kp.name, d.Eon, ref.nqual, ref.threshold)
					return
				}
			}
		case *shmsg.Message_Accusation:
			k.Count("accusations by honest keypers")
			start := s.startOf(p.Accusation.Eon)
			for _, a := range p.Accusation.Accused {
				o := s.kp(common.BytesToAddress(a))
				if s.timely() && !o.byz && (!s.prompt(o, start) || !s.prompt(kp, start)) {
					k.Count("accusations because of late starts")
				} else if s.timely() && !o.byz {
					k.Failf("dkg-accusation", "%s accuses the honest %s in eon %d", kp.name, o.name, p.Accusation.Eon)
				}
			}
		case *shmsg.Message_Apology:
			k.Count("apologies by honest keypers")
		}
	}
	s.monOutcome(kp)
}

func (s *sim) startOf(eon uint64) int64 {
	for _, e := range s.eons {
		if e.Eon == eon {
			return e.Height
		}
	}
	return 0
}

// monOutcome compares how a key generation ended for a keyper with what follows from the chain as
// soon as it has seen all phases: it has a key or votes for another start.
func (s *sim) monOutcome(kp *simKeyper) {
	want := map[uint64]int{}
	for _, e := range s.eons {
		if kp.st.SyncHeight < e.Height+3*int64(s.o.phase) {
			continue
		}
		ref := s.ref(e.Eon)
		for i, a := range ref.keypers {
			if a != kp.addr {
				continue
			}
			if !ref.can[i] {
				want[ref.batch]++
			}
			if kp.decided[e.Eon] {
				continue
			}
			kp.decided[e.Eon] = true
			s.k.Count("outcomes of key generations compared")
			if !ref.can[i] {
				s.k.Count("outcomes without a key")
			}
			if !s.k.Check(kp.ekgSeen[e.Eon] == ref.can[i], "dkg-outcome", "%s has seen all phases of eon %d and has a key: %v, what is on chain suffices for one: %v",
				kp.name, e.Eon, kp.ekgSeen[e.Eon], ref.can[i]) {
				return
			}
		}
	}
	for b, n := range want {
		s.k.Check(kp.votes[b] == n, "dkg-vote", "%s voted %d times for another key generation for batch %d, but %d failed for it", kp.name, kp.votes[b], b, n)
	}
	for b, n := range kp.votes {
		s.k.Check(want[b] == n, "dkg-vote", "%s voted %d times for another key generation for batch %d, but %d failed for it", kp.name, n, b, want[b])
	}
}

// ---- release of epoch keys ----

func (s *sim) monShares(kp *simKeyper, acts []fx.IAction) {
	k := s.k
	for _, a := range acts {
		m, ok := a.(*fx.SendShuttermintMessage)
		if !ok {
			continue
		}
		p, ok := m.Msg.Payload.(*shmsg.Message_EpochSecretKeyShare)
		if !ok {
			continue
		}
		e := p.EpochSecretKeyShare
		k.Count("shares released")
		in := s.info(e.Epoch)
		view := kp.mc.CurrentBlock
		if !in.active {
			k.Failf("share-inactive", "%s releases its share of batch %d, which no active config covers", kp.name, e.Epoch)
			return
		}
		// users can add transactions to the batch up to block end-1
		k.Check(view+1 >= in.end, "share-early", "%s releases its share of batch %d at block %d, but users can add transactions until block %d", kp.name, e.Epoch, view, in.end-1)
		k.Check(view < in.timeout, "share-late", "%s releases its share of batch %d at block %d though its execution timed out at %d", kp.name, e.Epoch, view, in.timeout)
		if in.end+1 >= view {
			k.Count("shares released at the first opportunity")
		}
		if kp.shares[[2]uint64{e.Eon, e.Epoch}] {
			k.Failf("share-twice", "%s releases its share of batch %d in eon %d again", kp.name, e.Epoch, e.Eon)
			return
		}
		kp.shares[[2]uint64{e.Eon, e.Epoch}] = true
		// the eon in its view
		var want uint64
		for _, ev := range s.eons {
			if ev.Height <= kp.sh.CurrentBlock && ev.BatchIndex <= e.Epoch {
				want = ev.Eon
			}
		}
		k.Check(e.Eon == want, "share-eon", "%s releases its share of batch %d for eon %d instead of %d", kp.name, e.Epoch, e.Eon, want)
		ref := s.ref(e.Eon)
		if ref == nil || ref.pub == nil {
			k.Failf("share-eon", "%s releases a share of eon %d, which has no key", kp.name, e.Eon)
			return
		}
		idx := -1
		for i, a := range ref.keypers {
			if a == kp.addr {
				idx = i
			}
		}
		share := new(shcrypto.EpochSecretKeyShare)
		if err := share.Unmarshal(e.Share); err != nil || idx < 0 || !shcrypto.VerifyEpochSecretKeyShare(share, ref.shares[idx], shcrypto.ComputeEpochID(epochBytes(e.Epoch))) {
			k.Failf("share-wrong", "%s releases a wrong share of batch %d (eon %d, index %d)", kp.name, e.Epoch, e.Eon, idx)
		}
	}
	s.monReleased(kp)
}

// validShares lists the keypers whose valid shares are on chain up to a height.
// monReleased makes sure that a keyper releases its share of a batch as soon as it sees its end.
func (s *sim) monReleased(kp *simKeyper) {
	k, view := s.k, kp.mc.CurrentBlock
	if !kp.sh.IsKeyper(kp.addr) {
		return
	}
	// a keyper that doesn't know the current config on shuttermint yet has to wait
	current := uint64(0)
	for i := uint64(1); i <= s.confIdx; i++ {
		if i >= uint64(len(s.starts)) {
			c, err := s.w.cfg.ConfigForConfigIndex(nil, i)
			must(err)
			s.starts = append(s.starts[:i:i], c.StartBlockNumber)
		}
		if s.starts[i] <= view {
			current = i
		}
	}
	if _, err := kp.sh.FindBatchConfigByConfigIndex(current); err != nil {
		return
	}
	for ; ; kp.next++ {
		b := kp.next
		in := s.info(b)
		if !in.active || in.end > view {
			return
		}
		if view+1 >= in.timeout || !in.bc.IsKeyper(kp.addr) {
			continue
		}
		var eon uint64
		for _, ev := range s.eons {
			if ev.Height <= kp.sh.CurrentBlock && ev.BatchIndex <= b {
				eon = ev.Eon
			}
		}
		for _, ekg := range kp.st.EKGs {
			if ekg.Eon != eon || ekg.EpochKG.SecretKeys[b] != nil {
				continue
			}
			k.Count("releases required")
			if !k.Check(kp.shares[[2]uint64{eon, b}], "share-missing", "%s sees at block %d that batch %d is over (block %d), has the key of eon %d, but doesn't release its share",
				kp.name, view, b, in.end, eon) {
				return
			}
		}
	}
}

func (s *sim) validShares(ref *refEon, epoch uint64, upTo int64) int {
	seen := map[int]bool{}
	id := shcrypto.ComputeEpochID(epochBytes(epoch))
	for _, m := range s.msgs {
		p, ok := m.m.Payload.(*shmsg.Message_EpochSecretKeyShare)
		if !ok || m.height > upTo || p.EpochSecretKeyShare.Eon != ref.eon || p.EpochSecretKeyShare.Epoch != epoch {
			continue
		}
		for i, a := range ref.keypers {
			if a != m.sender || seen[i] {
				continue
			}
			share := new(shcrypto.EpochSecretKeyShare)
			if share.Unmarshal(p.EpochSecretKeyShare.Share) == nil && shcrypto.VerifyEpochSecretKeyShare(share, ref.shares[i], id) {
				seen[i] = true
			}
		}
	}
	return len(seen)
}

// ---- epoch keys ----

func (s *sim) monKeys(kp *simKeyper) {
	k := s.k
	for _, ekg := range kp.st.EKGs {
		ref := s.ref(ekg.Eon)
		if ref == nil || ref.pub == nil {
			continue
		}
		epochs := map[uint64]bool{}
		for _, m := range s.msgs {
			if p, ok := m.m.Payload.(*shmsg.Message_EpochSecretKeyShare); ok && p.EpochSecretKeyShare.Eon == ekg.Eon {
				epochs[p.EpochSecretKeyShare.Epoch] = true
			}
		}
		for e := range epochs {
			key := fmt.Sprint(kp.idx, "/", ekg.Eon, "/", e)
			if s.honestKeys[key] {
				continue
			}
			if sk, ok := ekg.EpochKG.SecretKeys[e]; ok {
				s.honestKeys[key] = true
				k.Count("epoch keys compared")
				good := false
				if sk != nil {
					var err error
					good, err = shcrypto.VerifyEpochSecretKey(sk, ref.pub, epochBytes(e))
					must(err)
				}
				if !good {
					k.Failf("epoch-key-wrong", "%s has a wrong key (%v) of epoch %d, eon %d", kp.name, sk != nil, e, ekg.Eon)
					return
				}
				continue
			}
			if n := s.validShares(ref, e, kp.sh.CurrentBlock); uint64(n) >= ref.threshold {
				k.Failf("epoch-key-missing", "%s has no key of epoch %d, eon %d at height %d, though %d valid shares are on chain (threshold %d)", kp.name, e, ekg.Eon, kp.sh.CurrentBlock, n, ref.threshold)
				return
			}
			k.Count("epochs with too few shares yet")
		}
		for e := range ekg.EpochKG.SecretKeys {
			k.Check(epochs[e], "epoch-key-invented", "%s has a key of epoch %d, eon %d without any shares on chain", kp.name, e, ekg.Eon)
		}
	}
}

// ---- execution ----

func (s *sim) monExecution(kp *simKeyper, acts []fx.IAction, pre *keyper.State) {
	k := s.k
	next := kp.mc.NumExecutionHalfSteps
	h := kp.mc.CurrentBlock
	n := 0
	check := func(half uint64) bool {
		n++
		k.Count("half steps decided on")
		if n == 1 && pre.PendingHalfStep != nil && *pre.PendingHalfStep >= next {
			k.Failf("execution-pending", "%s sends half step %d while its half step %d is pending", kp.name, half, *pre.PendingHalfStep)
			return false
		}
		return k.Check(half == next+uint64(n-1), "execution-order", "%s executes half step %d, the next one is %d", kp.name, half, next+uint64(n-1))
	}
	for _, a := range acts {
		switch x := a.(type) {
		case *fx.ExecuteCipherBatch:
			if !check(2 * x.BatchIndex) {
				return
			}
			in := s.info(x.BatchIndex)
			idx, member := in.bc.KeyperIndex(kp.addr)
			k.Check(in.active && member && idx == x.KeyperIndex, "execution-keyper", "%s executes batch %d as keyper %d (%d, %v)", kp.name, x.BatchIndex, x.KeyperIndex, idx, member)
			k.Check(h >= in.end && h < in.timeout, "execution-time", "%s executes batch %d at block %d, outside of %d..%d", kp.name, x.BatchIndex, h, in.end, in.timeout)
			k.Check(h >= in.end+delayOf(&in.bc, s.o.stagger, 2*x.BatchIndex, idx), "execution-staggering", "%s executes half step %d of a batch ending at %d at block %d, before its turn", kp.name, 2*x.BatchIndex, in.end, h)
			enc := s.batchTxs(x.BatchIndex, contract.TransactionTypeCipher, h)
			cipher := txsHash(enc)
			k.Check(bytes.Equal(x.CipherBatchHash[:], cipher), "execution-cipher-hash", "%s executes batch %d with a wrong hash of the encrypted batch", kp.name, x.BatchIndex)
			if len(enc) == 0 {
				k.Check(len(x.Transactions) == 0, "execution-content", "%s executes the empty batch %d with %d transactions", kp.name, x.BatchIndex, len(x.Transactions))
				k.Count("empty cipher executions compared")
				continue
			}
			refs := s.keyedEons(x.BatchIndex)
			if len(refs) == 0 {
				k.Failf("execution-content", "%s executes batch %d without a key", kp.name, x.BatchIndex)
				return
			}
			good, judged := false, false
			var want [][]byte
			for _, ref := range refs { // usually one
				w, ok := s.wantBatch(x.BatchIndex, ref, h)
				judged = judged || ok
				if ok {
					want = w
				}
				good = good || ok && sameBytes(x.Transactions, w)
			}
			if !judged {
				k.Count("executions that couldn't be judged")
				continue
			}
			k.Count("cipher executions compared")
			if len(want) > 0 {
				k.Count("cipher executions with transactions")
			}
			if !good {
				k.Failf("execution-content", "%s executes batch %d with %d transactions %q instead of %d %q", kp.name, x.BatchIndex, len(x.Transactions), x.Transactions, len(want), want)
				return
			}
			hash := decSigHash(s.w.addr.batcher, x.BatchIndex, cipher, txsHash(x.Transactions))
			sg := s.validSigners(x.BatchIndex, hash, &in.bc, kp.sh.CurrentBlock)
			k.Check(uint64(len(sg)) >= in.bc.Threshold, "execution-signatures", "%s executes batch %d with only %d of %d signatures", kp.name, x.BatchIndex, len(sg), in.bc.Threshold)
		case *fx.ExecutePlainBatch:
			if !check(2*x.BatchIndex + 1) {
				return
			}
			in := s.info(x.BatchIndex)
			want := s.batchTxs(x.BatchIndex, contract.TransactionTypePlain, h)
			k.Count("plain executions compared")
			k.Check(sameBytes(x.Transactions, want), "execution-content", "%s executes the plain batch %d with %q instead of %q", kp.name, x.BatchIndex, x.Transactions, want)
			k.Check(h >= in.end, "execution-time", "%s executes the plain batch %d at block %d, it ends at %d", kp.name, x.BatchIndex, h, in.end)
			idx, member := in.bc.KeyperIndex(kp.addr)
			k.Check(member && h >= in.end+delayOf(&in.bc, s.o.stagger, 2*x.BatchIndex+1, idx), "execution-staggering", "%s executes half step %d of a batch ending at %d at block %d, before its turn", kp.name, 2*x.BatchIndex+1, in.end, h)
		case *fx.SkipCipherBatch:
			if !check(2 * x.BatchIndex) {
				return
			}
			in := s.info(x.BatchIndex)
			k.Count("skips")
			k.Check(in.active && h >= in.timeout, "skip-early", "%s skips batch %d at block %d, it times out at %d", kp.name, x.BatchIndex, h, in.timeout)
		}
	}
	k.Check(n <= 10, "execution-parallel", "%s sends %d half steps at once", kp.name, n)
}

// delayOf is the number of blocks keyper idx waits after the end of a batch.
func delayOf(bc *contract.BatchConfig, staggering, half, idx uint64) uint64 {
	n := uint64(len(bc.Keypers))
	if n < 2 {
		return 0
	}
	step := staggering
	if max := bc.ExecutionTimeout / 2 / (n - 1); step > max {
		step = max
	}
	return (half + idx) % n * step
}

func sameBytes(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---- justice ----

func (s *sim) monJustice(kp *simKeyper, acts []fx.IAction) {
	k := s.k
	for _, a := range acts {
		switch x := a.(type) {
		case *fx.Accuse:
			k.Count("accusations decided on")
			r := kp.mc.CipherExecutionReceipts[x.HalfStep]
			in := s.info(x.HalfStep / 2)
			idx, member := in.bc.KeyperIndex(kp.addr)
			k.Check(member && idx == x.KeyperIndex, "accuse-keyper", "%s accuses as keyper %d (%d, %v)", kp.name, x.KeyperIndex, idx, member)
			if r == nil {
				k.Failf("accuse-nothing", "%s accuses half step %d, which wasn't executed", kp.name, x.HalfStep)
				return
			}
			if ref := s.soleEon(x.HalfStep / 2); ref != nil {
				if want, ok := s.wantBatch(x.HalfStep/2, ref, kp.mc.CurrentBlock); ok && bytes.Equal(txsHash(want), r.BatchHash[:]) {
					k.Failf("accuse-innocent", "%s accuses %s for half step %d, which was executed correctly", kp.name, s.nameOf(r.Executor), x.HalfStep)
					return
				}
			}
		case *fx.Appeal:
			k.Count("appeals decided on")
			half := x.Authorization.HalfStep
			r := kp.mc.CipherExecutionReceipts[half]
			if r == nil {
				k.Failf("appeal-nothing", "%s appeals for half step %d, which wasn't executed", kp.name, half)
				return
			}
			// the contract has to accept it (as long as nobody else appealed)
			acc, err := s.w.slash.Accusations(nil, half)
			must(err)
			if acc.Appealed {
				continue
			}
			auth := s.w.auth(kp.key)
			auth.NoSend = true
			auth.GasLimit = 0
			if _, err := s.w.slash.Appeal(auth, x.Authorization); err != nil && !pendingAppeal(err) {
				k.Failf("appeal-refused", "the contract refuses %s's appeal for half step %d: %v", kp.name, half, err)
				return
			}
		}
	}
}

func (s *sim) nameOf(a common.Address) string {
	if kp := s.kp(a); kp != nil {
		return kp.name
	}
	return a.Hex()
}

// ---- the end of a run ----

func (s *sim) finish() {
	k := s.k
	hs, err := s.w.exe.NumExecutionHalfSteps(nil)
	must(err)
	k.Count("simulations")
	k.C.Count("half steps executed on chain", int64(hs))
	k.C.Count("eons", int64(len(s.eons)))
	head := s.w.head()
	keyed := s.soleEon
	if s.watch["C20"] && s.timely() {
		for _, ev := range s.eons {
			ref := s.ref(ev.Eon)
			if ref == nil {
				continue
			}
			for i, a := range ref.keypers {
				if kp := s.kp(a); !kp.byz && !ref.qualified[i] && s.prompt(kp, ev.Height) {
					k.Failf("dkg-disqualified", "the honest %s was disqualified in eon %d though it was in time", kp.name, ev.Eon)
				}
			}
			if s.tm.height > ref.start+3*int64(s.o.phase)+4 && ref.pub != nil {
				for _, a := range ref.keypers {
					if kp := s.kp(a); !kp.byz && s.prompt(kp, ev.Height) {
						k.Check(kp.ekgSeen[ev.Eon], "dkg-missing", "the honest %s has no key for eon %d", kp.name, ev.Eon)
					}
				}
			}
		}
	}
	for half := uint64(0); half < hs; half += 2 {
		b := half / 2
		rec, err := s.w.exe.GetReceipt(nil, half)
		must(err)
		in := s.info(b)
		acc, err := s.w.slash.Accusations(nil, half)
		must(err)
		ref := keyed(b)
		nonempty := len(s.batchTxs(b, contract.TransactionTypeCipher, head)) > 0
		if !rec.Executed {
			k.Count("skipped batches")
			if s.watch["C23"] && s.timely() && ref != nil && s.readyBefore(ref, in) {
				k.Failf("batch-skipped", "batch %d was skipped though all honest keypers had the eon key in time", b)
				return
			}
			continue
		}
		k.Count("executed batches")
		ex := s.kp(rec.Executor)
		if ref == nil {
			continue
		}
		want, ok := s.wantBatch(b, ref, head)
		if !ok {
			continue
		}
		good := bytes.Equal(rec.BatchHash[:], txsHash(want))
		if s.watch["C23"] && !ex.byz && !good {
			k.Failf("executed-wrong", "the honest %s executed batch %d wrongly", ex.name, b)
			return
		}
		if s.watch["C24"] {
			k.Count("executions judged")
			if good && acc.Accused {
				k.Count("correct executions accused")
				k.Check(acc.Appealed, "unjust", "%s executed batch %d correctly, but the accusation against it stands", ex.name, b)
			}
			if !good {
				k.Count("wrong executions")
				k.Check(!acc.Appealed, "appealed-wrongly", "the accusation against %s for the wrong execution of batch %d was appealed", ex.name, b)
				if nonempty && s.anyHonestKey(b, ref) {
					k.Check(acc.Accused, "unpunished", "%s executed batch %d wrongly, but no honest keyper accused it (receipt by %s)", ex.name, b, ex.name)
				}
			}
		}
	}
	if s.watch["C23"] && s.timely() {
		// the chain is followed closely
		for half := hs; ; half++ {
			b := half / 2
			in := s.info(b)
			if !in.active || in.timeout+in.bc.ExecutionTimeout/2+uint64(2*len(in.bc.Keypers))+s.o.follow+20 > head {
				break
			}
			k.Failf("stuck", "half step %d hasn't been executed at block %d, batch %d timed out at %d", half, head, b, in.timeout)
			return
		}
	}
	if s.watch["C21"] && s.timely() {
		for b := uint64(0); ; b++ {
			in := s.info(b)
			if !in.active {
				if b > 3 {
					break
				}
				continue
			}
			if in.end+s.o.follow+4 > head {
				break
			}
			ref := keyed(b)
			if ref == nil {
				continue
			}
			for _, a := range ref.keypers {
				kp := s.kp(a)
				if at, ok := kp.ready[ref.eon]; kp.byz || !ok || at >= in.end || !s.eonSettled(ref, in) {
					continue
				}
				k.Count("shares expected")
				if !kp.shares[[2]uint64{ref.eon, b}] && s.validShares(ref, b, s.tm.height) < int(ref.threshold) {
					k.Failf("share-missing", "%s never released its share of batch %d, eon %d, which ended at %d", kp.name, b, ref.eon, in.end)
					return
				}
			}
		}
	}
	var states string
	for _, kp := range s.kps {
		states += fmt.Sprintf("%s:%v ", kp.name, keysOf(kp.kinds))
	}
	k.Eval(fmt.Sprintf("%s hs=%d eons=%d msgs=%d", states, hs, len(s.eons), len(s.msgs)), len(s.msgs) > 10)
	if k.Idx == 0 {
		t := k.Trace()
		if len(t) > 40 {
			t = t[:40]
		}
		k.Sample(t)
	}
}

// eonSettled: no other eon for the batch was started around its end.
func (s *sim) eonSettled(ref *refEon, in batchInfo) bool {
	for _, e := range s.eons {
		if e.Eon > ref.eon && e.BatchIndex <= ref.batch {
			return false
		}
	}
	return true
}

// readyBefore tells whether all honest keypers of a batch had the eon key when it ended.
func (s *sim) readyBefore(ref *refEon, in batchInfo) bool {
	for _, a := range ref.keypers {
		kp := s.kp(a)
		if kp.byz {
			continue
		}
		if at, ok := kp.ready[ref.eon]; !ok || at >= in.end {
			return false
		}
	}
	return s.eonSettled(ref, in)
}

func (s *sim) anyHonestKey(b uint64, ref *refEon) bool {
	for _, a := range ref.keypers {
		if kp := s.kp(a); !kp.byz {
			for _, ekg := range kp.st.EKGs {
				if ekg.Eon == ref.eon && ekg.EpochKG.SecretKeys[b] != nil {
					return true
				}
			}
		}
	}
	return false
}

var _ = vt.NoPanic

func new2() *big.Int { return new(big.Int) }

func pendingAppeal(err error) bool {
	return strings.Contains(err.Error(), "already appealed")
}
