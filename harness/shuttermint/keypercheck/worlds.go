package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	rpctypes "github.com/tendermint/tendermint/rpc/core/types"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/verifharness/vt"
)

// Made-up worlds: single decisions of one keyper on views of the chains that the contracts allow
// but that simulations rarely get to.

type madeWorld struct {
	me   common.Address
	cfg  keyper.Config
	st   *keyper.State
	sh   *observe.Shutter
	mc   *observe.MainChain
	step uint64 // half step pending before the decision + 1, 0 if none
}

var worldKeys = func() (r []common.Address) {
	for i := 0; i < 6; i++ {
		r = append(r, addrOf(keyOf(fmt.Sprintf("worldkeyper%d", i))))
	}
	return
}()

// confOf is the config a batch belongs to, by the contract's rule: the last one that starts at or
// before the batch.
func (w *madeWorld) confOf(batch uint64) *contract.BatchConfig {
	for i := len(w.mc.BatchConfigs) - 1; i >= 0; i-- {
		if w.mc.BatchConfigs[i].StartBatchIndex <= batch {
			return &w.mc.BatchConfigs[i]
		}
	}
	return nil
}

func makeWorld(r *rand.Rand) *madeWorld {
	key := keyOf("worldkeyper0")
	w := &madeWorld{me: addrOf(key), st: keyper.NewState(), sh: observe.NewShutter(), mc: observe.NewMainChain(uint64(r.Intn(4)))}
	stag := []uint64{0, 1, 2, 5, 20, 1000}[r.Intn(6)]
	w.cfg = keyper.Config{SigningKey: key, EncryptionKey: ecies.ImportECDSA(key), ValidatorKey: make([]byte, 64),
		ExecutionStaggering: stag, DKGPhaseLength: 10, BatcherContractAddress: common.HexToAddress("0xba")}
	// configs: the guard, then some that follow each other
	mc := w.mc
	mc.BatchConfigs = []contract.BatchConfig{{}}
	block, batch := uint64(5+r.Intn(20)), uint64(0)
	for n := 1 + r.Intn(4); n > 0; n-- {
		c := contract.BatchConfig{StartBatchIndex: batch, StartBlockNumber: block, TransactionGasLimit: uint64(r.Intn(1000))}
		if r.Intn(5) != 0 || n == 1 && r.Intn(4) != 0 {
			c.BatchSpan = 1 + uint64(r.Intn(8))
			c.ExecutionTimeout = uint64([]int{0, 1, 2, 5, 10, 30, 60}[r.Intn(7)])
		}
		nk := r.Intn(6)
		if nk == 0 && r.Intn(2) == 0 {
			nk = 1
		}
		for _, i := range r.Perm(len(worldKeys))[:nk] {
			c.Keypers = append(c.Keypers, worldKeys[i])
		}
		if nk > 0 && r.Intn(5) != 0 && !c.IsKeyper(w.me) {
			c.Keypers[r.Intn(nk)] = w.me
		}
		if nk > 0 {
			c.Threshold = uint64(1 + r.Intn(nk))
		}
		mc.BatchConfigs = append(mc.BatchConfigs, c)
		k := uint64(1 + r.Intn(8))
		if c.BatchSpan > 0 {
			batch += k
			block += k * c.BatchSpan
		} else {
			block += uint64(1 + r.Intn(30))
		}
	}
	last := &mc.BatchConfigs[len(mc.BatchConfigs)-1]
	// the current block: near a batch's end, its timeout or somebody's turn
	b := uint64(r.Int63n(int64(last.StartBatchIndex) + 8))
	cur := block
	if c := w.confOf(b); c != nil && c.BatchSpan > 0 {
		end := c.StartBlockNumber + (b-c.StartBatchIndex+1)*c.BatchSpan
		d := delayOf(c, stag, uint64(r.Intn(12)), uint64(r.Intn(6)))
		cur = end + []uint64{0, 0, d, c.ExecutionTimeout, c.ExecutionTimeout + d, uint64(r.Intn(60))}[r.Intn(6)] + uint64(r.Intn(3)) - 1
	}
	mc.CurrentBlock = cur
	act := mc.BatchConfigs[0]
	for _, c := range mc.BatchConfigs {
		if c.StartBlockNumber <= cur {
			act = c
		}
	}
	curBatch := act.StartBatchIndex
	if act.BatchSpan > 0 {
		curBatch += (cur - act.StartBlockNumber) / act.BatchSpan
	}
	// half steps can't be ahead of the closed batches
	over := 2 * curBatch
	switch r.Intn(4) {
	case 0:
		mc.NumExecutionHalfSteps = over
	case 1:
		mc.NumExecutionHalfSteps = uint64(r.Int63n(int64(over) + 1))
	default:
		if x := uint64(r.Intn(14)); x < over {
			mc.NumExecutionHalfSteps = over - x
		}
	}
	if b*2 < over && r.Intn(3) == 0 {
		mc.NumExecutionHalfSteps = b*2 + uint64(r.Intn(2))
	}
	// batches' transactions and what the keyper knows about them
	for i := uint64(0); i < curBatch; i++ {
		c := w.confOf(i)
		if c.BatchSpan == 0 {
			continue
		}
		mb := &observe.Batch{BatchIndex: i}
		if r.Intn(3) != 0 {
			for n := r.Intn(3); n > 0; n-- {
				mb.EncryptedTransactions = append(mb.EncryptedTransactions, []byte(fmt.Sprintf("enc%d/%d", i, n)))
				mb.EncryptedBatchHash = common.BytesToHash([]byte(fmt.Sprintf("hash%d", i)))
			}
			for n := r.Intn(3); n > 0; n-- {
				mb.PlainTransactions = append(mb.PlainTransactions, []byte(fmt.Sprintf("plain%d/%d", i, n)))
			}
			mc.Batches[i] = mb
		}
		var hash []byte
		if r.Intn(8) != 0 {
			sb := &keyper.Batch{BatchIndex: i, DecryptionSignatureHash: []byte{byte(i)}, IsEmpty: len(mb.EncryptedTransactions) == 0}
			for range mb.EncryptedTransactions {
				if r.Intn(5) != 0 {
					sb.DecryptedTransactions = append(sb.DecryptedTransactions, []byte(fmt.Sprintf("dec%d/%d", i, r.Intn(100))))
				}
			}
			sb.DecryptedBatchHash = txsHash(sb.DecryptedTransactions)
			hash = sb.DecryptedBatchHash
			if !sb.IsEmpty {
				n := r.Intn(len(c.Keypers) + 1)
				if r.Intn(2) == 0 && n < int(c.Threshold) {
					n = int(c.Threshold)
				}
				if n > int(c.Threshold) {
					n = int(c.Threshold)
				}
				for _, j := range r.Perm(len(c.Keypers))[:n] {
					sig := bytes.Repeat([]byte{byte(j + 1)}, 65)
					sig[64] = byte(r.Intn(2))
					sb.AddSignature(c.Keypers[j], sig)
				}
			}
			w.st.Batches[i] = sb
		}
		if 2*i < mc.NumExecutionHalfSteps && r.Intn(5) != 0 {
			rec := &contract.CipherExecutionReceipt{Executed: true, HalfStep: 2 * i, Executor: worldKeys[r.Intn(6)], CipherBatchHash: mb.EncryptedBatchHash}
			if hash == nil || r.Intn(2) == 0 {
				hash = txsHash([][]byte{[]byte(fmt.Sprint("other", i))})
			}
			copy(rec.BatchHash[:], hash)
			mc.CipherExecutionReceipts[2*i] = rec
			if r.Intn(2) == 0 && mb.EncryptedBatchHash != (common.Hash{}) {
				mc.Accusations[2*i] = &observe.Accusation{Executor: rec.Executor, HalfStep: 2 * i, Appealed: r.Intn(3) == 0}
			}
			if mc.Accusations[2*i] != nil && r.Intn(3) == 0 {
				w.st.PendingAppeals[2*i] = struct{}{}
			}
		}
	}
	w.st.HalfStepsChecked = uint64(r.Int63n(int64(mc.NumExecutionHalfSteps) + 1))
	w.st.NextEpochSecretShare = uint64(r.Int63n(int64(curBatch) + 1))
	if r.Intn(3) == 0 {
		p := mc.NumExecutionHalfSteps + uint64(r.Intn(4))
		if p >= 2 {
			p -= 2
		}
		w.st.PendingHalfStep = &p
		w.step = p + 1
	}
	w.sh.CurrentBlock, w.sh.LastCommittedHeight = 50, 50
	w.sh.NodeStatus = &rpctypes.ResultStatus{}
	w.sh.KeyperEncryptionKeys[w.me] = (*observe.EncryptionPublicKey)(&w.cfg.EncryptionKey.PublicKey)
	for i, c := range mc.BatchConfigs[1:] {
		w.sh.BatchConfigs = append(w.sh.BatchConfigs, shutterevents.BatchConfig{StartBatchIndex: c.StartBatchIndex, Threshold: c.Threshold,
			Keypers: c.Keypers, ConfigIndex: uint64(i + 1)})
	}
	w.sh.BatchConfigs = append([]shutterevents.BatchConfig{{Keypers: []common.Address{w.me}, Threshold: 1}}, w.sh.BatchConfigs...)
	w.st.SyncHeight = 40
	return w
}

func (w *madeWorld) describe(k *vt.K) {
	k.Tracef("block %d, half steps %d, staggering %d, pending %d, checked %d, me %s", w.mc.CurrentBlock, w.mc.NumExecutionHalfSteps, w.cfg.ExecutionStaggering, int64(w.step)-1, w.st.HalfStepsChecked, w.me.Hex())
	for i, c := range w.mc.BatchConfigs {
		idx, ok := c.KeyperIndex(w.me)
		k.Tracef("config %d: from batch %d, block %d, span %d, timeout %d, threshold %d, %d keypers, me %d %v", i, c.StartBatchIndex, c.StartBlockNumber, c.BatchSpan, c.ExecutionTimeout, c.Threshold, len(c.Keypers), idx, ok)
	}
	for b, x := range w.st.Batches {
		k.Tracef("batch %d: %d signatures, empty %v, %q", b, len(x.VerifiedSignatures), x.IsEmpty, x.DecryptedTransactions)
	}
	for h, x := range w.mc.Accusations {
		k.Tracef("accusation for half step %d, appealed %v", h, x.Appealed)
	}
}

// wantExecutions lists the half steps the keyper has to send transactions for.
func (w *madeWorld) wantExecutions() (r []string) {
	mc := w.mc
	next := mc.NumExecutionHalfSteps
	if w.step > 0 && w.step-1 >= next {
		return nil
	}
	act := mc.BatchConfigs[0]
	for _, c := range mc.BatchConfigs {
		if c.StartBlockNumber <= mc.CurrentBlock {
			act = c
		}
	}
	if act.BatchSpan == 0 {
		return nil
	}
	cur := act.StartBatchIndex + (mc.CurrentBlock-act.StartBlockNumber)/act.BatchSpan
	for half := next; half < 2*cur && half < next+10; half++ {
		b := half / 2
		c := w.confOf(b)
		if c.BatchSpan == 0 {
			return
		}
		end := c.StartBlockNumber + (b-c.StartBatchIndex+1)*c.BatchSpan
		idx, member := c.KeyperIndex(w.me)
		d := uint64(0)
		if n := uint64(len(c.Keypers)); n >= 2 {
			d = delayOf(c, w.cfg.ExecutionStaggering, half, idx)
		}
		switch {
		case half%2 == 0 && mc.CurrentBlock >= end+c.ExecutionTimeout:
			if mc.CurrentBlock < end+c.ExecutionTimeout+d {
				return
			}
			r = append(r, fmt.Sprintf("skip %d", b))
		case !member || mc.CurrentBlock < end+d:
			return
		case half%2 == 1:
			var txs [][]byte
			if mb := mc.Batches[b]; mb != nil {
				txs = mb.PlainTransactions
			}
			r = append(r, fmt.Sprintf("plain %d %q gas %d", b, txs, c.TransactionGasLimit))
		default:
			sb := w.st.Batches[b]
			if sb == nil || !sb.IsEmpty && uint64(len(sb.VerifiedSignatures)) < c.Threshold {
				return
			}
			var hash common.Hash
			if mb := mc.Batches[b]; mb != nil {
				hash = mb.EncryptedBatchHash
			}
			r = append(r, fmt.Sprintf("cipher %d %q as %d hash %x gas %d", b, sb.DecryptedTransactions, idx, hash, c.TransactionGasLimit))
		}
	}
	return
}

func (w *madeWorld) wantJustice() (r []string) {
	mc := w.mc
	for half := w.st.HalfStepsChecked; half < mc.NumExecutionHalfSteps; half++ {
		rec, sb := mc.CipherExecutionReceipts[half], w.st.Batches[half/2]
		if half%2 != 0 || rec == nil || sb == nil || bytes.Equal(rec.BatchHash[:], sb.DecryptedBatchHash) || mc.Accusations[half] != nil {
			continue
		}
		if idx, ok := w.confOf(half / 2).KeyperIndex(w.me); ok {
			r = append(r, fmt.Sprintf("accuse %d as %d", half, idx))
		}
	}
	for half, acc := range mc.Accusations {
		rec, sb := mc.CipherExecutionReceipts[half], w.st.Batches[half/2]
		_, pending := w.st.PendingAppeals[half]
		if acc.Appealed || pending || sb == nil || !bytes.Equal(rec.BatchHash[:], sb.DecryptedBatchHash) {
			continue
		}
		c := w.confOf(half / 2)
		if uint64(len(sb.VerifiedSignatures)) < c.Threshold {
			continue
		}
		var idx []uint64
		var sigs [][]byte
		for i, a := range c.Keypers {
			if sig, ok := sb.VerifiedSignatures[a]; ok {
				s := append([]byte{}, sig...)
				s[64] += 27
				idx, sigs = append(idx, uint64(i)), append(sigs, s)
			}
		}
		r = append(r, fmt.Sprintf("appeal %d %x %v %x", half, sb.DecryptedBatchHash, idx, sigs))
	}
	sort.Strings(r)
	return
}

func renderDecision(acts []fx.IAction) (exec, justice []string) {
	for _, a := range acts {
		switch x := a.(type) {
		case *fx.ExecuteCipherBatch:
			exec = append(exec, fmt.Sprintf("cipher %d %q as %d hash %x gas %d", x.BatchIndex, x.Transactions, x.KeyperIndex, x.CipherBatchHash, x.TransactionGasLimit))
		case *fx.ExecutePlainBatch:
			exec = append(exec, fmt.Sprintf("plain %d %q gas %d", x.BatchIndex, x.Transactions, x.TransactionGasLimit))
		case *fx.SkipCipherBatch:
			exec = append(exec, fmt.Sprintf("skip %d", x.BatchIndex))
		case *fx.Accuse:
			justice = append(justice, fmt.Sprintf("accuse %d as %d", x.HalfStep, x.KeyperIndex))
		case *fx.Appeal:
			z := x.Authorization
			justice = append(justice, fmt.Sprintf("appeal %d %x %v %x", z.HalfStep, z.BatchHash, z.SignerIndices, z.Signatures))
		}
	}
	sort.Strings(justice)
	return
}

func (w *madeWorld) decide(k *vt.K) ([]fx.IAction, bool) {
	d := keyper.Decider{Config: w.cfg, State: w.st, Shutter: w.sh, MainChain: w.mc, Actions: []fx.IAction{}, PhaseLength: keyper.NewConstantPhaseLength(10)}
	if msg := vt.NoPanic(d.Decide); msg != "" {
		k.Failf("decider-panic", "the keyper panics when deciding: %s", msg)
		return nil, false
	}
	return d.Actions, true
}

// madeWorlds compares decisions with what has to be decided.
func madeWorlds(c *vt.C, justice bool) {
	c.Cases("worlds", c.N(30000, 2500000), 0, func(k *vt.K) {
		w := makeWorld(k.R)
		w.describe(k)
		wantE, wantJ := w.wantExecutions(), w.wantJustice()
		acts, ok := w.decide(k)
		if !ok {
			return
		}
		gotE, gotJ := renderDecision(acts)
		got, want := gotE, wantE
		if justice {
			got, want = gotJ, wantJ
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			k.Failf("decision", "decided %v, wanted %v", got, want)
			return
		}
		for _, x := range got {
			var kind string
			fmt.Sscanf(x, "%s", &kind)
			k.Count("made-up worlds: " + kind)
		}
		if w.mc.NumExecutionHalfSteps > 0 && !justice {
			for _, c := range w.mc.BatchConfigs[1:] {
				if len(c.Keypers) == 0 && c.BatchSpan > 0 {
					k.Count("made-up worlds with a config without keypers")
					break
				}
			}
		}
		if len(got) >= 10 {
			k.Count("made-up worlds with a backlog")
		}
		// nothing is decided again while it's pending
		if acts, ok = w.decide(k); !ok {
			return
		}
		e2, j2 := renderDecision(acts)
		if !justice && len(gotE) > 0 && len(e2) > 0 {
			k.Failf("decided-twice", "decided %v and then %v without any change", gotE, e2)
			return
		}
		if justice && len(j2) > 0 {
			k.Failf("decided-twice", "decided %v and then %v without any change", gotJ, j2)
			return
		}
		// and it goes on once the half steps were done
		if !justice && len(gotE) > 0 {
			w.mc.NumExecutionHalfSteps += uint64(len(gotE))
			w.mc.CurrentBlock += uint64(k.R.Intn(5))
			w.step = w.mc.NumExecutionHalfSteps // pending up to the last one done
			want := w.wantExecutions()
			if acts, ok = w.decide(k); !ok {
				return
			}
			e3, _ := renderDecision(acts)
			if fmt.Sprint(e3) != fmt.Sprint(want) {
				k.Failf("decision-after", "after its half steps were done it decided %v, wanted %v", e3, want)
				return
			}
			if len(want) > 0 {
				k.Count("made-up worlds: further half steps after the first ones were done")
			}
		}
		k.Eval(fmt.Sprintf("%v @%d", got, w.mc.CurrentBlock), len(got) > 0)
	})
}
